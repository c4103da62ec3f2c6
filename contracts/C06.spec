tu
#include "/repo/TameParse/Dfa/basic_lexer.h"
#include "/repo/TameParse/Dfa/character_lexer.cpp"
#include "/repo/TameParse/Dfa/lexeme.cpp"
#include "/repo/TameParse/Dfa/accept_action.cpp"
template class dfa::dfa_lexer_base<dfa::state_machine<wchar_t, dfa::state_machine_flat_table>, 0, 0>;
template class dfa::dfa_lexer_base<dfa::state_machine<wchar_t, dfa::state_machine_flat_table>, 0, 1>;
inline void verif_use(std::istream& s, std::wistream& w, const dfa::basic_lexer& l) { l.create_stream_from(s); l.create_stream_from(w); }
endtu
option opt wrapcast
mlw
  (* a source of symbols: the symbols still to come; the end marker is not a symbol *)
  constant eof : int = -3
  type source = { rest: seq int }
  predicate int32 (c: int) = -2147483648 <= c <= 2147483647
  predicate symbols (s: seq int) = forall i. 0 <= i < length s -> s[i] <> eof /\ int32 s[i]
  let src_read (s: source) (_c: int) : (n: source, c: int)
    ensures { if length s.rest = 0 then n = s /\ c = eof else c = s.rest[0] /\ n.rest = s.rest[1 ..] }
  = if length s.rest = 0 then (s, -3) else ({ rest = s.rest[1 ..] }, s.rest[0])
  (* an automaton: C04 gives the tables' run_unsafe this meaning *)
  type sm
  function step (m: sm) (s c: int) : int
  function nstates (m: sm) : int
  axiom step_range: forall m s c. 0 <= s < nstates m -> -1 <= step m s c < nstates m
  axiom has_states: forall m. 1 <= nstates m
  val sm_step (m: sm) (s c: int) : int requires { 0 <= s < nstates m } ensures { result = step m s c }
  let rec ghost function after (m: sm) (q: int) (w: seq int) (n: int) : int
    requires { 0 <= n <= length w /\ 0 <= q < nstates m } variant { n } ensures { -1 <= result < nstates m }
  = if n = 0 then q else let s = after m q w (n - 1) in if s < 0 then -1 else pure { step m s w[n - 1] }
  lemma app_next: forall b r: seq int [snoc b r[0] ++ r[1 ..]]. length r > 0 -> snoc b r[0] ++ r[1 ..] = b ++ r by snoc b r[0] ++ r[1 ..] == b ++ r
  lemma app_cut: forall b r: seq int, n [b[n ..] ++ r]. 0 <= n <= length b -> b[0 .. n] ++ (b[n ..] ++ r) = b ++ r by b[0 .. n] ++ b[n ..] == b /\ b[0 .. n] ++ (b[n ..] ++ r) == (b[0 .. n] ++ b[n ..]) ++ r
  lemma erase_front: forall b: seq int, n [b[0 .. 0] ++ b[n .. length b]]. 0 <= n <= length b -> b[0 .. 0] ++ b[n .. length b] = b[n ..] by b[0 .. 0] ++ b[n .. length b] == b[n ..]
  lemma symbols_rest: forall a b: seq int. symbols (a ++ b) -> symbols b by forall i. 0 <= i < length b -> b[i] = (a ++ b)[length a + i]
  let rec lemma after_ext (m: sm) (q: int) (a b: seq int) (n: int)
    requires { 0 <= n <= length a /\ n <= length b /\ 0 <= q < nstates m } requires { forall i. 0 <= i < n -> a[i] = b[i] }
    ensures { after m q a n = after m q b n } variant { n }
  = if n > 0 then after_ext m q a b (n - 1)
  let rec lemma after_dead (m: sm) (q: int) (a: seq int) (n k: int)
    requires { 0 <= n <= k <= length a /\ 0 <= q < nstates m /\ after m q a n < 0 } ensures { after m q a k < 0 } variant { k }
  = if n < k then after_dead m q a n (k - 1)
endmlw
alias "dfa::state_machine<wchar_t, dfa::state_machine_flat_table>" "dfa::state_machine<wchar_t>"
abstract sm "dfa::state_machine<wchar_t>" ctor1=nd_tables
abstract source "dfa::lexer_symbol_stream"
ptr source "dfa::lexer_symbol_stream" own=ref
xfn src_read "dfa::lexer_symbol_stream::operator>>" upd=this,0
xfn sm_step "dfa::state_machine<wchar_t>::run_unsafe"
xfn sm_step "dfa::state_machine<wchar_t, dfa::state_machine_flat_table, dfa::symbol_translator<wchar_t>, true>::run_unsafe"
vec int "std::basic_string<int>" "int"
vec int "std::vector<int>" "int"
harr int "const int *" "int"
harr int "int *" "int"
record pos "dfa::position"
record trk "dfa::position_tracker"
record lex "dfa::lexeme"
ptr lex "dfa::lexeme"
mlw
  predicate is_break (c: int) = c = 0x0a \/ c = 0x0d \/ c = 0x0b \/ c = 0x0c \/ c = 0x85 \/ c = 0x2028 \/ c = 0x2029
  (* symbol i of h starts a new line: it is a line break and not the LF of a CR LF pair *)
  predicate ends_line (h: seq int) (i: int) = is_break h[i] /\ not (h[i] = 0x0a /\ i > 0 /\ h[i-1] = 0x0d)
  let rec ghost function nlines (h: seq int) (n: int) : int
    requires { 0 <= n <= length h }
    ensures { 0 <= result <= n }
    variant { n }
  = if n = 0 then 0 else nlines h (n-1) + (if pure { ends_line h (n-1) } then 1 else 0)
  let rec lemma nlines_ext (a b: seq int) (n: int)
    requires { 0 <= n <= length a /\ n <= length b }
    requires { forall i. 0 <= i < n -> a[i] = b[i] }
    ensures { nlines a n = nlines b n }
    variant { n }
  = if n > 0 then nlines_ext a b (n-1)
  (* p is the position reached from p0 after the symbols h: the property itself *)
  predicate reached (p0: pos) (h: seq int) (p: pos) =
    p.pos_Offset = p0.pos_Offset + length h
    /\ p.pos_Line = p0.pos_Line + nlines h (length h)
    /\ (if exists i. 0 <= i < length h /\ is_break h[i]
        then 0 <= p.pos_Column < length h /\ is_break h[length h - 1 - p.pos_Column]
             /\ (forall i. length h - p.pos_Column <= i < length h -> not is_break h[i])
        else p.pos_Column = p0.pos_Column + length h)
  predicate tracks (p0: pos) (h: seq int) (t: trk) =
    reached p0 h t.trk_CurrentPosition /\ (t.trk_SeenReturn <-> length h > 0 /\ h[length h - 1] = 0x0d)
  predicate room (p: pos) (n: int) = -1 <= p.pos_Offset <= 2147483647 - n /\ -1 <= p.pos_Line <= 2147483647 - n /\ -1 <= p.pos_Column <= 2147483647 - n
endmlw
fn pos_zero
  cxx dfa::position::position()
  ensures result.pos_Offset = 0 /\ result.pos_Line = 0 /\ result.pos_Column = 0
end
fn pos_make
  cxx dfa::position::position(int, int, int)
  ensures result.pos_Offset = offset /\ result.pos_Line = line /\ result.pos_Column = column
end
fn pos_copy
  cxx dfa::position::position(const dfa::position&)
  ensures result = copyFrom
end
fn trk_zero
  cxx dfa::position_tracker::position_tracker()
  ensures starts at the beginning:: forall p0. p0.pos_Offset = 0 -> p0.pos_Line = 0 -> p0.pos_Column = 0 -> tracks p0 empty result
  ensures result.trk_CurrentPosition.pos_Offset = 0 /\ result.trk_CurrentPosition.pos_Line = 0 /\ result.trk_CurrentPosition.pos_Column = 0
end
fn trk_copy
  cxx dfa::position_tracker::position_tracker(const dfa::position_tracker&)
  ensures result = copyFrom
end
fn trk_current
  cxx dfa::position_tracker::current_position
  ensures result = this.trk_CurrentPosition
end
fn update_one
  opt overflow
  cxx dfa::position_tracker::update_position(int)
  requires room this.trk_CurrentPosition 1
  ensures one symbol advances the position exactly:: forall p0 h. tracks p0 h (old this) -> tracks p0 (snoc h symbol) this
  ensures this.trk_CurrentPosition.pos_Offset = (old this).trk_CurrentPosition.pos_Offset + 1
  ensures room (old this).trk_CurrentPosition 1 -> forall k. room (old this).trk_CurrentPosition (k+1) -> room this.trk_CurrentPosition k
  exit assert { forall p0 h. tracks p0 h (old this) -> nlines (snoc h symbol) (length h) = nlines h (length h) }
end
fn lex_make
  cxx dfa::lexeme::lexeme(const std::basic_string<int>&, const dfa::position&, int)
  ensures result.lex_Position = pos /\ result.lex_Symbols = syms /\ result.lex_Matched = matched
end
fn lex_copy
  cxx dfa::lexeme::lexeme(const dfa::lexeme&)
  ensures result = copyFrom
end
fn lex_pos
  cxx dfa::lexeme::pos
  ensures result = this.lex_Position
end
fn update_batch
  opt overflow
  cxx dfa::position_tracker::update_position(__gnu_cxx::__normal_iterator<int *, std::vector<int>>, __gnu_cxx::__normal_iterator<int *, std::vector<int>>)
  range batch=std::vector<int> begin end
  requires 0 <= v_begin <= v_end <= length batch
  requires room this.trk_CurrentPosition (length batch)
  requires forall i. 0 <= i < length batch -> -2147483648 <= batch[i] <= 2147483647
  ensures a batch is the same as its symbols one at a time:: forall p0 h. tracks p0 h (old this) -> tracks p0 (h ++ batch[v_begin .. v_end]) this
  loop 0
    invariant v_begin <= symbol <= v_end
    invariant room this.trk_CurrentPosition (length batch - (symbol - v_begin))
    invariant forall p0 h. tracks p0 h (old this) -> tracks p0 (h ++ batch[v_begin .. symbol]) this
    variant v_end - symbol
    begin assert { forall h. (h ++ batch[v_begin .. symbol + 1]) == snoc (h ++ batch[v_begin .. symbol]) batch[symbol] }
end
fn lex_range
  cxx dfa::lexeme::lexeme(iterator_type, iterator_type, const dfa::position&, int, size_t)
  range syms=std::vector<int> begin end
  requires 0 <= v_begin <= v_end <= length syms
  requires forall i. 0 <= i < length syms -> int32 syms[i]
  ensures result.lex_Position = pos /\ result.lex_Matched = matched
  ensures the content is the given symbols:: result.lex_Symbols = syms[v_begin .. v_end]
  loop 0
    invariant v_begin <= symbol <= v_end
    invariant this.lex_Position = pos /\ this.lex_Matched = matched
    invariant this.lex_Symbols == syms[v_begin .. symbol]
    variant v_end - symbol
end
macro STREAM K N
record strm$K "dfa::dfa_lexer_base<dfa::state_machine<wchar_t>, 0, $N, -1, const dfa::state_machine<wchar_t> &>::dfa_stream"
mlw
  function src$K (t: strm$K) : seq int = match t.strm$K_Stream with Ptr s -> s.rest | Null -> empty end
  (* what is left of the input: read ahead, or not read yet *)
  function left$K (t: strm$K) : seq int = t.strm$K_Buffer ++ src$K t
  function acc$K (t: strm$K) : seq int = hs t.strm$K_Accept
  predicate ok$K (t: strm$K) = t.strm$K_Stream <> Null /\ symbols (left$K t) /\ t.strm$K_Accept = HArr (acc$K t) /\ length (acc$K t) = nstates t.strm$K_StateMachine
    /\ 0 <= t.strm$K_InitialState < nstates t.strm$K_StateMachine /\ $N < nstates t.strm$K_StateMachine
  function st$K (t: strm$K) (n: int) : int = after t.strm$K_StateMachine t.strm$K_InitialState (left$K t) n
  predicate accepts$K (t: strm$K) (n: int) = 1 <= n <= length (left$K t) /\ st$K t n >= 0 /\ (acc$K t)[st$K t n] >= 0
  predicate longest$K (t: strm$K) (n: int) (m: int) = (accepts$K t n /\ m = (acc$K t)[st$K t n] /\ forall k. accepts$K t k -> k <= n)
    \/ (n = 1 /\ m = -1 /\ forall k. not accepts$K t k)
endmlw
fn next$K
  cxx dfa::dfa_lexer_base<dfa::state_machine<wchar_t>, 0, $N, -1, const dfa::state_machine<wchar_t> &>::dfa_stream::operator>>
  result this
  opt overflow
  requires ok$K this
  requires length (left$K this) <= 2147483646
  requires room this.strm$K_Position.trk_CurrentPosition (length (left$K this))
  ensures the stream stays usable:: ok$K this /\ this.strm$K_StateMachine = (old this).strm$K_StateMachine /\ acc$K this = acc$K (old this)
  ensures the end of the input gives no token:: length (left$K (old this)) = 0 -> v_result = Null /\ left$K this = left$K (old this)
  ensures a token and what is left after it are what was left before:: length (left$K (old this)) > 0 -> match v_result with Null -> false | Ptr l -> length l.lex_Symbols >= 1 /\ left$K (old this) = l.lex_Symbols ++ left$K this end
  ensures the token is the longest accepted prefix, or one unmatched symbol:: length (left$K (old this)) > 0 -> match v_result with Null -> false | Ptr l -> longest$K (old this) (length l.lex_Symbols) l.lex_Matched end
  ensures the token is at the position after the symbols before it:: length (left$K (old this)) > 0 -> match v_result with Null -> false | Ptr l -> l.lex_Position = (old this).strm$K_Position.trk_CurrentPosition /\ forall p0 h. tracks p0 h (old this).strm$K_Position -> tracks p0 (h ++ l.lex_Symbols) this.strm$K_Position end
  loop 0
    invariant 0 <= pos <= length this.strm$K_Buffer
    invariant left$K this = left$K (old this)
    invariant this.strm$K_Stream <> Null /\ this.strm$K_StateMachine = (old this).strm$K_StateMachine /\ this.strm$K_Accept = (old this).strm$K_Accept /\ this.strm$K_InitialState = (old this).strm$K_InitialState /\ this.strm$K_Position = (old this).strm$K_Position
    invariant state = st$K (old this) pos /\ 0 <= state < nstates this.strm$K_StateMachine
    invariant (acceptPos = -1 /\ acceptSymbol = -1 /\ forall k. k <= pos -> not accepts$K (old this) k) \/ (1 <= acceptPos <= pos /\ accepts$K (old this) acceptPos /\ acceptSymbol = (acc$K (old this))[st$K (old this) acceptPos] /\ forall k. k <= pos -> accepts$K (old this) k -> k <= acceptPos)
    begin assert { forall i. 0 <= i < length (src$K this) -> (src$K this)[i] = (left$K this)[length this.strm$K_Buffer + i] }
    variant length (left$K (old this)) - pos
    after assert { pos <= length (left$K (old this)) /\ left$K this = left$K (old this) }
    after assert { pos = length (left$K (old this)) \/ st$K (old this) pos < 0 }
    after assert { forall k. pos <= k <= length (left$K (old this)) -> st$K (old this) pos < 0 -> st$K (old this) k < 0 }
    after assert { length (left$K (old this)) > 0 -> length this.strm$K_Buffer > 0 }
    after assert { length (left$K (old this)) > 0 -> longest$K (old this) (if acceptPos <= 0 then 1 else acceptPos) acceptSymbol /\ acceptPos <= length this.strm$K_Buffer }
    after assert { forall i. 0 <= i < length this.strm$K_Buffer -> this.strm$K_Buffer[i] = (left$K (old this))[i] }
  exit assert { match v_result with Null -> true | Ptr l -> left$K (old this) = l.lex_Symbols ++ left$K this end }
  exit assert { match v_result with Null -> true | Ptr l -> symbols (left$K this) end }
end
endmacro
expand STREAM A 0
expand STREAM B 1
macro CREATE K N
fn initial$K
  cxx dfa::dfa_lexer_base<dfa::state_machine<wchar_t>, 0, $N, -1, const dfa::state_machine<wchar_t> &>::dfa_stream::set_initial_state
  ensures this = { (old this) with strm$K_InitialState = initialState }
end
endmacro
expand CREATE A 0
expand CREATE B 1
record ls "dfa::character_lexer::lstream"
mlw
  function lsrc (t: ls) : seq int = match t.ls_Stream with Ptr s -> s.rest | Null -> empty end
endmlw
fn next_char
  cxx dfa::character_lexer::lstream::operator>>
  result this
  opt overflow
  requires this.ls_Stream <> Null /\ symbols (lsrc this) /\ room this.ls_Position.trk_CurrentPosition (length (lsrc this))
  ensures the stream stays usable:: this.ls_Stream <> Null /\ symbols (lsrc this)
  ensures the end of the input gives no token:: length (lsrc (old this)) = 0 -> v_result = Null /\ lsrc this = lsrc (old this)
  ensures each token is the next symbol:: length (lsrc (old this)) > 0 -> match v_result with Null -> false | Ptr l -> let c = (lsrc (old this))[0] in l.lex_Symbols == cons c empty /\ l.lex_Matched = c /\ lsrc (old this) == cons c (lsrc this) end
  ensures the token is at the position after the symbols before it:: length (lsrc (old this)) > 0 -> match v_result with Null -> false | Ptr l -> l.lex_Position = (old this).ls_Position.trk_CurrentPosition /\ forall p0 h. tracks p0 h (old this).ls_Position -> tracks p0 (snoc h (lsrc (old this))[0]) this.ls_Position end
end
record aa "dfa::accept_action"
ptr aa "dfa::accept_action"
vec "ptr aa" "std::vector<dfa::accept_action *>" "dfa::accept_action *"
mlw
  type ndfa
  function nd_states (d: ndfa) : int
  val nd_count (d: ndfa) : int ensures { result = nd_states d /\ 0 <= result <= 2147483647 }
  function nd_actions (d: ndfa) (s: int) : seq (ptr aa)
  val nd_actions_of (d: ndfa) (s: int) : seq (ptr aa) requires { 0 <= s < nd_states d } ensures { result = nd_actions d s /\ forall i. 0 <= i < length result -> result[i] <> Null }
  function nd_sm (d: ndfa) : sm
  val nd_tables (d: ndfa) : sm ensures { result = nd_sm d }
  function sym (p: ptr aa) : int = match p with Ptr a -> a.aa_Symbol | Null -> 0 end
  (* the symbol of the action that ranks highest: the lowest number (C09) *)
  predicate best (s: seq (ptr aa)) (t: int) = if length s = 0 then t = -1 else (exists i. 0 <= i < length s /\ sym s[i] = t) /\ forall i. 0 <= i < length s -> t <= sym s[i]
endmlw
abstract ndfa "dfa::ndfa"
xfn nd_count "dfa::ndfa::count_states"
xfn nd_actions_of "dfa::ndfa::actions_for_state"
fn aa_symbol
  cxx dfa::accept_action::symbol
  ensures result = this.aa_Symbol
end
fn aa_less
  cxx dfa::accept_action::operator<
  ensures a lower symbol number has a higher priority:: result <-> this.aa_Symbol > compareTo.aa_Symbol
end
macro ACCEPT K N
record lx$K "dfa::dfa_lexer_base<dfa::state_machine<wchar_t>, 0, $N, -1, const dfa::state_machine<wchar_t> &>"
fn fill$K
  cxx dfa::dfa_lexer_base<dfa::state_machine<wchar_t>, 0, $N, -1, const dfa::state_machine<wchar_t> &>::fill_accept(int&, __gnu_cxx::__normal_iterator<dfa::accept_action *const *, std::vector<dfa::accept_action *>>, __gnu_cxx::__normal_iterator<dfa::accept_action *const *, std::vector<dfa::accept_action *>>)
  opt nothis
  range actions=std::vector<dfa::accept_action *> begin end
  requires v_begin = 0 /\ v_end = length actions
  requires forall i. 0 <= i < length actions -> actions[i] <> Null
  ensures the highest ranked action is the one accepted:: best actions target
  loop 0
    invariant 0 <= action <= v_end
    invariant highest <> Null /\ (exists i. 0 <= i < v_end /\ actions[i] = highest) /\ forall i. 0 <= i < action -> sym highest <= sym actions[i]
    variant v_end - action
end
fn lexer$K
  cxx dfa::dfa_lexer_base<dfa::state_machine<wchar_t>, 0, $N, -1, const dfa::state_machine<wchar_t> &>::dfa_lexer_base(const dfa::ndfa&)
  ensures the tables are those of the automaton:: result.lx$K_StateMachine = nd_sm dfa
  ensures every state accepts its highest ranked action:: result.lx$K_Accept = HArr (hs result.lx$K_Accept) /\ length (hs result.lx$K_Accept) >= nd_states dfa /\ forall s. 0 <= s < nd_states dfa -> best (nd_actions dfa s) (hs result.lx$K_Accept)[s]
  loop 0
    invariant 0 <= stateId <= this.lx$K_MaxState /\ this.lx$K_MaxState = nd_states dfa
    invariant this.lx$K_Accept = HArr (hs this.lx$K_Accept) /\ length (hs this.lx$K_Accept) = nd_states dfa /\ this.lx$K_StateMachine = nd_sm dfa
    invariant forall s. 0 <= s < stateId -> best (nd_actions dfa s) (hs this.lx$K_Accept)[s]
    variant this.lx$K_MaxState - stateId
end
endmacro
expand ACCEPT A 0
expand ACCEPT B 1
mlw client
  (* a whole input: reading tokens until there are none ends, and the tokens put together are the input *)
  let ghost fits (p0 p: pos) (h: seq int) (n: int)
    requires { reached p0 h p /\ p0.pos_Offset = 0 /\ p0.pos_Line = 0 /\ p0.pos_Column = 0 /\ length h + n <= 2147483647 /\ 0 <= n }
    ensures { room p n }
  = assert { 0 <= nlines h (length h) <= length h }
  let ghost assoc3 (a b c: seq int)
    ensures { (a ++ b) ++ c = a ++ (b ++ c) }
  = assert { (a ++ b) ++ c == a ++ (b ++ c) }
  let lex_all (ref t: strmA) : (whole: seq int)
    requires { okA t /\ length (leftA t) <= 2147483646 }
    requires { let p = t.strmA_Position.trk_CurrentPosition in p.pos_Offset = 0 /\ p.pos_Line = 0 /\ p.pos_Column = 0 /\ not t.strmA_Position.trk_SeenReturn }
    ensures { [@expl:the tokens put together are the input] whole = leftA (old t) /\ length (leftA t) = 0 }
  = let ghost p0 = t.strmA_Position.trk_CurrentPosition in
    let ghost whole0 = pure { leftA t } in
    let ref seen = empty in
    let ref tok = Null in
    assert { tracks p0 empty t.strmA_Position };
    fits p0 t.strmA_Position.trk_CurrentPosition empty (length whole0);
    nextA t tok;
    assert { forall h: seq int. empty ++ h == h };
    while not (is_null tok) do
      invariant { okA t }
      invariant { match tok with Null -> seen = whole0 /\ length (leftA t) = 0 | Ptr l -> length l.lex_Symbols >= 1 /\ seen ++ (l.lex_Symbols ++ leftA t) = whole0 end }
      invariant { match tok with Null -> true | Ptr l -> tracks p0 (seen ++ l.lex_Symbols) t.strmA_Position end }
      invariant { length (leftA t) <= length whole0 }
      variant { length (leftA t) + (match tok with Null -> 0 | _ -> 1 end) }
      let ghost s0 = seen in
      let ghost l0 = (pderef tok).lex_Symbols in
      let ghost b0 = pure { leftA t } in
      seen <- seen ++ (pderef tok).lex_Symbols;
      assoc3 s0 l0 b0;
      assert { seen ++ b0 = s0 ++ (l0 ++ b0) };
      assert { seen ++ b0 = whole0 };
      assert { length b0 = 0 -> seen == seen ++ b0 };
      fits p0 t.strmA_Position.trk_CurrentPosition seen (length b0);
      nextA t tok
    done;
    seen
endmlw
