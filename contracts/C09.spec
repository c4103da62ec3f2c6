tu
#include "/repo/TameParse/Dfa/symbol_set.cpp"
#include "/repo/TameParse/Dfa/transition.cpp"
#include "/repo/TameParse/Dfa/accept_action.cpp"
#include "/repo/TameParse/Dfa/lexeme.cpp"
template class dfa::range<int>;
static inline bool use_containers(const util::container<dfa::lexeme>& a, const util::container<dfa::lexeme>& b) { return a < b || a > b || a <= b || a >= b; }
endtu
option opaque epsilon
alias "container<lexeme>" "util::container<dfa::lexeme, util::simple_constructor<dfa::lexeme>>"
record rg "dfa::range<int>"
record cmp_lower "dfa::range<int>::sort_by_lower"
omap RS "std::set<dfa::range<int>, dfa::range<int>::sort_by_lower>" key int elt rg eltty "dfa::range<int>" keyof rg_Lower
record ss "dfa::symbol_set"
record tran "dfa::transition"
record acc "dfa::accept_action"
ptr acc "dfa::accept_action"
record pos "dfa::position"
mlw
  (* std::basic_string<int> is ordered lexicographically: assumed of the standard library *)
  let rec ghost function prefix_eq (a b: seq int) (n: int) : bool
    requires { 0 <= n <= length a /\ n <= length b }
    ensures { result <-> forall i. 0 <= i < n -> a[i] = b[i] }
    variant { n }
  = if n = 0 then true else pure { a[n-1] = b[n-1] } && prefix_eq a b (n-1)
  predicate str_lt (a b: seq int) = exists n. 0 <= n <= length a /\ n < length b /\ (forall i. 0 <= i < n -> a[i] = b[i]) /\ (n = length a \/ a[n] < b[n])
  val str_lt_ (a b: seq int) : bool ensures { result <-> str_lt a b } ensures { not result -> a = b \/ str_lt b a }
  val str_eq_ (a b: seq int) : bool ensures { result <-> a = b }
  lemma str_irrefl: forall a. not str_lt a a
  lemma str_trans: forall a b c. str_lt a b -> str_lt b c -> str_lt a c
endmlw
vec int "std::basic_string<int>" "int" eqfn=str_eq_ ltfn=str_lt_
record lex "dfa::lexeme"
ptr lex "dfa::lexeme"
record cref "util::container<dfa::lexeme, util::simple_constructor<dfa::lexeme>>::reference"
ptr cref "util::container<dfa::lexeme, util::simple_constructor<dfa::lexeme>>::reference"
record cont "util::container<dfa::lexeme, util::simple_constructor<dfa::lexeme>>"
mlw
  (* ------------- ranges ------------- *)
  predicate rg_lt (a b: rg) = a.rg_Lower < b.rg_Lower \/ (a.rg_Lower = b.rg_Lower /\ a.rg_Upper < b.rg_Upper)
  lemma rg_irrefl: forall a. not rg_lt a a
  lemma rg_trans: forall a b c. rg_lt a b -> rg_lt b c -> rg_lt a c
  lemma rg_total: forall a b. rg_lt a b \/ a = b \/ rg_lt b a
  (* ------------- character sets: by number of ranges, then by the first range that differs ------------- *)
  predicate wfm (m: RS.t) = forall k. RS.mem m k -> (RS.get m k).rg_Lower = k
  predicate wf (s: ss) = wfm s.ss_Symbols
  predicate agree (a b: RS.t) (p: int) = forall k. k < p -> ((RS.mem a k <-> RS.mem b k) /\ (RS.mem a k -> RS.get a k = RS.get b k))
  predicate set_less (a b: ss) =
    RS.size a.ss_Symbols < RS.size b.ss_Symbols
    \/ (RS.size a.ss_Symbols = RS.size b.ss_Symbols /\ exists p. agree a.ss_Symbols b.ss_Symbols p /\ RS.mem a.ss_Symbols p
        /\ (RS.mem b.ss_Symbols p -> (RS.get a.ss_Symbols p).rg_Upper < (RS.get b.ss_Symbols p).rg_Upper))
  lemma set_irrefl: forall a. not set_less a a
  lemma set_trans: forall a b c. set_less a b -> set_less b c -> set_less a c
  lemma set_asym: forall a b. set_less a b -> not set_less b a
  (* ------------- transitions, accept actions, positions ------------- *)
  predicate tran_less (a b: tran) = a.tran_SymbolSet < b.tran_SymbolSet \/ (a.tran_SymbolSet = b.tran_SymbolSet /\ a.tran_NewState < b.tran_NewState)
  lemma tran_irrefl: forall a. not tran_less a a
  lemma tran_trans: forall a b c. tran_less a b -> tran_less b c -> tran_less a c
  lemma tran_total: forall a b. tran_less a b \/ a = b \/ tran_less b a
  predicate acc_less (a b: acc) = a.acc_Symbol > b.acc_Symbol
  lemma acc_irrefl: forall a. not acc_less a a
  lemma acc_trans: forall a b c. acc_less a b -> acc_less b c -> acc_less a c
  lemma acc_incomp: forall a b c. not acc_less a b /\ not acc_less b a -> not acc_less b c /\ not acc_less c b -> not acc_less a c /\ not acc_less c a
  predicate pos_less (a b: pos) = a.pos_Line < b.pos_Line \/ (a.pos_Line = b.pos_Line /\ (a.pos_Column < b.pos_Column \/ (a.pos_Column = b.pos_Column /\ a.pos_Offset < b.pos_Offset)))
  lemma pos_irrefl: forall a. not pos_less a a
  lemma pos_trans: forall a b c. pos_less a b -> pos_less b c -> pos_less a c
  lemma pos_total: forall a b. pos_less a b \/ a = b \/ pos_less b a
  predicate lex_less (a b: lex) = a.lex_Matched < b.lex_Matched \/ (a.lex_Matched = b.lex_Matched /\
     (str_lt a.lex_Symbols b.lex_Symbols \/ (a.lex_Symbols = b.lex_Symbols /\ pos_less a.lex_Position b.lex_Position)))
  lemma lex_irrefl: forall a. not lex_less a a
  lemma lex_trans: forall a b c. lex_less a b -> lex_less b c -> lex_less a c
  (* ------------- shared containers: null first, then the items ------------- *)
  predicate plex_less (a b: ptr lex) = match a, b with _, Null -> false | Null, Ptr _ -> true | Ptr x, Ptr y -> lex_less x y end
  let lemma plex_irrefl (a: ptr lex) ensures { not plex_less a a } = match a with Null -> () | Ptr _ -> () end
  let lemma plex_trans (a b c: ptr lex) requires { plex_less a b /\ plex_less b c } ensures { plex_less a c }
  = match a, b, c with Ptr x, Ptr y, Ptr z -> assert { lex_less x y /\ lex_less y z } | _ -> () end
  predicate cont_ok (c: cont) = c.cont_Ref <> Null
  function item_of (c: cont) : ptr lex = match c.cont_Ref with Ptr r -> r.cref_item | Null -> Null end
endmlw

fn range_eq
  cxx dfa::range<int>::operator==
  ensures equal values:: result <-> this = compareTo
end
fn range_ne
  cxx dfa::range<int>::operator!=
  ensures negation of equality:: result <-> this <> compareTo
end
fn range_lt
  cxx dfa::range<int>::operator<
  ensures strict order:: result <-> rg_lt this compareTo
end
fn range_le
  cxx dfa::range<int>::operator<=
  ensures negation of the opposite strict order:: result <-> not rg_lt compareTo this
end
fn range_gt
  cxx dfa::range<int>::operator>
  ensures exchanged operands:: result <-> rg_lt compareTo this
end
fn range_ge
  cxx dfa::range<int>::operator>=
  ensures negation of the strict order:: result <-> not rg_lt this compareTo
end
fn set_eq
  cxx dfa::symbol_set::operator==
  requires wf this /\ wf compareTo
  ensures equal values:: result <-> this = compareTo
  loop 0
    invariant RS.valid this.ss_Symbols ourSymbol /\ RS.valid compareTo.ss_Symbols theirSymbol
    invariant RS.size this.ss_Symbols = RS.size compareTo.ss_Symbols
    invariant RS.rank this.ss_Symbols ourSymbol = RS.rank compareTo.ss_Symbols theirSymbol
    invariant forall k. RS.mem this.ss_Symbols k -> not RS.at_or_after k ourSymbol -> RS.mem compareTo.ss_Symbols k /\ RS.get this.ss_Symbols k = RS.get compareTo.ss_Symbols k
    invariant forall k. RS.mem compareTo.ss_Symbols k -> not RS.at_or_after k theirSymbol -> RS.mem this.ss_Symbols k
    variant RS.rank this.ss_Symbols ourSymbol
    after assert { RS.same this.ss_Symbols compareTo.ss_Symbols }
end
fn set_ne
  cxx dfa::symbol_set::operator!=
  requires wf this /\ wf compareTo
  ensures negation of equality:: result <-> this <> compareTo
end
fn set_lt
  cxx dfa::symbol_set::operator<
  requires wf this /\ wf compareTo
  ensures strict order:: result <-> set_less this compareTo
  ensures comparable unless equal:: not result -> this = compareTo \/ set_less compareTo this
  loop 0
    invariant RS.valid this.ss_Symbols ourSymbol /\ RS.valid compareTo.ss_Symbols theirSymbol
    invariant RS.size this.ss_Symbols = RS.size compareTo.ss_Symbols
    invariant RS.rank this.ss_Symbols ourSymbol = RS.rank compareTo.ss_Symbols theirSymbol
    invariant forall k. RS.mem this.ss_Symbols k -> not RS.at_or_after k ourSymbol -> RS.mem compareTo.ss_Symbols k /\ RS.get this.ss_Symbols k = RS.get compareTo.ss_Symbols k
    invariant forall k. RS.mem compareTo.ss_Symbols k -> not RS.at_or_after k theirSymbol -> RS.mem this.ss_Symbols k
    invariant forall k j. RS.mem compareTo.ss_Symbols k -> not RS.at_or_after k theirSymbol -> RS.mem this.ss_Symbols j -> RS.at_or_after j ourSymbol -> k < j
    invariant forall k j. RS.mem this.ss_Symbols k -> not RS.at_or_after k ourSymbol -> RS.mem compareTo.ss_Symbols j -> RS.at_or_after j theirSymbol -> k < j
    variant RS.rank this.ss_Symbols ourSymbol
    begin assert { forall p. RS.at_or_after p ourSymbol -> not RS.before ourSymbol p -> RS.at_or_after p theirSymbol -> not RS.before theirSymbol p -> agree this.ss_Symbols compareTo.ss_Symbols p };
          assert { match ourSymbol, theirSymbol with At x, At y -> (x < y -> agree this.ss_Symbols compareTo.ss_Symbols x /\ not RS.mem compareTo.ss_Symbols x) /\ (y < x -> agree compareTo.ss_Symbols this.ss_Symbols y /\ not RS.mem this.ss_Symbols y) | _ -> false end }
    after assert { RS.same this.ss_Symbols compareTo.ss_Symbols }
end
fn set_le
  cxx dfa::symbol_set::operator<=
  requires wf this /\ wf compareTo
  ensures negation of the opposite strict order:: result <-> not set_less compareTo this
  loop 0
    invariant RS.valid this.ss_Symbols ourSymbol /\ RS.valid compareTo.ss_Symbols theirSymbol
    invariant RS.size this.ss_Symbols = RS.size compareTo.ss_Symbols
    invariant RS.rank this.ss_Symbols ourSymbol = RS.rank compareTo.ss_Symbols theirSymbol
    invariant forall k. RS.mem this.ss_Symbols k -> not RS.at_or_after k ourSymbol -> RS.mem compareTo.ss_Symbols k /\ RS.get this.ss_Symbols k = RS.get compareTo.ss_Symbols k
    invariant forall k. RS.mem compareTo.ss_Symbols k -> not RS.at_or_after k theirSymbol -> RS.mem this.ss_Symbols k
    invariant forall k j. RS.mem compareTo.ss_Symbols k -> not RS.at_or_after k theirSymbol -> RS.mem this.ss_Symbols j -> RS.at_or_after j ourSymbol -> k < j
    invariant forall k j. RS.mem this.ss_Symbols k -> not RS.at_or_after k ourSymbol -> RS.mem compareTo.ss_Symbols j -> RS.at_or_after j theirSymbol -> k < j
    variant RS.rank this.ss_Symbols ourSymbol
    begin assert { forall p. RS.at_or_after p ourSymbol -> not RS.before ourSymbol p -> RS.at_or_after p theirSymbol -> not RS.before theirSymbol p -> agree this.ss_Symbols compareTo.ss_Symbols p };
          assert { match ourSymbol, theirSymbol with At x, At y -> (x < y -> agree this.ss_Symbols compareTo.ss_Symbols x /\ not RS.mem compareTo.ss_Symbols x) /\ (y < x -> agree compareTo.ss_Symbols this.ss_Symbols y /\ not RS.mem this.ss_Symbols y) | _ -> false end }
    after assert { RS.same this.ss_Symbols compareTo.ss_Symbols }
end
fn set_gt
  cxx dfa::symbol_set::operator>
  requires wf this /\ wf compareTo
  ensures exchanged operands:: result <-> set_less compareTo this
end
fn set_ge
  cxx dfa::symbol_set::operator>=
  requires wf this /\ wf compareTo
  ensures negation of the strict order:: result <-> not set_less this compareTo
end
fn tran_eq
  cxx dfa::transition::operator==
  ensures equal values:: result <-> this = compareTo
end
fn tran_ne
  cxx dfa::transition::operator!=
  ensures negation of equality:: result <-> this <> compareTo
end
fn tran_lt
  cxx dfa::transition::operator<
  ensures strict order:: result <-> tran_less this compareTo
end
fn tran_le
  cxx dfa::transition::operator<=
  ensures negation of the opposite strict order:: result <-> not tran_less compareTo this
end
fn tran_gt
  cxx dfa::transition::operator>
  ensures exchanged operands:: result <-> tran_less compareTo this
end
fn tran_ge
  cxx dfa::transition::operator>=
  ensures negation of the strict order:: result <-> not tran_less this compareTo
end
fn acc_eqp
  cxx dfa::accept_action::operator==(const dfa::accept_action *)
  ensures equal values:: result <-> compareTo = Ptr this
end
fn acc_nep
  cxx dfa::accept_action::operator!=(const dfa::accept_action *)
  ensures negation of equality:: result <-> compareTo <> Ptr this
end
fn acc_eq
  cxx dfa::accept_action::operator==(const dfa::accept_action&)
  ensures equal values:: result <-> compareTo = this
end
fn acc_ne
  cxx dfa::accept_action::operator!=(const dfa::accept_action&)
  ensures negation of equality:: result <-> compareTo <> this
end
fn acc_lt
  cxx dfa::accept_action::operator<
  ensures strict order:: result <-> acc_less this compareTo
end
fn acc_le
  cxx dfa::accept_action::operator<=
  ensures negation of the opposite strict order:: result <-> not acc_less compareTo this
end
fn acc_gt
  cxx dfa::accept_action::operator>
  ensures exchanged operands:: result <-> acc_less compareTo this
end
fn acc_ge
  cxx dfa::accept_action::operator>=
  ensures negation of the strict order:: result <-> not acc_less this compareTo
end
fn position_eq
  cxx dfa::position::operator==
  ensures equal values:: result <-> this = compareTo
end
fn position_ne
  cxx dfa::position::operator!=
  ensures negation of equality:: result <-> this <> compareTo
end
fn position_lt
  cxx dfa::position::operator<
  ensures strict order:: result <-> pos_less this compareTo
end
fn position_le
  cxx dfa::position::operator<=
  ensures negation of the opposite strict order:: result <-> not pos_less compareTo this
end
fn position_gt
  cxx dfa::position::operator>
  ensures exchanged operands:: result <-> pos_less compareTo this
end
fn position_ge
  cxx dfa::position::operator>=
  ensures negation of the strict order:: result <-> not pos_less this compareTo
end
fn lexeme_lt
  cxx dfa::lexeme::operator<
  ensures strict order:: result <-> lex_less this compareTo
  ensures comparable unless equal:: not result -> this = compareTo \/ lex_less compareTo this
end
fn lexeme_compare
  cxx dfa::lexeme::compare
  ensures strict order:: result <-> plex_less a b
  ensures comparable unless equal:: not result -> a = b \/ plex_less b a
end
fn cont_lt
  cxx util::container<dfa::lexeme, util::simple_constructor<dfa::lexeme>>::operator<
  requires cont_ok this /\ cont_ok compareTo
  ensures strict order of the items:: result <-> plex_less (item_of this) (item_of compareTo)
  ensures comparable unless equal:: not result -> item_of this = item_of compareTo \/ plex_less (item_of compareTo) (item_of this)
end
fn cont_gt
  cxx util::container<dfa::lexeme, util::simple_constructor<dfa::lexeme>>::operator>
  requires cont_ok this /\ cont_ok compareTo
  ensures exchanged operands:: result <-> plex_less (item_of compareTo) (item_of this)
end
fn cont_ge
  cxx util::container<dfa::lexeme, util::simple_constructor<dfa::lexeme>>::operator>=
  requires cont_ok this /\ cont_ok compareTo
  ensures negation of the strict order:: result <-> not plex_less (item_of this) (item_of compareTo)
end
fn cont_le
  cxx util::container<dfa::lexeme, util::simple_constructor<dfa::lexeme>>::operator<=
  requires cont_ok this /\ cont_ok compareTo
  ensures negation of the opposite strict order:: result <-> not plex_less (item_of compareTo) (item_of this)
end
