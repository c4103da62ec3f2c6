tu
#include "/repo/TameParse/Dfa/lexeme.cpp"
endtu
option opt overflow wrapcast
vec int "std::basic_string<int>" "int"
record pos "dfa::position"
record trk "dfa::position_tracker"
record lex "dfa::lexeme"
mlw
  predicate is_break (c: int) = c = 0x0a \/ c = 0x0d \/ c = 0x0b \/ c = 0x0c \/ c = 0x85 \/ c = 0x2028 \/ c = 0x2029
  (* symbol i of h starts a new line: it is a line break and not the LF of a CR LF pair *)
  predicate ends_line (h: seq int) (i: int) = is_break h[i] /\ not (h[i] = 0x0a /\ i > 0 /\ h[i-1] = 0x0d)
  let rec ghost function nlines (h: seq int) (n: int) : int
    requires { 0 <= n <= length h }
    ensures { 0 <= result <= n }
    variant { n }
  = if n = 0 then 0 else nlines h (n-1) + (if pure { ends_line h (n-1) } then 1 else 0)
  let rec lemma nlines_ext (a b: seq int) (n: int)
    requires { 0 <= n <= length a /\ n <= length b }
    requires { forall i. 0 <= i < n -> a[i] = b[i] }
    ensures { nlines a n = nlines b n }
    variant { n }
  = if n > 0 then nlines_ext a b (n-1)
  (* p is the position reached from p0 after the symbols h: the property itself *)
  predicate reached (p0: pos) (h: seq int) (p: pos) =
    p.pos_Offset = p0.pos_Offset + length h
    /\ p.pos_Line = p0.pos_Line + nlines h (length h)
    /\ (if exists i. 0 <= i < length h /\ is_break h[i]
        then 0 <= p.pos_Column < length h /\ is_break h[length h - 1 - p.pos_Column]
             /\ (forall i. length h - p.pos_Column <= i < length h -> not is_break h[i])
        else p.pos_Column = p0.pos_Column + length h)
  predicate tracks (p0: pos) (h: seq int) (t: trk) =
    reached p0 h t.trk_CurrentPosition /\ (t.trk_SeenReturn <-> length h > 0 /\ h[length h - 1] = 0x0d)
  predicate room (p: pos) (n: int) = -1 <= p.pos_Offset <= 2147483647 - n /\ -1 <= p.pos_Line <= 2147483647 - n /\ -1 <= p.pos_Column <= 2147483647 - n
endmlw
fn pos_zero
  cxx dfa::position::position()
  ensures result.pos_Offset = 0 /\ result.pos_Line = 0 /\ result.pos_Column = 0
end
fn pos_make
  cxx dfa::position::position(int, int, int)
  ensures result.pos_Offset = offset /\ result.pos_Line = line /\ result.pos_Column = column
end
fn pos_copy
  cxx dfa::position::position(const dfa::position&)
  ensures result = copyFrom
end
fn pos_offset
  cxx dfa::position::offset
  ensures result = this.pos_Offset
end
fn pos_line
  cxx dfa::position::line
  ensures result = this.pos_Line
end
fn pos_column
  cxx dfa::position::column
  ensures result = this.pos_Column
end
fn trk_zero
  cxx dfa::position_tracker::position_tracker()
  ensures starts at the beginning:: forall p0. p0.pos_Offset = 0 -> p0.pos_Line = 0 -> p0.pos_Column = 0 -> tracks p0 empty result
  ensures result.trk_CurrentPosition.pos_Offset = 0 /\ result.trk_CurrentPosition.pos_Line = 0 /\ result.trk_CurrentPosition.pos_Column = 0
end
fn trk_from
  cxx dfa::position_tracker::position_tracker(const dfa::position&)
  ensures starts at the given position:: tracks copyFrom empty result
  ensures result.trk_CurrentPosition = copyFrom
end
fn trk_copy
  cxx dfa::position_tracker::position_tracker(const dfa::position_tracker&)
  ensures result = copyFrom
end
fn trk_current
  cxx dfa::position_tracker::current_position
  ensures result = this.trk_CurrentPosition
end
fn update_one
  cxx dfa::position_tracker::update_position(int)
  requires room this.trk_CurrentPosition 1
  ensures one symbol advances the position exactly:: forall p0 h. tracks p0 h (old this) -> tracks p0 (snoc h symbol) this
  ensures this.trk_CurrentPosition.pos_Offset = (old this).trk_CurrentPosition.pos_Offset + 1
  ensures room (old this).trk_CurrentPosition 1 -> forall k. room (old this).trk_CurrentPosition (k+1) -> room this.trk_CurrentPosition k
  exit assert { forall p0 h. tracks p0 h (old this) -> nlines (snoc h symbol) (length h) = nlines h (length h) }
end
fn update_batch
  cxx dfa::position_tracker::update_position(iterator, iterator)
  range batch=std::basic_string<int> begin end
  requires 0 <= v_begin <= v_end <= length batch
  requires room this.trk_CurrentPosition (length batch)
  requires forall i. 0 <= i < length batch -> -2147483648 <= batch[i] <= 2147483647
  ensures a batch is the same as its symbols one at a time:: forall p0 h. tracks p0 h (old this) -> tracks p0 (h ++ batch[v_begin .. v_end]) this
  loop 0
    invariant v_begin <= symbol <= v_end
    invariant room this.trk_CurrentPosition (length batch - (symbol - v_begin))
    invariant forall p0 h. tracks p0 h (old this) -> tracks p0 (h ++ batch[v_begin .. symbol]) this
    variant v_end - symbol
    begin assert { forall h. (h ++ batch[v_begin .. symbol + 1]) == snoc (h ++ batch[v_begin .. symbol]) batch[symbol] }
end
fn final_pos
  cxx dfa::lexeme::final_pos
  requires room this.lex_Position (length this.lex_Symbols)
  requires forall i. 0 <= i < length this.lex_Symbols -> -2147483648 <= this.lex_Symbols[i] <= 2147483647
  ensures end position counts the symbols of the lexeme:: reached this.lex_Position this.lex_Symbols result
  exit assert { (empty ++ this.lex_Symbols[0 .. length this.lex_Symbols]) == this.lex_Symbols }
end
fn lex_make
  cxx dfa::lexeme::lexeme(const std::basic_string<int>&, const dfa::position&, int)
  ensures result.lex_Position = pos /\ result.lex_Symbols = syms /\ result.lex_Matched = matched
end
fn lex_copy
  cxx dfa::lexeme::lexeme(const dfa::lexeme&)
  ensures result = copyFrom
end
fn lex_pos
  cxx dfa::lexeme::pos
  ensures result = this.lex_Position
end
