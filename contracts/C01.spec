tu
#include "/repo/TameParse/Dfa/symbol_set.cpp"
template class dfa::range<int>;
endtu
option opaque epsilon
record rg "dfa::range<int>"
record cmp_lower "dfa::range<int>::sort_by_lower"
omap RS "std::set<dfa::range<int>, dfa::range<int>::sort_by_lower>" key int elt rg eltty "dfa::range<int>" keyof rg_Lower
record ss "dfa::symbol_set"
mlw
  (* x is in the range *)
  predicate rin (r: rg) (x: int) = r.rg_Lower <= x < r.rg_Upper
  predicate hasm (m: RS.t) (x: int) = exists k. RS.mem m k /\ rin (RS.get m k) x
  predicate has (s: ss) (x: int) = hasm s.ss_Symbols x
  (* canonical form: non-empty, disjoint, non adjacent *)
  predicate wfm (m: RS.t) =
    (forall k. RS.mem m k -> (RS.get m k).rg_Lower = k /\ k < (RS.get m k).rg_Upper)
    /\ (forall j k. RS.mem m j -> RS.mem m k -> j < k -> (RS.get m j).rg_Upper < k)
  predicate wf (s: ss) = wfm s.ss_Symbols
  predicate inuniv (s: ss) = forall k. RS.mem s.ss_Symbols k -> 0 <= k /\ (RS.get s.ss_Symbols k).rg_Upper <= 2147483647

  (* two canonical sets with the same symbols have the same ranges *)
  let lemma canonical_unique (a b: RS.t)
    requires { wfm a /\ wfm b }
    requires { forall x. hasm a x <-> hasm b x }
    ensures { a = b }
  = assert { forall k. RS.mem a k -> hasm b k by hasm a k };
    assert { forall k. RS.mem b k -> hasm a k by hasm b k };
    assert { forall k. RS.mem a k -> not hasm a (k - 1) };
    assert { forall k. RS.mem b k -> not hasm b (k - 1) };
    assert { forall k. RS.mem a k -> RS.mem b k by
       exists j. RS.mem b j /\ rin (RS.get b j) k /\ (j < k -> hasm b (k-1)) };
    assert { forall k. RS.mem b k -> RS.mem a k by
       exists j. RS.mem a j /\ rin (RS.get a j) k /\ (j < k -> hasm a (k-1)) };
    assert { forall k. RS.mem a k -> not hasm a (RS.get a k).rg_Upper };
    assert { forall k. RS.mem b k -> not hasm b (RS.get b k).rg_Upper };
    assert { forall k. RS.mem a k -> (RS.get a k).rg_Upper <= (RS.get b k).rg_Upper by not (hasm a (RS.get b k).rg_Upper) };
    assert { forall k. RS.mem a k -> (RS.get b k).rg_Upper <= (RS.get a k).rg_Upper by not (hasm b (RS.get a k).rg_Upper) };
    assert { RS.same a b }
endmlw

fn range_of_int
  cxx dfa::range<int>::range(int)
  opt overflow
  requires value + 1 <= 2147483647 /\ -2147483648 <= value
  ensures result.rg_Lower = value /\ result.rg_Upper = value + 1
end
fn range_of_pair
  cxx dfa::range<int>::range(int, int)
  ensures result.rg_Lower = from /\ result.rg_Upper = v_to
end
fn range_copy
  cxx dfa::range<int>::range(const dfa::range<int>&)
  ensures result = copyFrom
end
fn range_assign
  cxx dfa::range<int>::operator=
  ensures this = copyFrom
end
fn sort_by_lower
  cxx dfa::range<int>::sort_by_lower::operator()
  ensures orders by lower bound:: result <-> a.rg_Lower < b.rg_Lower
end
fn range_index
  cxx dfa::range<int>::operator[]
  ensures membership:: result <-> rin this value
end
fn range_eq
  cxx dfa::range<int>::operator==
  ensures result <-> this = compareTo
end
fn range_ne
  cxx dfa::range<int>::operator!=
  ensures result <-> this <> compareTo
end
fn range_lt
  cxx dfa::range<int>::operator<
  ensures result <-> (this.rg_Lower < compareTo.rg_Lower \/ (this.rg_Lower = compareTo.rg_Lower /\ this.rg_Upper < compareTo.rg_Upper))
end
fn range_overlaps
  cxx dfa::range<int>::overlaps
  ensures overlapping ranges share a symbol:: this.rg_Lower < this.rg_Upper -> compareTo.rg_Lower < compareTo.rg_Upper -> result -> (rin this (max this.rg_Lower compareTo.rg_Lower) /\ rin compareTo (max this.rg_Lower compareTo.rg_Lower))
  ensures ranges sharing a symbol overlap:: forall x. rin this x -> rin compareTo x -> result
end
fn range_neighbours
  cxx dfa::range<int>::neighbours
  ensures result <-> (this.rg_Lower = compareTo.rg_Upper \/ this.rg_Upper = compareTo.rg_Lower)
end
fn range_can_merge
  cxx dfa::range<int>::can_merge
  ensures result <-> (compareTo.rg_Upper >= this.rg_Lower /\ compareTo.rg_Lower <= this.rg_Upper)
end
fn range_merge
  cxx dfa::range<int>::merge
  ensures result.rg_Lower = min this.rg_Lower mergeWith.rg_Lower
  ensures result.rg_Upper = max this.rg_Upper mergeWith.rg_Upper
end
fn set_empty_ctor
  cxx dfa::symbol_set::symbol_set()
  ensures wf result /\ forall x. not has result x
end
fn set_epsilon_ctor
  cxx dfa::symbol_set::symbol_set(const dfa::epsilon&)
  ensures wf result /\ forall x. not has result x
end
fn set_range_ctor
  cxx dfa::symbol_set::symbol_set(const dfa::range<int>&)
  ensures wf result
  ensures contains exactly the range:: forall x. has result x <-> rin symbol x
  ensures forall k. RS.mem result.ss_Symbols k -> k = symbol.rg_Lower /\ RS.get result.ss_Symbols k = symbol /\ symbol.rg_Lower < symbol.rg_Upper
end
fn set_copy_ctor
  cxx dfa::symbol_set::symbol_set(const dfa::symbol_set&)
  ensures copy has the same symbols:: wf copyFrom -> wf result /\ forall x. has result x <-> has copyFrom x
  ensures result.ss_Symbols = copyFrom.ss_Symbols
end
fn union_range
  cxx dfa::symbol_set::operator|=(const dfa::range<int>&)
  requires wf this
  ensures canonical form kept:: wf this
  ensures union adds exactly the range:: forall x. has this x <-> (has (old this) x \/ rin mergeWith x)
  loop 0
    invariant RS.valid this.ss_Symbols mergeWith_2
    invariant this = old this
    invariant match mergeWith_2 with At h -> RS.at_or_after h firstGreaterThan | End -> true end
    invariant mergedRange.rg_Lower <= mergeWith.rg_Lower /\ mergedRange.rg_Upper >= mergeWith.rg_Upper
    invariant match finalValue with At f -> not RS.before finalValue (match mergeWith_2 with At h -> h | End -> f + 1 end) | End -> true end
    invariant forall k. RS.mem this.ss_Symbols k -> RS.at_or_after k firstGreaterThan -> not RS.at_or_after k mergeWith_2 -> mergedRange.rg_Lower <= k /\ (RS.get this.ss_Symbols k).rg_Upper <= mergedRange.rg_Upper
    invariant mergedRange.rg_Lower = mergeWith.rg_Lower \/ (RS.mem this.ss_Symbols mergedRange.rg_Lower /\ RS.at_or_after mergedRange.rg_Lower firstGreaterThan)
    invariant mergedRange.rg_Upper = mergeWith.rg_Upper \/ (exists k. RS.mem this.ss_Symbols k /\ RS.at_or_after k firstGreaterThan /\ not RS.at_or_after k mergeWith_2 /\ (RS.get this.ss_Symbols k).rg_Upper = mergedRange.rg_Upper)
    variant RS.rank this.ss_Symbols mergeWith_2
end

fn exclude_range
  cxx dfa::symbol_set::exclude(const dfa::range<int>&)
  requires wf this
  ensures canonical form kept:: wf this
  ensures exclusion removes exactly the range:: forall x. has this x <-> (has (old this) x /\ not rin toExclude x)
end

fn invert
  cxx dfa::symbol_set::invert
  requires wf this /\ inuniv this
  ensures canonical form kept:: wf this
  ensures inside the universe:: inuniv this
  ensures inversion is the complement:: forall x. has this x <-> (0 <= x < 2147483647 /\ not has (old this) x)
  loop 0
    invariant this = old this
    invariant RS.valid this.ss_Symbols excludedRange
    invariant 0 <= last.rg_Upper <= 2147483647
    invariant match excludedRange with At h -> last.rg_Upper <= h /\ (last.rg_Upper = h -> h = 0 /\ forall k. RS.mem this.ss_Symbols k -> h <= k) | End -> true end
    invariant wfm newRanges
    invariant forall k. RS.mem newRanges k -> 0 <= k /\ (RS.get newRanges k).rg_Upper <= last.rg_Lower
    invariant forall x. x < last.rg_Upper -> (hasm newRanges x <-> (0 <= x /\ not has this x))
    invariant last.rg_Lower <= last.rg_Upper
    invariant forall k. RS.mem this.ss_Symbols k -> not RS.at_or_after k excludedRange -> (RS.get this.ss_Symbols k).rg_Upper <= last.rg_Upper
    invariant (forall k. RS.mem this.ss_Symbols k -> RS.at_or_after k excludedRange) /\ last.rg_Upper = 0 /\ last.rg_Lower = 0
       \/ (RS.mem this.ss_Symbols last.rg_Lower /\ RS.get this.ss_Symbols last.rg_Lower = last /\ not RS.at_or_after last.rg_Lower excludedRange)
    variant RS.rank this.ss_Symbols excludedRange
end

fn union_set
  cxx dfa::symbol_set::operator|=(const dfa::symbol_set&)
  requires wf this /\ wf mergeWith
  ensures canonical form kept:: wf this
  ensures union of sets:: forall x. has this x <-> (has (old this) x \/ has mergeWith x)
  loop 0
    invariant wf this
    invariant RS.valid mergeWith.ss_Symbols symRange
    invariant forall x. has this x <-> (has (old this) x \/ exists k. RS.mem mergeWith.ss_Symbols k /\ not RS.at_or_after k symRange /\ rin (RS.get mergeWith.ss_Symbols k) x)
    variant RS.rank mergeWith.ss_Symbols symRange
end

fn exclude_set
  cxx dfa::symbol_set::exclude(const dfa::symbol_set&)
  requires wf this /\ wf toExclude
  ensures canonical form kept:: wf this
  ensures difference of sets:: forall x. has this x <-> (has (old this) x /\ not has toExclude x)
  loop 0
    invariant wf this
    invariant RS.valid toExclude.ss_Symbols excluded
    invariant forall x. has this x <-> (has (old this) x /\ not (exists k. RS.mem toExclude.ss_Symbols k /\ not RS.at_or_after k excluded /\ rin (RS.get toExclude.ss_Symbols k) x))
    variant RS.rank toExclude.ss_Symbols excluded
end

fn complement
  cxx dfa::symbol_set::operator~
  requires wf this /\ inuniv this
  ensures wf result /\ inuniv result
  ensures complement:: forall x. has result x <-> (0 <= x < 2147483647 /\ not has this x)
end
fn and_set
  cxx dfa::symbol_set::operator&=(const dfa::symbol_set&)
  requires wf this /\ wf andWith /\ inuniv this /\ inuniv andWith
  ensures canonical form kept:: wf this
  ensures intersection:: forall x. has this x <-> (has (old this) x /\ has andWith x)
end
fn and_range
  cxx dfa::symbol_set::operator&=(const dfa::range<int>&)
  requires wf this /\ inuniv this /\ (andWith.rg_Lower < andWith.rg_Upper -> 0 <= andWith.rg_Lower /\ andWith.rg_Upper <= 2147483647)
  ensures canonical form kept:: wf this
  ensures intersection:: forall x. has this x <-> (has (old this) x /\ rin andWith x)
end
fn or_set_copy
  cxx dfa::symbol_set::operator|(const dfa::symbol_set&)
  requires wf this /\ wf mergeWith
  ensures wf result
  ensures union of sets:: forall x. has result x <-> (has this x \/ has mergeWith x)
end
fn or_range_copy
  cxx dfa::symbol_set::operator|(const dfa::range<int>&)
  requires wf this
  ensures wf result
  ensures union of set and range:: forall x. has result x <-> (has this x \/ rin mergeWith x)
end
fn and_set_copy
  cxx dfa::symbol_set::operator&(const dfa::symbol_set&)
  requires wf this /\ wf andWith /\ inuniv this /\ inuniv andWith
  ensures wf result
  ensures intersection:: forall x. has result x <-> (has this x /\ has andWith x)
end
fn and_range_copy
  cxx dfa::symbol_set::operator&(const dfa::range<int>&)
  requires wf this /\ inuniv this /\ (andWith.rg_Lower < andWith.rg_Upper -> 0 <= andWith.rg_Lower /\ andWith.rg_Upper <= 2147483647)
  ensures wf result
  ensures intersection:: forall x. has result x <-> (has this x /\ rin andWith x)
end
fn excluding_set
  cxx dfa::symbol_set::excluding(const dfa::symbol_set&)
  requires wf this /\ wf toExclude
  ensures wf result
  ensures difference of sets:: forall x. has result x <-> (has this x /\ not has toExclude x)
end
fn excluding_range
  cxx dfa::symbol_set::excluding(const dfa::range<int>&)
  requires wf this
  ensures wf result
  ensures difference:: forall x. has result x <-> (has this x /\ not rin toExclude x)
end
fn set_index
  cxx dfa::symbol_set::operator[]
  requires wf this
  ensures membership test is exact:: result <-> has this symbol
  ensures set not modified:: this = old this
end
fn set_is_empty
  cxx dfa::symbol_set::empty
  entry assert { forall k. RS.mem this.ss_Symbols k -> has this k }
  requires wf this
  ensures empty exactly when it has no symbols:: result <-> forall x. not has this x
  ensures set not modified:: this = old this
end
fn set_eq
  cxx dfa::symbol_set::operator==
  requires wf this /\ wf compareTo
  ensures equal exactly when same symbols:: result <-> forall x. has this x <-> has compareTo x
  loop 0
    invariant RS.valid this.ss_Symbols ourSymbol /\ RS.valid compareTo.ss_Symbols theirSymbol
    invariant RS.size this.ss_Symbols = RS.size compareTo.ss_Symbols
    invariant RS.rank this.ss_Symbols ourSymbol = RS.rank compareTo.ss_Symbols theirSymbol
    invariant forall k. RS.mem this.ss_Symbols k -> not RS.at_or_after k ourSymbol -> RS.mem compareTo.ss_Symbols k /\ RS.get this.ss_Symbols k = RS.get compareTo.ss_Symbols k
    invariant forall k. RS.mem compareTo.ss_Symbols k -> not RS.at_or_after k theirSymbol -> RS.mem this.ss_Symbols k
    variant RS.rank this.ss_Symbols ourSymbol
end
fn set_ne
  cxx dfa::symbol_set::operator!=
  requires wf this /\ wf compareTo
  ensures different exactly when symbols differ:: result <-> not (forall x. has this x <-> has compareTo x)
end
