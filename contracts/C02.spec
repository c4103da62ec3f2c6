tu
#include "/repo/TameParse/Dfa/symbol_set.cpp"
#include "/repo/TameParse/Dfa/symbol_map.cpp"
#include "/repo/TameParse/Dfa/remapped_symbol_map.cpp"
template class dfa::range<int>;
endtu
option opaque epsilon
record rg "dfa::range<int>"
record cmp_lower "dfa::range<int>::sort_by_lower"
omap RS "std::set<dfa::range<int>, dfa::range<int>::sort_by_lower>" key int elt rg eltty "dfa::range<int>" keyof rg_Lower
record ss "dfa::symbol_set"
handle ss "util::container<dfa::symbol_set, util::simple_constructor<dfa::symbol_set>>" "dfa::symbol_set"
mlw
  (* the order of symbol sets in a map: some strict total order *)
  predicate ss_lt ss ss
  axiom ss_irrefl: forall a. not ss_lt a a
  axiom ss_trans: forall a b c. ss_lt a b -> ss_lt b c -> ss_lt a c
  axiom ss_total: forall a b. ss_lt a b \/ a = b \/ ss_lt b a
endmlw
alias "util::container<dfa::symbol_set>" "util::container<dfa::symbol_set, util::simple_constructor<dfa::symbol_set>>"
omap IM "std::map<util::container<dfa::symbol_set>, int>" key ss elt int eltty "int" map yes keyty "util::container<dfa::symbol_set, util::simple_constructor<dfa::symbol_set>>" lt ss_lt default 0
vec ss "std::vector<util::container<dfa::symbol_set>>" "util::container<dfa::symbol_set, util::simple_constructor<dfa::symbol_set>>"
record sm "dfa::symbol_map"
omap IS "std::set<int>" key int keyonly yes
omap SR "std::map<dfa::range<int>, std::set<int>, dfa::range<int>::sort_by_lower>" key int wholekey rg elt IS.t eltty "std::set<int>" map yes keyty "dfa::range<int>" keyfn rg_Lower default IS.empty
mlw
  lemma seq_used: forall s: seq ss. length s >= 0
  let constant ss_none : ss = { ss_Symbols = RS.empty }
  (* the order of sets of numbers in a map *)
  predicate is_lt IS.t IS.t
  axiom is_irrefl: forall a. not is_lt a a
  axiom is_trans: forall a b c. is_lt a b -> is_lt b c -> is_lt a c
  axiom is_total: forall a b. is_lt a b \/ a = b \/ is_lt b a
endmlw
omap ON "std::map<int, std::set<int>>" key int elt IS.t eltty "std::set<int>" map yes keyty "int" default IS.empty
record rm "dfa::remapped_symbol_map" base "dfa::symbol_map"
ptr rm "dfa::remapped_symbol_map" own=yes
omap MS "std::map<std::set<int>, dfa::symbol_set>" key IS.t elt ss eltty "dfa::symbol_set" map yes keyty "std::set<int>" lt is_lt default ss_none
mlw
  predicate rin (r: rg) (x: int) = r.rg_Lower <= x < r.rg_Upper
  predicate hasm (m: RS.t) (x: int) = exists k. RS.mem m k /\ rin (RS.get m k) x
  predicate has (s: ss) (x: int) = hasm s.ss_Symbols x
  predicate wfm (m: RS.t) =
    (forall k. RS.mem m k -> (RS.get m k).rg_Lower = k /\ k < (RS.get m k).rg_Upper)
    /\ (forall j k. RS.mem m j -> RS.mem m k -> j < k -> (RS.get m j).rg_Upper < k)
  predicate wf (s: ss) = wfm s.ss_Symbols

  (* ranges that are not empty and do not overlap *)
  predicate wfs (m: SR.t) =
    (forall k. SR.mem m k -> (SR.get m k).sr_wkey.rg_Lower = k /\ k < (SR.get m k).sr_wkey.rg_Upper)
    /\ (forall j k. SR.mem m j -> SR.mem m k -> j < k -> (SR.get m j).sr_wkey.rg_Upper <= k)
  function up (m: SR.t) (k: int) : int = (SR.get m k).sr_wkey.rg_Upper
  (* symbol x is in a range that is listed for set i *)
  predicate ids (m: SR.t) (x i: int) = exists k. SR.mem m k /\ rin (SR.get m k).sr_wkey x /\ IS.mem (SR.get m k).sr_wval i
  (* symbol x is in a range before the position *)
  predicate sofar (s: ss) (i: iter int) (x: int) = exists k. RS.mem s.ss_Symbols k /\ not RS.at_or_after k i /\ rin (RS.get s.ss_Symbols k) x
  lemma has_at: forall s k x. RS.mem s.ss_Symbols k -> rin (RS.get s.ss_Symbols k) x -> has s x
  lemma ids_at: forall m k x i. SR.mem m k -> rin (SR.get m k).sr_wkey x -> IS.mem (SR.get m k).sr_wval i -> ids m x i
  (* every range is listed for some set *)
  predicate listed (m: SR.t) = forall k. SR.mem m k -> exists i. IS.mem (SR.get m k).sr_wval i
endmlw

fn range_of_pair
  cxx dfa::range<int>::range(int, int)
  ensures result.rg_Lower = from /\ result.rg_Upper = v_to
end
fn range_copy
  cxx dfa::range<int>::range(const dfa::range<int>&)
  ensures result = copyFrom
end
fn range_assign
  cxx dfa::range<int>::operator=
  ensures this = copyFrom
end
fn sort_by_lower
  cxx dfa::range<int>::sort_by_lower::operator()
  ensures orders by lower bound:: result <-> a.rg_Lower < b.rg_Lower
end
fn range_eq
  cxx dfa::range<int>::operator==
  ensures result <-> this = compareTo
end
fn range_overlaps
  cxx dfa::range<int>::overlaps
  ensures overlapping ranges share a symbol:: this.rg_Lower < this.rg_Upper -> compareTo.rg_Lower < compareTo.rg_Upper -> (result <-> this.rg_Lower < compareTo.rg_Upper /\ compareTo.rg_Lower < this.rg_Upper)
  ensures this.rg_Lower < this.rg_Upper -> compareTo.rg_Lower < compareTo.rg_Upper -> result -> (rin this (max this.rg_Lower compareTo.rg_Lower) /\ rin compareTo (max this.rg_Lower compareTo.rg_Lower))
end
fn range_can_merge
  cxx dfa::range<int>::can_merge
  ensures result <-> (compareTo.rg_Upper >= this.rg_Lower /\ compareTo.rg_Lower <= this.rg_Upper)
end
fn range_merge
  cxx dfa::range<int>::merge
  ensures result.rg_Lower = min this.rg_Lower mergeWith.rg_Lower
  ensures result.rg_Upper = max this.rg_Upper mergeWith.rg_Upper
end
fn set_empty_ctor
  cxx dfa::symbol_set::symbol_set()
  ensures wf result /\ forall x. not has result x
end
fn set_epsilon_ctor
  cxx dfa::symbol_set::symbol_set(const dfa::epsilon&)
  ensures wf result /\ forall x. not has result x
end
fn set_copy_ctor
  cxx dfa::symbol_set::symbol_set(const dfa::symbol_set&)
  ensures copy has the same symbols:: wf copyFrom -> wf result /\ forall x. has result x <-> has copyFrom x
  ensures result.ss_Symbols = copyFrom.ss_Symbols
end
fn union_range
  cxx dfa::symbol_set::operator|=(const dfa::range<int>&)
  requires wf this
  ensures canonical form kept:: wf this
  ensures union adds exactly the range:: forall x. has this x <-> (has (old this) x \/ rin mergeWith x)
  loop 0
    invariant RS.valid this.ss_Symbols mergeWith_2
    invariant this = old this
    invariant match mergeWith_2 with At h -> RS.at_or_after h firstGreaterThan | End -> true end
    invariant mergedRange.rg_Lower <= mergeWith.rg_Lower /\ mergedRange.rg_Upper >= mergeWith.rg_Upper
    invariant match finalValue with At f -> not RS.before finalValue (match mergeWith_2 with At h -> h | End -> f + 1 end) | End -> true end
    invariant forall k. RS.mem this.ss_Symbols k -> RS.at_or_after k firstGreaterThan -> not RS.at_or_after k mergeWith_2 -> mergedRange.rg_Lower <= k /\ (RS.get this.ss_Symbols k).rg_Upper <= mergedRange.rg_Upper
    invariant mergedRange.rg_Lower = mergeWith.rg_Lower \/ (RS.mem this.ss_Symbols mergedRange.rg_Lower /\ RS.at_or_after mergedRange.rg_Lower firstGreaterThan)
    invariant mergedRange.rg_Upper = mergeWith.rg_Upper \/ (exists k. RS.mem this.ss_Symbols k /\ RS.at_or_after k firstGreaterThan /\ not RS.at_or_after k mergeWith_2 /\ (RS.get this.ss_Symbols k).rg_Upper = mergedRange.rg_Upper)
    variant RS.rank this.ss_Symbols mergeWith_2
end
fn split
  cxx split(sets_for_range &, symbol_range, int)
  result iter param:sets
  requires wfs sets
  requires SR.mem sets original.rg_Lower /\ (SR.get sets original.rg_Lower).sr_wkey = original
  requires original.rg_Lower < splitPoint < original.rg_Upper
  ensures the two halves:: forall k. SR.mem sets k <-> (SR.mem (old sets) k \/ k = splitPoint)
  ensures the others are as they were:: forall k. SR.mem (old sets) k -> k <> original.rg_Lower -> SR.get sets k = SR.get (old sets) k
  ensures lower half:: (SR.get sets original.rg_Lower).sr_wkey = { rg_Lower = original.rg_Lower; rg_Upper = splitPoint }
  ensures upper half:: (SR.get sets splitPoint).sr_wkey = { rg_Lower = splitPoint; rg_Upper = original.rg_Upper }
  ensures both are listed for the same sets:: (SR.get sets splitPoint).sr_wval = (SR.get (old sets) original.rg_Lower).sr_wval /\ (SR.get sets original.rg_Lower).sr_wval = (SR.get (old sets) original.rg_Lower).sr_wval
  ensures start of the lower half:: result = At original.rg_Lower
  ensures wfs sets
  ensures splitting changes no symbol:: forall x i. ids sets x i <-> ids (old sets) x i
  ensures listed (old sets) -> listed sets
end
fn add_set
  cxx add_set(sets_for_range &, const symbol_set &, int)
  requires wfs sets /\ wf symbols
  ensures ranges stay disjoint:: wfs sets
  ensures listed (old sets) -> listed sets
  ensures exactly the symbols of the set are added:: forall x i. ids sets x i <-> (ids (old sets) x i \/ (i = identifier /\ has symbols x))
  loop 0
    invariant wfs sets
    invariant listed (old sets) -> listed sets
    invariant RS.valid symbols.ss_Symbols v_range
    invariant forall x i. ids sets x i -> (ids (old sets) x i \/ (i = identifier /\ sofar symbols v_range x))
    invariant forall x i. ids (old sets) x i -> ids sets x i
    invariant forall x. sofar symbols v_range x -> ids sets x identifier
    variant RS.rank symbols.ss_Symbols v_range
  loop 1
    begin let ghost r1 = remaining in assert { r1.rg_Lower < r1.rg_Upper }
    end assert { SR.mem sets r1.rg_Lower /\ IS.mem (SR.get sets r1.rg_Lower).sr_wval identifier /\ up sets r1.rg_Lower = remaining.rg_Lower }; assert { forall x. r1.rg_Lower <= x < remaining.rg_Lower -> ids sets x identifier }
    before let ghost sets0 = sets in let ghost r0 = remaining in assert { wfs sets0 }
    invariant wfs sets
    invariant listed sets0 -> listed sets
    invariant remaining.rg_Upper = r0.rg_Upper /\ r0.rg_Lower <= remaining.rg_Lower <= remaining.rg_Upper
    invariant SR.valid sets firstGreaterThan
    invariant forall k. SR.mem sets k -> not SR.at_or_after k firstGreaterThan -> up sets k <= remaining.rg_Lower
    invariant match firstGreaterThan with At h -> up sets h > remaining.rg_Lower | End -> true end
    invariant forall x i. ids sets x i -> (ids sets0 x i \/ (i = identifier /\ r0.rg_Lower <= x < remaining.rg_Lower))
    invariant forall x i. ids sets0 x i -> ids sets x i
    invariant forall x. r0.rg_Lower <= x < remaining.rg_Lower -> ids sets x identifier
    variant remaining.rg_Upper - remaining.rg_Lower
end

mlw
  predicate wfsm (m: sm) =
    (forall s. IM.mem m.sm_IdForSymbols s -> wf s /\ 0 <= IM.get m.sm_IdForSymbols s < length m.sm_SymbolsForId /\ m.sm_SymbolsForId[IM.get m.sm_IdForSymbols s] = s)
    /\ (forall i. 0 <= i < length m.sm_SymbolsForId -> IM.mem m.sm_IdForSymbols m.sm_SymbolsForId[i] /\ IM.get m.sm_IdForSymbols m.sm_SymbolsForId[i] = i)
endmlw
mlw
  val constant nosymbols_ : ss
    ensures { forall x. not has result x }
  let lemma set_unique (a b: ss)
    requires { wf a /\ wf b }
    requires { forall x. not has a x /\ not has b x }
    ensures { a = b }
  = assert { forall k. RS.mem a.ss_Symbols k -> has a k }; assert { forall k. RS.mem b.ss_Symbols k -> has b k }; assert { RS.same a.ss_Symbols b.ss_Symbols }
  function count (m: sm) : int = length m.sm_SymbolsForId
  function set_of (m: sm) (i: int) : ss = m.sm_SymbolsForId[i]
  (* old set o is mapped to new set n *)
  predicate maps (m: rm) (o n: int) = ON.mem m.rm_OldToNew o /\ IS.mem (ON.get m.rm_OldToNew o) n
endmlw
global nosymbols_ "nosymbols" "dfa::symbol_set"
global ss_none "dfa::epsilon::s_Empty" "dfa::symbol_set"
global IS.empty "dfa::remapped_symbol_map::s_NoSymbols" "std::set<int>"
fn map_ctor
  cxx dfa::symbol_map::symbol_map()
  ensures wfsm result /\ count result = 0
end
fn map_copy
  cxx dfa::symbol_map::symbol_map(const dfa::symbol_map&)
  ensures a copy is the same:: result = copyFrom
end
fn id_for
  cxx dfa::symbol_map::identifier_for_symbols
  requires wfsm this /\ wf symbols /\ count this < 2147483647
  ensures wfsm this
  ensures the identifier stands for the set:: 0 <= result < count this /\ set_of this result = symbols
  ensures other identifiers are kept:: forall i. 0 <= i < count (old this) -> set_of this i = set_of (old this) i
  ensures only a new set gets a new identifier:: count this = count (old this) \/ (count this = count (old this) + 1 /\ result = count (old this))
end
fn find_id
  cxx dfa::symbol_map::find_identifier_for_symbols
  requires wfsm this /\ wf symbols
  ensures found:: result >= 0 -> result < count this /\ set_of this result = symbols
  ensures not found:: result < 0 -> forall i. 0 <= i < count this -> set_of this i <> symbols
end
fn set_at
  cxx dfa::symbol_map::operator[]
  requires count this < 2147483647
  ensures 0 <= identifier < count this -> result = set_of this identifier
  ensures not (0 <= identifier < count this) -> forall x. not has result x
end
fn rm_ctor
  cxx dfa::remapped_symbol_map::remapped_symbol_map()
  ensures wfsm result.rm_base /\ count result.rm_base = 0
  ensures forall o n. not maps result o n
end
fn rm_copy
  cxx dfa::remapped_symbol_map::remapped_symbol_map(const dfa::remapped_symbol_map&)
  ensures a copy is the same:: result = copyFrom
end
fn new_symbols
  cxx dfa::remapped_symbol_map::new_symbols
  ensures forall n. IS.mem result n <-> maps this oldSetId n
end
fn rm_id_for
  cxx dfa::remapped_symbol_map::identifier_for_symbols
  requires wfsm this.rm_base /\ wf symbols /\ count this.rm_base < 2147483647
  ensures wfsm this.rm_base
  ensures the identifier stands for the set:: 0 <= result < count this.rm_base /\ set_of this.rm_base result = symbols
  ensures other identifiers are kept:: forall i. 0 <= i < count (old this).rm_base -> set_of this.rm_base i = set_of (old this).rm_base i
  ensures count this.rm_base = count (old this).rm_base \/ (count this.rm_base = count (old this).rm_base + 1 /\ result = count (old this).rm_base)
  ensures the old sets are mapped to it:: forall o n. maps this o n <-> (maps (old this) o n \/ (IS.mem oldSymbols o /\ n = result))
  ensures forall o. IS.mem oldSymbols o -> maps this o result
  loop 0
    before let ghost t0 = this in assert { t0.rm_OldToNew = (old this).rm_OldToNew }
    invariant IS.valid oldSymbols v_old
    invariant this.rm_base = t0.rm_base
    invariant forall o n. maps this o n <-> (maps t0 o n \/ (IS.mem oldSymbols o /\ not IS.at_or_after o v_old /\ n = setId))
    variant IS.rank oldSymbols v_old
end
mlw
  (* the same for a map on the heap *)
  predicate pwf (p: ptr rm) = match p with Ptr r -> wfsm r.rm_base | Null -> false end
  function pcount (p: ptr rm) : int = match p with Ptr r -> count r.rm_base | Null -> 0 end
  function pset (p: ptr rm) (i: int) : ss = match p with Ptr r -> set_of r.rm_base i | Null -> ss_none end
  predicate pmaps (p: ptr rm) (o n: int) = match p with Ptr r -> maps r o n | Null -> false end
  (* symbol x is in one of the ranges listed exactly for the sets v *)
  predicate grouped (m: MS.t) (v: IS.t) (x: int) = MS.mem m v /\ has (MS.get m v) x
  predicate in_old (src: sm) (o x: int) = 0 <= o < count src /\ has (set_of src o) x
endmlw
fn dedup
  cxx dfa::remapped_symbol_map::deduplicate
  requires wfsm source
  ensures pwf result
  ensures the new sets are disjoint:: forall i j x. 0 <= i < pcount result -> 0 <= j < pcount result -> has (pset result i) x -> has (pset result j) x -> i = j
  ensures every symbol of an old set is in a new set it maps to:: forall o x. in_old source o x -> exists n. pmaps result o n /\ 0 <= n < pcount result /\ has (pset result n) x
  ensures an old set only maps to parts of it:: forall o n x. pmaps result o n -> 0 <= n < pcount result -> has (pset result n) x -> in_old source o x
  ensures the new sets only have symbols of the old ones:: forall n x. 0 <= n < pcount result -> has (pset result n) x -> exists o. in_old source o x
  ensures the identifiers exist:: forall o n. pmaps result o n -> 0 <= n < pcount result /\ 0 <= o < count source
  ensures the empty set maps to itself:: forall o. 0 <= o < count source -> (forall x. not has (set_of source o) x) -> exists n. pmaps result o n /\ (forall x. not has (pset result n) x)
  loop 0
    invariant wfs setsContainingRange /\ listed setsContainingRange
    invariant IM.valid source.sm_IdForSymbols symSet
    invariant forall x i. ids setsContainingRange x i <-> (exists s. IM.mem source.sm_IdForSymbols s /\ not IM.at_or_after s symSet /\ IM.get source.sm_IdForSymbols s = i /\ has s x)
    variant IM.rank source.sm_IdForSymbols symSet
  loop 1
    invariant SR.valid setsContainingRange v_range
    invariant forall v. MS.mem setsForSets v -> wf (MS.get setsForSets v)
    invariant forall v x. grouped setsForSets v x -> exists k. SR.mem setsContainingRange k /\ not SR.at_or_after k v_range /\ rin (SR.get setsContainingRange k).sr_wkey x /\ (SR.get setsContainingRange k).sr_wval = v
    invariant forall k x. SR.mem setsContainingRange k -> not SR.at_or_after k v_range -> rin (SR.get setsContainingRange k).sr_wkey x -> grouped setsForSets (SR.get setsContainingRange k).sr_wval x
    invariant forall v. MS.mem setsForSets v -> exists x. has (MS.get setsForSets v) x
    variant SR.rank setsContainingRange v_range
    end assert { match v_range with At k -> grouped setsForSets (SR.get setsContainingRange k).sr_wval k | End -> true end }
  loop 2
    before let ghost m0 = newSet in assert { pwf m0 }; assert { forall n x. 0 <= n < pcount m0 -> not has (pset m0 n) x }; assert { forall o. 0 <= o < count source -> wf (set_of source o) /\ IM.mem source.sm_IdForSymbols (set_of source o) /\ IM.get source.sm_IdForSymbols (set_of source o) = o }; assert { forall o. 0 <= o < count source -> (forall x. not has (set_of source o) x) -> set_of source o = ss_none }; assert { forall o. 0 <= o < count source -> (forall x. not has (set_of source o) x) -> o = epsVal }; assert { epsVal >= 0 -> exists n. 0 <= n < pcount m0 /\ pmaps m0 epsVal n }; assert { forall x i. ids setsContainingRange x i <-> in_old source i x }; assert { forall v x i. grouped setsForSets v x -> (IS.mem v i <-> in_old source i x) }; assert { forall x i. in_old source i x -> exists v. grouped setsForSets v x /\ IS.mem v i }; assert { forall v w x. grouped setsForSets v x -> grouped setsForSets w x -> v = w }; assert { forall v. MS.mem setsForSets v -> exists i. IS.mem v i }; assert { forall v x. grouped setsForSets v x -> exists o. in_old source o x }
    invariant MS.valid setsForSets setMapping
    invariant pwf newSet
    invariant forall n. 0 <= n < pcount newSet -> (n < pcount m0 /\ pset newSet n = pset m0 n) \/ (exists v. MS.mem setsForSets v /\ not MS.at_or_after v setMapping /\ pset newSet n = MS.get setsForSets v)
    invariant forall o n. pmaps newSet o n -> 0 <= n < pcount newSet /\ (pmaps m0 o n /\ n < pcount m0 \/ (exists v. MS.mem setsForSets v /\ not MS.at_or_after v setMapping /\ IS.mem v o /\ pset newSet n = MS.get setsForSets v))
    invariant forall v o. MS.mem setsForSets v -> not MS.at_or_after v setMapping -> IS.mem v o -> exists n. 0 <= n < pcount newSet /\ pset newSet n = MS.get setsForSets v /\ pmaps newSet o n
    invariant forall o n. pmaps m0 o n -> pmaps newSet o n
    invariant forall n. 0 <= n < pcount m0 -> n < pcount newSet /\ pset newSet n = pset m0 n
    variant MS.rank setsForSets setMapping
    begin assume { pcount newSet < 2147483647 }
end
mlw
  function ks (i: iter ss) : ss = match i with At k -> k | End -> ss_none end
  function ki (i: iter int) : int = match i with At k -> k | End -> 0 end
endmlw
fn has_duplicates
  cxx dfa::symbol_map::has_duplicates
  requires wfsm this
  ensures a symbol in two sets:: result -> exists s t x. IM.mem this.sm_IdForSymbols s /\ IM.mem this.sm_IdForSymbols t /\ s <> t /\ has s x /\ has t x
  ensures no symbol in two sets:: not result -> forall s t x. IM.mem this.sm_IdForSymbols s -> IM.mem this.sm_IdForSymbols t -> has s x -> has t x -> s = t
  loop 0
    invariant IM.valid this.sm_IdForSymbols checkSet
    invariant forall s t x. IM.mem this.sm_IdForSymbols s -> not IM.at_or_after s checkSet -> IM.mem this.sm_IdForSymbols t -> has s x -> has t x -> s = t
    variant IM.rank this.sm_IdForSymbols checkSet
  loop 1
    invariant RS.valid (ks checkSet).ss_Symbols checkRange
    invariant forall t x. sofar (ks checkSet) checkRange x -> IM.mem this.sm_IdForSymbols t -> has t x -> ks checkSet = t
    variant RS.rank (ks checkSet).ss_Symbols checkRange
  loop 2
    invariant IM.valid this.sm_IdForSymbols againstSet
    invariant forall t x. IM.mem this.sm_IdForSymbols t -> not IM.at_or_after t againstSet -> has t x -> rin (RS.get (ks checkSet).ss_Symbols (ki checkRange)) x -> ks checkSet = t
    variant IM.rank this.sm_IdForSymbols againstSet
  loop 3
    invariant RS.valid (ks againstSet).ss_Symbols againstRange
    invariant forall x. sofar (ks againstSet) againstRange x -> rin (RS.get (ks checkSet).ss_Symbols (ki checkRange)) x -> false
    variant RS.rank (ks againstSet).ss_Symbols againstRange
end
