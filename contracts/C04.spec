tu
#include "/repo/TameParse/Dfa/state.cpp"
#include "/repo/TameParse/Dfa/transition.cpp"
#include "/repo/TameParse/Dfa/state_machine.h"
#include "/repo/TameParse/Dfa/hard_coded_symbol_table.h"
namespace vtu {
typedef dfa::hard_coded_symbol_table<wchar_t, 2> hct;
int use1(const dfa::ndfa& n, const hct& h, const dfa::state_machine_tables<wchar_t, hct>::entry** e) {
  dfa::state_machine<int> a(n); dfa::state_machine<wchar_t> b(n);
  dfa::state_machine<int, dfa::state_machine_compact_table<> > c(n); dfa::state_machine<wchar_t, dfa::state_machine_compact_table<> > d(n);
  dfa::state_machine_tables<wchar_t, hct> t(h, e, 1);
  return a.run(0, 1) + b.run(0, 1) + c.run(0, 1) + d.run(0, 1) + t.run(0, 1);
}
}
endtu
alias "dfa::state_machine_compact_table<>::entry" "dfa::state_machine_compact_table<true>::entry"
alias "dfa::state_machine_compact_table<>" "dfa::state_machine_compact_table<true>"
record tr "dfa::transition"
mlw
  predicate tr_lt (a b: tr) = a.tr_SymbolSet < b.tr_SymbolSet \/ (a.tr_SymbolSet = b.tr_SymbolSet /\ a.tr_NewState < b.tr_NewState)
endmlw
omap TS "std::set<dfa::transition>" key tr keyonly yes keyty "dfa::transition" lt tr_lt
record st "dfa::state"
harr int "int *" "int"
record ft "dfa::state_machine_flat_table"
record ent "dfa::state_machine_compact_table<true>::entry"
cmp ent_less "dfa::state_machine_compact_table<true>::compare_entries"
mlw
  let predicate ft_init (f: ft) = match f.ft_Row with HNull -> true | _ -> false end
  let predicate ent_less (a b: ent) = a.ent_symbolSet < b.ent_symbolSet
endmlw
harr ent "dfa::state_machine_compact_table<true>::entry *" "dfa::state_machine_compact_table<true>::entry"
record ct "dfa::state_machine_compact_table<true>"
mlw
  let predicate ct_init (f: ct) = match f.ct_Row with HNull -> true | _ -> false end
endmlw
harr ft "dfa::state_machine_flat_table *" "dfa::state_machine_flat_table" init=ft_init
harr ct "dfa::state_machine_compact_table<true> *" "dfa::state_machine_compact_table<true>" init=ct_init
mlw
  (* the automaton: at most one transition of a state on a class *)
  predicate det (s: st) = forall a b. TS.mem s.st_Transitions a -> TS.mem s.st_Transitions b -> a.tr_SymbolSet = b.tr_SymbolSet -> a = b
  predicate goes (s: st) (c t: int) = exists a. TS.mem s.st_Transitions a /\ a.tr_SymbolSet = c /\ a.tr_NewState = t
  predicate stuck (s: st) (c: int) = forall a. TS.mem s.st_Transitions a -> a.tr_SymbolSet <> c
  predicate inside (s: st) (n: int) = forall a. TS.mem s.st_Transitions a -> 0 <= a.tr_SymbolSet < n /\ 0 <= a.tr_NewState
  (* what a row of a table has to answer *)
  predicate answers (s: st) (c r: int) = (r = -1 /\ stuck s c) \/ goes s c r
  predicate flat_row (f: ft) (n: int) (s: st) = length (hs f.ft_Row) = n /\ f.ft_Row = HArr (hs f.ft_Row) /\ forall c. 0 <= c < n -> answers s c (hs f.ft_Row)[c]
  predicate crow (r: seq ent) (s: st) =
    (forall i. 0 <= i < length r -> goes s r[i].ent_symbolSet r[i].ent_state)
    /\ (forall a. TS.mem s.st_Transitions a -> exists i. 0 <= i < length r /\ r[i].ent_symbolSet = a.tr_SymbolSet)
  predicate compact_row (f: ct) (s: st) =
    f.ct_Row = HArr (hs f.ct_Row) /\ length (hs f.ct_Row) = f.ct_NumEntries /\ sorted_by ent_less (hs f.ct_Row) 0 f.ct_NumEntries /\ crow (hs f.ct_Row) s
  predicate seen (s: st) (i: iter tr) (a: tr) = TS.mem s.st_Transitions a /\ not TS.at_or_after a i
endmlw
fn tr_less
  cxx dfa::transition::operator<
  ensures the order of the set of transitions:: result <-> tr_lt this compareTo
end
fn tr_new
  cxx dfa::transition::transition(int, int)
  ensures result.tr_SymbolSet = symbolSet /\ result.tr_NewState = newState
end
fn tr_set
  cxx dfa::transition::symbol_set
  ensures result = this.tr_SymbolSet
end
fn tr_to
  cxx dfa::transition::new_state
  ensures result = this.tr_NewState
end
fn st_new
  cxx dfa::state::state(int)
  ensures forall a. not TS.mem result.st_Transitions a
end
fn st_copy
  cxx dfa::state::state(const dfa::state&)
  ensures forall a. TS.mem result.st_Transitions a <-> TS.mem copyFrom.st_Transitions a
end
fn st_add
  cxx dfa::state::add
  ensures forall a. TS.mem this.st_Transitions a <-> (TS.mem (old this).st_Transitions a \/ a = newTransition)
end
fn st_count
  cxx dfa::state::count_transitions
  requires TS.size this.st_Transitions <= 2147483647
  ensures result = TS.size this.st_Transitions
end
fn st_begin
  cxx dfa::state::begin
  result iter this.m_Transitions
  ensures TS.is_first this.st_Transitions result /\ TS.rank this.st_Transitions result = TS.size this.st_Transitions
end
fn st_end
  cxx dfa::state::end
  result iter this.m_Transitions
  ensures result = End
end
fn flat_fill
  cxx dfa::state_machine_flat_table::fill
  requires 0 <= maxSet /\ this.ft_Row = HNull
  requires det thisState /\ inside thisState maxSet
  ensures every entry of the row is the target of the transition, or none:: flat_row this maxSet thisState
  loop 0
    invariant 0 <= x <= maxSet /\ this.ft_Row = HArr (hs this.ft_Row) /\ length (hs this.ft_Row) = maxSet
    invariant forall i. 0 <= i < x -> (hs this.ft_Row)[i] = -1
    variant maxSet - x
  loop 1
    invariant TS.valid thisState.st_Transitions transit
    invariant this.ft_Row = HArr (hs this.ft_Row) /\ length (hs this.ft_Row) = maxSet
    invariant forall a. seen thisState transit a -> (hs this.ft_Row)[a.tr_SymbolSet] = a.tr_NewState
    invariant forall i. 0 <= i < maxSet -> (forall a. seen thisState transit a -> a.tr_SymbolSet <> i) -> (hs this.ft_Row)[i] = -1
    variant TS.rank thisState.st_Transitions transit
end
fn flat_at
  cxx dfa::state_machine_flat_table::operator[]
  requires 0 <= symbolSet < length (hs this.ft_Row) /\ this.ft_Row = HArr (hs this.ft_Row)
  ensures result = (hs this.ft_Row)[symbolSet]
  ensures a flat row answers like the state:: forall n s. flat_row this n s -> answers s symbolSet result
end
fn compact_cmp
  cxx dfa::state_machine_compact_table<true>::compare_entries
  ensures result <-> ent_less a b
end
fn compact_fill
  cxx dfa::state_machine_compact_table<true>::fill
  requires this.ct_Row = HNull
  requires det thisState /\ inside thisState maxSet /\ TS.size thisState.st_Transitions <= 2147483647
  entry let ghost ref r0 = (empty: seq ent) in ()
  ensures the row is sorted and holds exactly the transitions:: compact_row this thisState
  loop 0
    invariant TS.valid thisState.st_Transitions transit
    invariant this.ct_Row = HArr (hs this.ct_Row) /\ length (hs this.ct_Row) = this.ct_NumEntries /\ this.ct_NumEntries = TS.size thisState.st_Transitions
    invariant pos = this.ct_NumEntries - TS.rank thisState.st_Transitions transit
    invariant forall i. 0 <= i < pos -> goes thisState (hs this.ct_Row)[i].ent_symbolSet (hs this.ct_Row)[i].ent_state
    invariant forall a. seen thisState transit a -> exists i. 0 <= i < pos /\ (hs this.ct_Row)[i].ent_symbolSet = a.tr_SymbolSet
    variant TS.rank thisState.st_Transitions transit
    after r0 <- hs this.ct_Row
    after assert { crow r0 thisState }
  exit assert { forall i. 0 <= i < this.ct_NumEntries -> among r0 0 this.ct_NumEntries (hs this.ct_Row)[i] by among (hs this.ct_Row) 0 this.ct_NumEntries (hs this.ct_Row)[i] }
  exit assert { forall i. 0 <= i < this.ct_NumEntries -> among (hs this.ct_Row) 0 this.ct_NumEntries r0[i] by among r0 0 this.ct_NumEntries r0[i] }
  exit assert { crow (hs this.ct_Row) thisState }
end
fn compact_at
  cxx dfa::state_machine_compact_table<true>::operator[]
  requires this.ct_Row = HArr (hs this.ct_Row) /\ 0 <= this.ct_NumEntries <= length (hs this.ct_Row) /\ sorted_by ent_less (hs this.ct_Row) 0 this.ct_NumEntries
  ensures (result = -1 /\ forall i. 0 <= i < this.ct_NumEntries -> (hs this.ct_Row)[i].ent_symbolSet <> symbolSet) \/ (exists i. 0 <= i < this.ct_NumEntries /\ (hs this.ct_Row)[i].ent_symbolSet = symbolSet /\ (hs this.ct_Row)[i].ent_state = result)
  ensures a compact row answers like the state:: forall s. compact_row this s -> answers s symbolSet result
end
fn flat_new
  cxx dfa::state_machine_flat_table::state_machine_flat_table()
  ensures ft_init result
end
fn compact_new
  cxx dfa::state_machine_compact_table<true>::state_machine_compact_table()
  ensures ct_init result
end
mlw
  (* the automaton the state machine is built from, and what the translator makes of a character (C03) *)
  type nfa
  type trans
  function nstates (n: nfa) : int
  function nth_state (n: nfa) (i: int) : st
  function nsets (n: nfa) : int
  type smap
  function syms (n: nfa) : smap
  function cls (t: trans) (c: int) : int
  function cls_of (m: smap) (c: int) : int
  val n_count (n: nfa) : int ensures { result = nstates n /\ 0 <= result <= 2147483647 }
  val n_state (n: nfa) (i: int) : st ensures { 0 <= i < nstates n -> result = nth_state n i }
  val n_syms (n: nfa) : smap ensures { result = syms n }
  function nsets_of (m: smap) : int
  val m_count (m: smap) : int ensures { result = nsets_of m /\ 0 <= result <= 2147483647 }
  val t_new (m: smap) : trans ensures { forall c. cls result c = cls_of m c }
  val t_set (t: trans) (c: int) : int ensures { result = cls t c }
  predicate dfa_ok (n: nfa) = forall i. 0 <= i < nstates n -> det (nth_state n i) /\ inside (nth_state n i) (nsets_of (syms n)) /\ TS.size (nth_state n i).st_Transitions <= 2147483647
endmlw
abstract nfa "dfa::ndfa"
abstract smap "dfa::symbol_map"
abstract trans "dfa::symbol_translator<>" ctor1=t_new
abstract trans "dfa::symbol_translator<wchar_t>" ctor1=t_new
xfn n_count "dfa::ndfa::count_states"
xfn n_state "dfa::ndfa::get_state"
xfn n_syms "dfa::ndfa::symbols"
xfn m_count "dfa::symbol_map::count_sets"
xfn t_set "dfa::symbol_translator<int, dfa::symbol_table<int>>::set_for_symbol"
xfn t_set "dfa::symbol_translator<wchar_t, dfa::symbol_table<wchar_t>>::set_for_symbol"
macro machine k row sym tn r rowp
record m$k "dfa::state_machine<$sym, $row, $tn, true>"
mlw
  predicate row$k $rowp
  predicate wf$k (m: m$k) = 0 <= m.m$k_MaxState /\ m.m$k_States = HArr (hs m.m$k_States) /\ length (hs m.m$k_States) = m.m$k_MaxState
  predicate built$k (m: m$k) (n: nfa) =
    wf$k m /\ m.m$k_MaxState = nstates n /\ m.m$k_MaxSet = nsets_of (syms n) /\ (forall c. cls m.m$k_Translator c = cls_of (syms n) c)
    /\ forall i. 0 <= i < nstates n -> row$k (hs m.m$k_States)[i] m.m$k_MaxSet (nth_state n i)
endmlw
fn $k_new
  cxx dfa::state_machine<$sym, $row, $tn, true>::state_machine(const dfa::ndfa&)
  requires dfa_ok dfa
  ensures every row answers like the state of the automaton:: built$k result dfa
  loop 0
    invariant 0 <= stateNum <= this.m$k_MaxState /\ wf$k this /\ this.m$k_MaxState = nstates dfa /\ this.m$k_MaxSet = nsets_of (syms dfa) /\ (forall c. cls this.m$k_Translator c = cls_of (syms dfa) c)
    invariant forall i. stateNum <= i < this.m$k_MaxState -> $r_init (hs this.m$k_States)[i]
    invariant forall i. 0 <= i < stateNum -> row$k (hs this.m$k_States)[i] this.m$k_MaxSet (nth_state dfa i)
    variant this.m$k_MaxState - stateNum
end
fn $k_run_set
  cxx dfa::state_machine<$sym, $row, $tn, true>::run_unsafe_set
  requires wf$k this /\ 0 <= state < this.m$k_MaxState /\ 0 <= symbolSet < this.m$k_MaxSet
  requires rows are built:: exists n. built$k this n
  ensures the row of the state answers:: forall n. built$k this n -> answers (nth_state n state) symbolSet result
end
fn $k_run_unsafe
  cxx dfa::state_machine<$sym, $row, $tn, true>::run_unsafe
  requires wf$k this /\ 0 <= state < this.m$k_MaxState
  requires rows are built:: exists n. built$k this n
  requires classes:: -1 <= cls this.m$k_Translator symbol < this.m$k_MaxSet
  ensures an unclassified character has no transition:: cls this.m$k_Translator symbol = -1 -> result = -1
  ensures the row of the state answers for the class:: forall n. built$k this n -> cls_of (syms n) symbol <> -1 -> answers (nth_state n state) (cls_of (syms n) symbol) result
end
fn $k_run
  cxx dfa::state_machine<$sym, $row, $tn, true>::run
  requires wf$k this
  requires rows are built:: exists n. built$k this n
  requires classes:: -1 <= cls this.m$k_Translator symbol < this.m$k_MaxSet
  ensures a state out of range or an unclassified character has no transition:: not 0 <= state < this.m$k_MaxState \/ cls this.m$k_Translator symbol = -1 -> result = -1
  ensures the row of the state answers for the class:: forall n. built$k this n -> 0 <= state < this.m$k_MaxState -> cls_of (syms n) symbol <> -1 -> answers (nth_state n state) (cls_of (syms n) symbol) result
end
endmacro
expand machine fi "dfa::state_machine_flat_table" "int" "dfa::symbol_translator<>" ft "(f: ft) (n: int) (s: st) = flat_row f n s"
expand machine fw "dfa::state_machine_flat_table" "wchar_t" "dfa::symbol_translator<wchar_t>" ft "(f: ft) (n: int) (s: st) = flat_row f n s"
expand machine ci "dfa::state_machine_compact_table<>" "int" "dfa::symbol_translator<>" ct "(f: ct) (n: int) (s: st) = compact_row f s"
expand machine cw "dfa::state_machine_compact_table<>" "wchar_t" "dfa::symbol_translator<wchar_t>" ct "(f: ct) (n: int) (s: st) = compact_row f s"
record ge "dfa::state_machine_compact_table<false>::entry"
cmp ge_less "dfa::state_machine_compact_table<false>::compare_entries"
mlw
  let predicate ge_less (a b: ge) = a.ge_symbolSet < b.ge_symbolSet
  (* the array of a generated lexer that every entry pointer points into *)
  val constant entries : seq ge
  type hct
  function hcls (t: hct) (c: int) : int
  val h_set (t: hct) (c: int) : int ensures { result = hcls t c }
endmlw
fn ge_cmp
  cxx dfa::state_machine_compact_table<false>::compare_entries
  ensures result <-> ge_less a b
end
seg entries "dfa::state_machine_compact_table<false>::entry *" "dfa::state_machine_compact_table<false>::entry"
harr int "dfa::state_machine_compact_table<false>::entry **" "dfa::state_machine_compact_table<false>::entry *"
abstract hct "dfa::hard_coded_symbol_table<wchar_t, 2>"
xfn h_set "dfa::hard_coded_symbol_table<wchar_t, 2>::lookup"
record gt "dfa::state_machine_tables<wchar_t, dfa::hard_coded_symbol_table<wchar_t, 2>>"
mlw
  function start (t: gt) (s: int) : int = (hs t.gt_StateEntries)[s]
  (* consecutive sorted segments of the array, one for every state *)
  predicate gwf (t: gt) = 0 <= t.gt_MaxState /\ t.gt_StateEntries = HArr (hs t.gt_StateEntries) /\ length (hs t.gt_StateEntries) = t.gt_MaxState + 1
    /\ forall s. 0 <= s < t.gt_MaxState -> 0 <= start t s <= start t (s + 1) <= length entries /\ sorted_by ge_less entries (start t s) (start t (s + 1))
  predicate ganswers (t: gt) (s c r: int) =
    (r = -1 /\ forall i. start t s <= i < start t (s + 1) -> entries[i].ge_symbolSet <> c)
    \/ (exists i. start t s <= i < start t (s + 1) /\ entries[i].ge_symbolSet = c /\ entries[i].ge_state = r)
endmlw
fn g_run_set
  cxx dfa::state_machine_tables<wchar_t, dfa::hard_coded_symbol_table<wchar_t, 2>>::run_unsafe_set
  requires gwf this /\ 0 <= state < this.gt_MaxState
  ensures the segment of the state answers:: ganswers this state symbolSet result
end
fn g_run_unsafe
  cxx dfa::state_machine_tables<wchar_t, dfa::hard_coded_symbol_table<wchar_t, 2>>::run_unsafe
  requires gwf this /\ 0 <= state < this.gt_MaxState
  ensures an unclassified character has no transition:: hcls this.gt_Translator symbol = -1 -> result = -1
  ensures the segment of the state answers for the class:: hcls this.gt_Translator symbol <> -1 -> ganswers this state (hcls this.gt_Translator symbol) result
end
fn g_run
  cxx dfa::state_machine_tables<wchar_t, dfa::hard_coded_symbol_table<wchar_t, 2>>::run
  requires gwf this
  ensures a state out of range or an unclassified character has no transition:: not 0 <= state < this.gt_MaxState \/ hcls this.gt_Translator symbol = -1 -> result = -1
  ensures the segment of the state answers for the class:: 0 <= state < this.gt_MaxState -> hcls this.gt_Translator symbol <> -1 -> ganswers this state (hcls this.gt_Translator symbol) result
end
