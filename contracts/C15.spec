tu
#include "/repo/TameParse/Lr/parser_tables.cpp"
endtu
record act "lr::parser_tables::action"
record rr "lr::parser_tables::reduce_rule"
record ac "lr::parser_tables::action_count"
record se "lr::parser_tables::symbol_equivalent"
harr act "lr::parser_tables::action *" "lr::parser_tables::action"
harr "harr act" "lr::parser_tables::action **" "lr::parser_tables::action *"
harr ac "lr::parser_tables::action_count *" "lr::parser_tables::action_count"
harr rr "lr::parser_tables::reduce_rule *" "lr::parser_tables::reduce_rule"
harr se "lr::parser_tables::symbol_equivalent *" "lr::parser_tables::symbol_equivalent"
harr int "int *" "int"
record pt "lr::parser_tables"
mlw
  let predicate sym_lt (a b: act) = a.act_symbolId < b.act_symbolId
  let predicate se_eq (a b: se) = a.se_OriginalSymbol = b.se_OriginalSymbol
  let predicate se_lt (a b: se) = a.se_OriginalSymbol < b.se_OriginalSymbol
  (* the order of preference between actions *)
  let function rank_of (t: int) : int =
    if t = 8 then 0 else if t = 4 then 1 else if t = 0 || t = 1 || t = 7 then 2 else if t = 3 then 3 else if t = 6 then 4 else 5
  let predicate act_lt (a b: act) = a.act_symbolId < b.act_symbolId || (a.act_symbolId = b.act_symbolId && rank_of a.act_type < rank_of b.act_type)
  function nt (t: pt) (s: int) : int = (hs t.pt_Counts)[s].ac_numTerminals
  function nn (t: pt) (s: int) : int = (hs t.pt_Counts)[s].ac_numNonterminals
  function trow (t: pt) (s: int) : harr act = (hs t.pt_TerminalActions)[s]
  function nrow (t: pt) (s: int) : harr act = (hs t.pt_NonterminalActions)[s]
  predicate full (h: harr 'a) (n: int) = h = HArr (hs h) /\ 0 <= n <= length (hs h)
  predicate pwf (t: pt) = 0 <= t.pt_NumStates <= 2147483646 /\ 0 <= t.pt_NumRules <= 2147483646 /\ 0 <= t.pt_NumEndOfGuards <= 2147483646
    /\ 0 <= t.pt_NumWeakToStrong <= 2147483646
    /\ full t.pt_TerminalActions t.pt_NumStates /\ full t.pt_NonterminalActions t.pt_NumStates /\ full t.pt_Counts t.pt_NumStates
    /\ full t.pt_Rules t.pt_NumRules /\ full t.pt_EndGuardStates t.pt_NumEndOfGuards
    /\ (t.pt_WeakToStrong = HNull -> t.pt_NumWeakToStrong = 0) /\ (t.pt_WeakToStrong <> HNull -> full t.pt_WeakToStrong t.pt_NumWeakToStrong)
    /\ forall s. 0 <= s < t.pt_NumStates -> 0 <= nt t s <= 2147483646 /\ 0 <= nn t s <= 2147483646 /\ full (trow t s) (nt t s) /\ full (nrow t s) (nn t s)
  predicate ordered (t: pt) = sorted_by int_lt (hs t.pt_EndGuardStates) 0 t.pt_NumEndOfGuards
    /\ forall s. 0 <= s < t.pt_NumStates -> sorted_by sym_lt (hs (trow t s)) 0 (nt t s) /\ sorted_by sym_lt (hs (nrow t s)) 0 (nn t s)
  predicate srow (h g: harr act) (n: int) = full h n /\ full g n /\ forall i. 0 <= i < n -> (hs h)[i] = (hs g)[i]
  (* the same answer to every query *)
  predicate same_tables (a b: pt) = a.pt_NumStates = b.pt_NumStates /\ a.pt_NumRules = b.pt_NumRules /\ a.pt_EndOfInput = b.pt_EndOfInput /\ a.pt_EndOfGuard = b.pt_EndOfGuard
    /\ a.pt_NumEndOfGuards = b.pt_NumEndOfGuards /\ a.pt_NumWeakToStrong = b.pt_NumWeakToStrong
    /\ (forall s. 0 <= s < a.pt_NumStates -> (hs a.pt_Counts)[s] = (hs b.pt_Counts)[s])
    /\ (forall s. 0 <= s < a.pt_NumStates -> srow (trow a s) (trow b s) (nt b s))
    /\ (forall s. 0 <= s < a.pt_NumStates -> srow (nrow a s) (nrow b s) (nn b s))
    /\ (forall i. 0 <= i < a.pt_NumRules -> (hs a.pt_Rules)[i] = (hs b.pt_Rules)[i])
    /\ (forall i. 0 <= i < a.pt_NumEndOfGuards -> (hs a.pt_EndGuardStates)[i] = (hs b.pt_EndGuardStates)[i])
    /\ (forall i. 0 <= i < a.pt_NumWeakToStrong -> (hs a.pt_WeakToStrong)[i] = (hs b.pt_WeakToStrong)[i])
endmlw
cmp sym_lt "lr::parser_tables::compare_symbols"
cmp act_lt "compare_actions"
cmp se_eq "lr::parser_tables::symbol_equivalent::operator=="
cmp se_lt "lr::parser_tables::symbol_equivalent::operator<"
fn score
  cxx action_score
  ensures the order of preference:: result = rank_of action
end
fn less_action
  cxx compare_actions
  requires 0 <= a.act_type < 256 /\ 0 <= b.act_type < 256
  ensures by symbol and then by preference:: result <-> act_lt a b
end
fn less_symbol
  cxx lr::parser_tables::compare_symbols
  ensures result <-> sym_lt a compareTo
end
fn equiv_eq
  cxx lr::parser_tables::symbol_equivalent::operator==
  ensures result <-> se_eq this compareTo
end
fn equiv_lt
  cxx lr::parser_tables::symbol_equivalent::operator<
  ensures result <-> se_lt this compareTo
end
mlw
  (* the actions of a symbol are those from the result up to the next symbol *)
  predicate found (h: harr act) (n c i: int) = 0 <= i <= n /\ (forall p. 0 <= p < i -> (hs h)[p].act_symbolId < c) /\ forall p. i <= p < n -> (hs h)[p].act_symbolId >= c
endmlw
fn find_terminal
  cxx lr::parser_tables::find_terminal
  result type int
  requires pwf this /\ ordered this /\ 0 <= stateId < this.pt_NumStates
  ensures the first action of the symbol:: found (trow this stateId) (nt this stateId) terminal result
end
fn find_nonterminal
  cxx lr::parser_tables::find_nonterminal
  result type int
  requires pwf this /\ ordered this /\ 0 <= stateId < this.pt_NumStates
  ensures the first action of the symbol:: found (nrow this stateId) (nn this stateId) nonterminal result
end
fn last_terminal
  cxx lr::parser_tables::last_terminal_action
  result type int
  requires pwf this /\ 0 <= stateId < this.pt_NumStates
  ensures result = nt this stateId
end
fn last_nonterminal
  cxx lr::parser_tables::last_nonterminal_action
  result type int
  requires pwf this /\ 0 <= stateId < this.pt_NumStates
  ensures result = nn this stateId
end
fn the_rule
  cxx lr::parser_tables::rule
  requires pwf this /\ 0 <= ruleId < this.pt_NumRules
  ensures result = (hs this.pt_Rules)[ruleId]
end
fn has_guard
  cxx lr::parser_tables::has_end_of_guard
  requires pwf this /\ ordered this
  ensures result <-> exists i. 0 <= i < this.pt_NumEndOfGuards /\ (hs this.pt_EndGuardStates)[i] = stateId
end
fn eoi
  cxx lr::parser_tables::end_of_input
  requires pwf this
  ensures result = this.pt_EndOfInput
end
fn eog
  cxx lr::parser_tables::end_of_guard
  requires pwf this
  ensures result = this.pt_EndOfGuard
end
fn strong
  cxx lr::parser_tables::strong_for_weak
  requires pwf this
  ensures a terminal without an equivalent is its own:: (forall i. 0 <= i < this.pt_NumWeakToStrong -> (hs this.pt_WeakToStrong)[i].se_OriginalSymbol <> weakTerminal) -> result = weakTerminal
  ensures otherwise the result is an equivalent:: (exists i. 0 <= i < this.pt_NumWeakToStrong /\ (hs this.pt_WeakToStrong)[i].se_OriginalSymbol = weakTerminal) -> exists i. 0 <= i < this.pt_NumWeakToStrong /\ (hs this.pt_WeakToStrong)[i].se_OriginalSymbol = weakTerminal /\ (hs this.pt_WeakToStrong)[i].se_MappedTo = result
end
fn count_actions
  cxx lr::parser_tables::count_actions_for_state
  requires pwf this /\ 0 <= stateId < this.pt_NumStates
  ensures result = nt this stateId + nn this stateId
end
fn count_states
  cxx lr::parser_tables::count_states
  requires pwf this
  ensures result = this.pt_NumStates
end
mlw
  predicate rows_to (a b: pt) (k: int) = forall s. 0 <= s < k -> (hs a.pt_Counts)[s] = (hs b.pt_Counts)[s] /\ srow (trow a s) (trow b s) (nt b s) /\ srow (nrow a s) (nrow b s) (nn b s)
  predicate rules_to (a b: pt) (k: int) = full a.pt_Rules (a.pt_NumRules + 1) /\ forall i. 0 <= i < k -> (hs a.pt_Rules)[i] = (hs b.pt_Rules)[i]
  predicate guards_to (a b: pt) (k: int) = a.pt_NumEndOfGuards = b.pt_NumEndOfGuards /\ full a.pt_EndGuardStates (a.pt_NumEndOfGuards + 1) /\ forall i. 0 <= i < k -> (hs a.pt_EndGuardStates)[i] = (hs b.pt_EndGuardStates)[i]
  predicate shape (a: pt) (b: pt) = a.pt_NumStates = b.pt_NumStates /\ a.pt_NumRules = b.pt_NumRules /\ a.pt_EndOfInput = b.pt_EndOfInput /\ a.pt_EndOfGuard = b.pt_EndOfGuard /\ a.pt_NumWeakToStrong = b.pt_NumWeakToStrong
    /\ a.pt_DeleteTables = b.pt_DeleteTables /\ full a.pt_TerminalActions (a.pt_NumStates + 1) /\ full a.pt_NonterminalActions (a.pt_NumStates + 1) /\ full a.pt_Counts (a.pt_NumStates + 1)
endmlw
fn copy_ctor
  cxx lr::parser_tables::parser_tables(const lr::parser_tables&)
  requires pwf copyFrom
  ensures a copy is well formed:: pwf result
  ensures a copy answers every query identically:: same_tables result copyFrom
  loop 0
    invariant 0 <= stateId <= this.pt_NumStates /\ shape this copyFrom /\ rows_to this copyFrom stateId
    end assert { srow (trow this stateId) (trow copyFrom stateId) (nt copyFrom stateId) }
    end assert { srow (nrow this stateId) (nrow copyFrom stateId) (nn copyFrom stateId) }
    end assert { rows_to this copyFrom stateId }
    variant this.pt_NumStates - stateId
  loop 1
    before assert { shape this copyFrom }
    before assert { rows_to this copyFrom stateId }
    invariant 0 <= x <= nt copyFrom stateId
    invariant shape this copyFrom
    invariant rows_to this copyFrom stateId
    invariant (hs this.pt_Counts)[stateId] = (hs copyFrom.pt_Counts)[stateId]
    invariant full (trow this stateId) (nt copyFrom stateId + 1) /\ full (nrow this stateId) (nn copyFrom stateId + 1)
    invariant forall i. 0 <= i < x -> (hs (trow this stateId))[i] = (hs (trow copyFrom stateId))[i]
    variant nt copyFrom stateId - x
  loop 2
    invariant 0 <= x_2 <= nn copyFrom stateId
    invariant shape this copyFrom
    invariant rows_to this copyFrom stateId
    invariant (hs this.pt_Counts)[stateId] = (hs copyFrom.pt_Counts)[stateId]
    invariant srow (trow this stateId) (trow copyFrom stateId) (nt copyFrom stateId) /\ full (nrow this stateId) (nn copyFrom stateId + 1)
    invariant forall i. 0 <= i < x_2 -> (hs (nrow this stateId))[i] = (hs (nrow copyFrom stateId))[i]
    variant nn copyFrom stateId - x_2
  loop 3
    invariant 0 <= ruleId <= this.pt_NumRules /\ shape this copyFrom /\ rows_to this copyFrom this.pt_NumStates /\ rules_to this copyFrom ruleId
    variant this.pt_NumRules - ruleId
  loop 4
    invariant 0 <= x_3 <= this.pt_NumEndOfGuards /\ shape this copyFrom /\ rows_to this copyFrom this.pt_NumStates /\ rules_to this copyFrom this.pt_NumRules /\ guards_to this copyFrom x_3
    variant this.pt_NumEndOfGuards - x_3
  loop 5
    invariant 0 <= x_4 <= this.pt_NumWeakToStrong /\ shape this copyFrom /\ rows_to this copyFrom this.pt_NumStates /\ rules_to this copyFrom this.pt_NumRules /\ guards_to this copyFrom this.pt_NumEndOfGuards
    invariant full this.pt_WeakToStrong (this.pt_NumWeakToStrong + 1)
    invariant forall i. 0 <= i < x_4 -> (hs this.pt_WeakToStrong)[i] = (hs copyFrom.pt_WeakToStrong)[i]
    variant this.pt_NumWeakToStrong - x_4
end
fn assign
  cxx lr::parser_tables::operator=
  requires pwf this /\ pwf copyFrom
  ensures assigned tables are well formed:: pwf this
  ensures assigned tables answer every query identically:: same_tables this copyFrom
  loop 0
    invariant 0 <= x <= this.pt_NumStates /\ this = old this
    variant this.pt_NumStates - x
  loop 1
    invariant 0 <= stateId <= this.pt_NumStates /\ shape this copyFrom /\ rows_to this copyFrom stateId
    end assert { srow (trow this stateId) (trow copyFrom stateId) (nt copyFrom stateId) }
    end assert { srow (nrow this stateId) (nrow copyFrom stateId) (nn copyFrom stateId) }
    end assert { rows_to this copyFrom stateId }
    variant this.pt_NumStates - stateId
  loop 2
    before assert { shape this copyFrom }
    before assert { rows_to this copyFrom stateId }
    invariant 0 <= x_2 <= nt copyFrom stateId
    invariant shape this copyFrom
    invariant rows_to this copyFrom stateId
    invariant (hs this.pt_Counts)[stateId] = (hs copyFrom.pt_Counts)[stateId]
    invariant full (trow this stateId) (nt copyFrom stateId + 1) /\ full (nrow this stateId) (nn copyFrom stateId + 1)
    invariant forall i. 0 <= i < x_2 -> (hs (trow this stateId))[i] = (hs (trow copyFrom stateId))[i]
    variant nt copyFrom stateId - x_2
  loop 3
    invariant 0 <= x_3 <= nn copyFrom stateId
    invariant shape this copyFrom
    invariant rows_to this copyFrom stateId
    invariant (hs this.pt_Counts)[stateId] = (hs copyFrom.pt_Counts)[stateId]
    invariant srow (trow this stateId) (trow copyFrom stateId) (nt copyFrom stateId) /\ full (nrow this stateId) (nn copyFrom stateId + 1)
    invariant forall i. 0 <= i < x_3 -> (hs (nrow this stateId))[i] = (hs (nrow copyFrom stateId))[i]
    variant nn copyFrom stateId - x_3
  loop 4
    invariant 0 <= ruleId <= this.pt_NumRules /\ shape this copyFrom /\ rows_to this copyFrom this.pt_NumStates /\ rules_to this copyFrom ruleId
    variant this.pt_NumRules - ruleId
  loop 5
    invariant 0 <= x_4 <= this.pt_NumEndOfGuards /\ shape this copyFrom /\ rows_to this copyFrom this.pt_NumStates /\ rules_to this copyFrom this.pt_NumRules /\ guards_to this copyFrom x_4
    variant this.pt_NumEndOfGuards - x_4
  loop 6
    invariant 0 <= x_5 <= this.pt_NumWeakToStrong /\ shape this copyFrom /\ rows_to this copyFrom this.pt_NumStates /\ rules_to this copyFrom this.pt_NumRules /\ guards_to this copyFrom this.pt_NumEndOfGuards
    invariant full this.pt_WeakToStrong (this.pt_NumWeakToStrong + 1)
    invariant forall i. 0 <= i < x_5 -> (hs this.pt_WeakToStrong)[i] = (hs copyFrom.pt_WeakToStrong)[i]
    variant this.pt_NumWeakToStrong - x_5
end
