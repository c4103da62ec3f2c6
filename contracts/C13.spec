tu
#include "/repo/TameParse/Lr/lalr_state.cpp"
#include "/repo/TameParse/Lr/lalr_machine.cpp"
template class lr::lr_state<lr::lr0_item>;
endtu
mlw
  (* dotted rules as values: ordered by lr0_item::operator< (which C09's order gives), incomparable means the same dotted rule *)
  type item0
  predicate item0_lt (a b: item0)
  axiom item0_irrefl: forall a. not item0_lt a a
  axiom item0_trans: forall a b c. item0_lt a b -> item0_lt b c -> item0_lt a c
  axiom item0_total: forall a b. item0_lt a b \/ a = b \/ item0_lt b a
  type nomerge
  val constant a_nomerge : nomerge
  type less0
  val constant a_less0 : less0
  val item0_less (_: less0) (a b: item0) : bool ensures { result <-> item0_lt a b }
  val constant no_item0 : item0
endmlw
alias "util::container<lr::lr0_item>" "util::container<lr::lr0_item, util::simple_constructor<lr::lr0_item>>"
alias "container<lr::lr0_item>" "util::container<lr::lr0_item, util::simple_constructor<lr::lr0_item>>"
alias "lr_state<lr::lr0_item>" "lr::lr_state<lr::lr0_item, std::less<lr::lr0_item>, lr::state_no_merge<lr::lr0_item>>"
alias "lr::lr_state<lr::lr0_item>" "lr::lr_state<lr::lr0_item, std::less<lr::lr0_item>, lr::state_no_merge<lr::lr0_item>>"
abstract nomerge "lr::state_no_merge<lr::lr0_item>" ctor0=a_nomerge
abstract less0 "util::container<lr::lr0_item, util::simple_constructor<lr::lr0_item>>::compare_adapter<std::less<lr::lr0_item>>" ctor0=a_less0
abstract less0 "util::container<lr::lr0_item>::compare_adapter<std::less<lr::lr0_item>>" ctor0=a_less0
abstract item0 "lr::lr0_item"
handle item0 "util::container<lr::lr0_item, util::simple_constructor<lr::lr0_item>>" "lr::lr0_item"
omap IM "std::map<util::container<lr::lr0_item>, int, util::container<lr::lr0_item>::compare_adapter<std::less<lr::lr0_item>>>" key item0 elt int eltty "int" map yes keyty "util::container<lr::lr0_item, util::simple_constructor<lr::lr0_item>>" lt item0_lt default 0
vec item0 "std::vector<util::container<lr::lr0_item>>" "util::container<lr::lr0_item, util::simple_constructor<lr::lr0_item>>"
record st "lr::lr_state<lr::lr0_item, std::less<lr::lr0_item>, lr::state_no_merge<lr::lr0_item>>"
mlw
  (* an item has one number, and the numbers are 0 .. n-1 in the order of the list *)
  predicate numbered (s: st) =
    length s.st_ItemList <= 2147483647
    /\ (forall k. IM.mem s.st_ItemsToIdentifier k -> 0 <= IM.get s.st_ItemsToIdentifier k < length s.st_ItemList /\ s.st_ItemList[IM.get s.st_ItemsToIdentifier k] = k)
    /\ (forall i. 0 <= i < length s.st_ItemList -> IM.mem s.st_ItemsToIdentifier s.st_ItemList[i] /\ IM.get s.st_ItemsToIdentifier s.st_ItemList[i] = i)
  predicate entry (s: st) (x: item0) = exists i. 0 <= i < length s.st_ItemList /\ s.st_ItemList[i] = x
  lemma one_entry_per_item: forall s i j. numbered s -> 0 <= i < length s.st_ItemList -> 0 <= j < length s.st_ItemList -> s.st_ItemList[i] = s.st_ItemList[j] -> i = j
  lemma entries: forall s x [entry s x]. numbered s -> (entry s x <-> IM.mem s.st_ItemsToIdentifier x)
endmlw
xfn item0_less "util::container<lr::lr0_item, util::simple_constructor<lr::lr0_item>>::compare_adapter<std::less<lr::lr0_item>>::operator()"
fn no_merge
  cxx lr::state_no_merge<lr::lr0_item>::operator()
  ensures never_merges:: not result /\ mergeInto = old mergeInto
end
fn st_new
  cxx lr::lr_state<lr::lr0_item, std::less<lr::lr0_item>, lr::state_no_merge<lr::lr0_item>>::lr_state()
  ensures empty:: numbered result /\ length result.st_ItemList = 0 /\ result.st_Identifier = -1
end
fn st_copy
  cxx lr::lr_state<lr::lr0_item, std::less<lr::lr0_item>, lr::state_no_merge<lr::lr0_item>>::lr_state(const lr::lr_state<lr::lr0_item>&)
  requires numbered copyFrom
  ensures same_items_no_identifier:: numbered result /\ result.st_ItemList = copyFrom.st_ItemList /\ result.st_Identifier = -1
end
fn st_add
  cxx lr::lr_state<lr::lr0_item, std::less<lr::lr0_item>, lr::state_no_merge<lr::lr0_item>>::add
  requires numbered this /\ length this.st_ItemList < 2147483647
  ensures numbered:: numbered this
  ensures nothing_changes_if_known:: entry (old this) newItem -> this = old this
  ensures a_new_item_goes_last:: not entry (old this) newItem -> this.st_ItemList = snoc (old this).st_ItemList newItem
  ensures returns_the_number_of_the_item:: 0 <= result < length this.st_ItemList /\ this.st_ItemList[result] = newItem
  ensures this.st_Identifier = (old this).st_Identifier
end
fn st_find
  cxx lr::lr_state<lr::lr0_item, std::less<lr::lr0_item>, lr::state_no_merge<lr::lr0_item>>::find_identifier
  requires numbered this
  ensures number_of_the_item:: if entry this target then 0 <= result < length this.st_ItemList /\ this.st_ItemList[result] = target else result = -1
end
mlw
  (* states in order: by the number of items, then at the first item that differs *)
  predicate seq_lt (a b: seq item0) =
    length a < length b \/ (length a = length b /\ exists i. 0 <= i < length a /\ item0_lt a[i] b[i] /\ forall j. 0 <= j < i -> a[j] = b[j])
  lemma states_irrefl: forall a. not seq_lt a a
  lemma states_asym: forall a b. not (seq_lt a b /\ seq_lt b a)
  let lemma states_trans (a b c: seq item0)
    requires { seq_lt a b /\ seq_lt b c }
    ensures { seq_lt a c }
  = if length a = length b && length b = length c then begin
      let ghost i = any int ensures { 0 <= result < length a /\ item0_lt a[result] b[result] /\ forall j. 0 <= j < result -> a[j] = b[j] } in
      let ghost k = any int ensures { 0 <= result < length b /\ item0_lt b[result] c[result] /\ forall j. 0 <= j < result -> b[j] = c[j] } in
      if i <= k then assert { item0_lt a[i] c[i] } else assert { item0_lt a[k] c[k] }
    end
  let lemma states_total (a b: seq item0)
    ensures { seq_lt a b \/ a = b \/ seq_lt b a }
  = if length a = length b then begin
      let ref i = 0 in
      while i < length a && pure { a[i] = b[i] } do
        invariant { 0 <= i <= length a /\ forall j. 0 <= j < i -> a[j] = b[j] }
        variant { length a - i }
        i <- i + 1
      done;
      if i = length a then assert { a == b } else assert { item0_lt a[i] b[i] \/ item0_lt b[i] a[i] }
    end
endmlw
fn st_eq
  cxx lr::lr_state<lr::lr0_item, std::less<lr::lr0_item>, lr::state_no_merge<lr::lr0_item>>::operator==
  ensures equal_items_in_the_same_order:: result <-> this.st_ItemList = compareTo.st_ItemList
  loop 0
    invariant 0 <= ours <= length this.st_ItemList /\ ours = theirs /\ length this.st_ItemList = length compareTo.st_ItemList
    invariant forall j. 0 <= j < ours -> this.st_ItemList[j] = compareTo.st_ItemList[j]
    variant length this.st_ItemList - ours
    after assert { this.st_ItemList == compareTo.st_ItemList }
end
fn st_lt
  cxx lr::lr_state<lr::lr0_item, std::less<lr::lr0_item>, lr::state_no_merge<lr::lr0_item>>::operator<
  ensures order_of_states:: result <-> seq_lt this.st_ItemList compareTo.st_ItemList
  loop 0
    invariant 0 <= ours <= length this.st_ItemList /\ ours = theirs /\ length this.st_ItemList = length compareTo.st_ItemList
    invariant forall j. 0 <= j < ours -> this.st_ItemList[j] = compareTo.st_ItemList[j]
    variant length this.st_ItemList - ours
end
fn st_ne
  cxx lr::lr_state<lr::lr0_item, std::less<lr::lr0_item>, lr::state_no_merge<lr::lr0_item>>::operator!=
  ensures result <-> this.st_ItemList <> compareTo.st_ItemList
end
fn st_gt
  cxx lr::lr_state<lr::lr0_item, std::less<lr::lr0_item>, lr::state_no_merge<lr::lr0_item>>::operator>
  ensures order_of_states:: result <-> seq_lt compareTo.st_ItemList this.st_ItemList
end
fn st_le
  cxx lr::lr_state<lr::lr0_item, std::less<lr::lr0_item>, lr::state_no_merge<lr::lr0_item>>::operator<=
  ensures order_of_states:: result <-> not seq_lt compareTo.st_ItemList this.st_ItemList
end
fn st_ge
  cxx lr::lr_state<lr::lr0_item, std::less<lr::lr0_item>, lr::state_no_merge<lr::lr0_item>>::operator>=
  ensures order_of_states:: result <-> not seq_lt this.st_ItemList compareTo.st_ItemList
end
fn st_count
  cxx lr::lr_state<lr::lr0_item, std::less<lr::lr0_item>, lr::state_no_merge<lr::lr0_item>>::count_items
  requires length this.st_ItemList <= 2147483647
  ensures number_of_items:: result = length this.st_ItemList
end
fn st_at
  cxx lr::lr_state<lr::lr0_item, std::less<lr::lr0_item>, lr::state_no_merge<lr::lr0_item>>::operator[]
  requires length this.st_ItemList <= 2147483647
  requires 0 <= identifier < length this.st_ItemList
  ensures item_with_the_number:: result = this.st_ItemList[identifier]
end
fn st_ident
  cxx lr::lr_state<lr::lr0_item, std::less<lr::lr0_item>, lr::state_no_merge<lr::lr0_item>>::identifier
  requires length this.st_ItemList <= 2147483647
  ensures result = this.st_Identifier
end
fn st_setident
  cxx lr::lr_state<lr::lr0_item, std::less<lr::lr0_item>, lr::state_no_merge<lr::lr0_item>>::set_identifier
  ensures this = { (old this) with st_Identifier = newId }
end
mlw
  (* lookahead sets by their members (C11) *)
  type grammar
  type item
  type iset
  function elems (s: iset) : seq item
  predicate has (s: iset) (x: item) = exists i. 0 <= i < length (elems s) /\ (elems s)[i] = x
  predicate item_lt (a b: item)
  axiom item_irrefl: forall a. not item_lt a a
  axiom item_trans: forall a b c. item_lt a b -> item_lt b c -> item_lt a c
  axiom item_total: forall a b. item_lt a b \/ a = b \/ item_lt b a
  val constant eps_item : item
  val function itype (i: item) : int ensures { 0 <= result <= 1000 }
  val constant no_look : iset
  axiom no_look_is_empty: forall x. not has no_look x
  let new_look (_: ptr grammar) : iset ensures { result = no_look } = no_look
  val is_insert (s: iset) (i: item) : (r: bool, n: iset)
    ensures { r <-> not has s i } ensures { forall x. has n x <-> has s x \/ x = i }
  type isit = { is_s: iset; is_i: int }
  val is_begin (s: iset) : isit ensures { result.is_s = s /\ result.is_i = 0 }
  val is_end (s: iset) : isit ensures { result.is_s = s /\ result.is_i = length (elems s) }
  let is_ne (a b: isit) : bool ensures { result <-> a.is_i <> b.is_i } = a.is_i <> b.is_i
  val is_next (a: isit) : isit requires { 0 <= a.is_i < length (elems a.is_s) } ensures { result.is_s = a.is_s /\ result.is_i = a.is_i + 1 }
  val is_get (a: isit) : item requires { 0 <= a.is_i < length (elems a.is_s) } ensures { result = (elems a.is_s)[a.is_i] }
endmlw
abstract grammar "contextfree::grammar"
ptr grammar "contextfree::grammar"
alias "contextfree::item_container" "util::container<contextfree::item, contextfree::empty_item_constructor>"
abstract item "contextfree::item"
abstract item "contextfree::empty_item" ctor0=eps_item
handle item "util::container<contextfree::item, contextfree::empty_item_constructor>" "contextfree::item" ctor0=eps_item
abstract iset "contextfree::item_set" ctor1=new_look
abstract isit "contextfree::item_set::const_iterator"
xfn itype "contextfree::item::type"
xfn is_insert "contextfree::item_set::insert" upd=this ret=yes ty=bool
xfn is_begin "contextfree::item_set::begin"
xfn is_end "contextfree::item_set::end"
xfn is_ne "contextfree::item_set::const_iterator::operator!="
xfn is_next "contextfree::item_set::const_iterator::operator++" upd=this
xfn is_get "contextfree::item_set::const_iterator::operator*"
enum int "contextfree::item::kind"
ptr iset "contextfree::item_set" own=yes
vec {ptr iset} "std::vector<contextfree::item_set *>" "contextfree::item_set *"
record ls "lr::lalr_state"
mlw
  predicate lnumbered (s: ls) = numbered s.ls_State /\ length s.ls_Lookahead = length s.ls_State.st_ItemList /\ forall i. 0 <= i < length s.ls_Lookahead -> s.ls_Lookahead[i] <> Null
endmlw
fn ls_new
  cxx lr::lalr_state::lalr_state()
  ensures empty:: lnumbered result /\ length result.ls_State.st_ItemList = 0 /\ result.ls_State.st_Identifier = -1
end
fn ls_copy
  cxx lr::lalr_state::lalr_state(const lr::lalr_state&)
  requires lnumbered copyFrom
  ensures copy_of_items_and_lookahead:: lnumbered result /\ result.ls_State.st_ItemList = copyFrom.ls_State.st_ItemList /\ result.ls_Lookahead = copyFrom.ls_Lookahead
  loop 0
    invariant 0 <= la <= length copyFrom.ls_Lookahead /\ length this.ls_Lookahead = la
    invariant forall i. 0 <= i < la -> this.ls_Lookahead[i] = copyFrom.ls_Lookahead[i]
    invariant this.ls_State.st_ItemList = copyFrom.ls_State.st_ItemList /\ numbered this.ls_State /\ this.ls_State.st_Identifier = -1
    variant length copyFrom.ls_Lookahead - la
    after assert { this.ls_Lookahead == copyFrom.ls_Lookahead }
  ensures no_identifier:: result.ls_State.st_Identifier = -1
end
fn ls_lt
  cxx lr::lalr_state::operator<
  ensures order_of_states:: result <-> seq_lt this.ls_State.st_ItemList compareTo.ls_State.st_ItemList
end
fn ls_eq
  cxx lr::lalr_state::operator==
  ensures equal_items_in_the_same_order:: result <-> this.ls_State.st_ItemList = compareTo.ls_State.st_ItemList
end
fn ls_add
  cxx lr::lalr_state::add
  requires lnumbered this /\ length this.ls_State.st_ItemList < 2147483647
  ensures numbered:: lnumbered this
  ensures nothing_changes_if_known:: entry (old this).ls_State newItem -> this = old this
  ensures a_new_item_goes_last_without_lookahead:: not entry (old this).ls_State newItem -> this.ls_State.st_ItemList = snoc (old this).ls_State.st_ItemList newItem /\ this.ls_Lookahead = snoc (old this).ls_Lookahead (Ptr no_look)
  loop 0
    before let ghost st1 = this.ls_State in assert { numbered st1 }
    invariant this.ls_State = st1
    invariant length (old this).ls_Lookahead <= length this.ls_Lookahead <= length this.ls_State.st_ItemList
    invariant this.ls_Lookahead = (old this).ls_Lookahead \/ (length this.ls_Lookahead = length this.ls_State.st_ItemList /\ this.ls_Lookahead = snoc (old this).ls_Lookahead (Ptr no_look))
    variant length this.ls_State.st_ItemList - length this.ls_Lookahead
  ensures returns_the_number_of_the_item:: 0 <= result < length this.ls_State.st_ItemList /\ this.ls_State.st_ItemList[result] = newItem
end
fn ls_find
  cxx lr::lalr_state::find_identifier
  requires lnumbered this
  ensures number_of_the_item:: if entry this.ls_State item then 0 <= result < length this.ls_State.st_ItemList /\ this.ls_State.st_ItemList[result] = item else result = -1
end
fn ls_look
  cxx lr::lalr_state::lookahead_for(int) const
  requires lnumbered this /\ 0 <= identifier < length this.ls_Lookahead
  ensures lookahead_of_the_item:: this.ls_Lookahead[identifier] = Ptr result
end
fn ls_look_ref
  cxx lr::lalr_state::lookahead_for(int)
  inline
end
fn ls_ident
  cxx lr::lalr_state::identifier
  requires lnumbered this
  ensures result = this.ls_State.st_Identifier
end
fn ls_setident
  cxx lr::lalr_state::set_identifier
  ensures this.ls_State = { (old this).ls_State with st_Identifier = newId } /\ this.ls_Lookahead = (old this).ls_Lookahead
end
mlw
  (* a state in the machine is found by its items: its order is that of its items *)
  function lkey (s: ls) : seq item0 = s.ls_State.st_ItemList
  let mkey (s: ls) : seq item0 ensures { result = lkey s } = s.ls_State.st_ItemList
endmlw
alias "util::container<lr::lalr_state>" "util::container<lr::lalr_state, util::simple_constructor<lr::lalr_state>>"
handle ls "util::container<lr::lalr_state, util::simple_constructor<lr::lalr_state>>" "lr::lalr_state" mut=yes
omap MM "std::map<util::container<lr::lalr_state>, int>" key {seq item0} elt int eltty "int" map yes keyty "util::container<lr::lalr_state, util::simple_constructor<lr::lalr_state>>" keyfn mkey lt seq_lt default 0
omap TS "std::map<util::container<contextfree::item, contextfree::empty_item_constructor>, int>" key item elt int eltty "int" map yes keyty "util::container<contextfree::item, contextfree::empty_item_constructor>" lt item_lt default 0
vec ls "std::vector<util::container<lr::lalr_state>>" "util::container<lr::lalr_state, util::simple_constructor<lr::lalr_state>>"
vec TS.t "std::vector<std::map<util::container<contextfree::item, contextfree::empty_item_constructor>, int>>" "std::map<util::container<contextfree::item, contextfree::empty_item_constructor>, int>"
record lm "lr::lalr_machine"
mlw
  (* the machine: equal states are stored once; numbers are 0 .. n-1 *)
  predicate machine (m: lm) =
    length m.lm_Transitions = length m.lm_States /\ length m.lm_States <= 2147483647
    /\ (forall k. MM.mem m.lm_StateIds k -> 0 <= MM.get m.lm_StateIds k < length m.lm_States /\ lkey m.lm_States[MM.get m.lm_StateIds k] = k)
    /\ (forall i. 0 <= i < length m.lm_States -> MM.mem m.lm_StateIds (lkey m.lm_States[i]) /\ MM.get m.lm_StateIds (lkey m.lm_States[i]) = i)
    /\ (forall i. 0 <= i < length m.lm_States -> lnumbered m.lm_States[i] /\ m.lm_States[i].ls_State.st_Identifier = i)
  predicate known (m: lm) (k: seq item0) = exists i. 0 <= i < length m.lm_States /\ lkey m.lm_States[i] = k
  lemma equal_states_are_stored_once: forall m i j. machine m -> 0 <= i < length m.lm_States -> 0 <= j < length m.lm_States -> lkey m.lm_States[i] = lkey m.lm_States[j] -> i = j
  lemma known_states: forall m k [known m k]. machine m -> (known m k <-> MM.mem m.lm_StateIds k)
endmlw
fn m_add_state
  cxx lr::lalr_machine::add_state
  requires machine this /\ length this.lm_States < 2147483647 /\ lnumbered newState
  requires an_identifier_comes_from_this_machine:: newState.ls_State.st_Identifier >= 0 -> newState.ls_State.st_Identifier < length this.lm_States /\ lkey this.lm_States[newState.ls_State.st_Identifier] = lkey newState
  ensures machine:: machine this
  ensures nothing_is_added_if_known:: known (old this) (lkey newState) -> this = old this
  ensures a_new_state_goes_last:: not known (old this) (lkey newState) -> this.lm_States = snoc (old this).lm_States newState /\ this.lm_Transitions = snoc (old this).lm_Transitions TS.empty
  ensures the_number_of_the_state:: 0 <= result < length this.lm_States /\ lkey this.lm_States[result] = lkey newState /\ newState.ls_State.st_Identifier = result
  ensures the_state_keeps_its_content:: lkey newState = lkey (old newState) /\ newState.ls_Lookahead = (old newState).ls_Lookahead
end
fn m_add_transition
  cxx lr::lalr_machine::add_transition
  requires machine this /\ 0 <= stateId < length this.lm_States
  ensures machine:: machine this
  ensures states_and_other_transitions_unchanged:: this.lm_States = (old this).lm_States /\ length this.lm_Transitions = length (old this).lm_Transitions /\ forall i. 0 <= i < length this.lm_States -> i <> stateId -> this.lm_Transitions[i] = (old this).lm_Transitions[i]
  ensures nothing_for_states_that_are_not_there:: not 0 <= newStateId < length this.lm_States -> this = old this
  ensures the_first_transition_of_an_item_stays:: 0 <= newStateId < length this.lm_States -> let a = (old this).lm_Transitions[stateId] in let b = this.lm_Transitions[stateId] in
    (forall x. TS.mem b x <-> TS.mem a x \/ x = item) /\ TS.get b item = (if TS.mem a item then TS.get a item else newStateId) /\ forall x. TS.mem a x -> TS.get b x = TS.get a x
end
mlw
  (* the lookahead of item j of state i *)
  predicate looks (m: lm) (i j: int) (x: item) = match m.lm_States[i].ls_Lookahead[j] with Ptr s -> has s x | Null -> false end
  predicate fresh_in (m: lm) (i j: int) (s: iset) (n: int) = exists k. 0 <= k < n /\ itype (elems s)[k] <> 0 /\ not looks m i j (elems s)[k]
  (* only the lookahead of item j of state i changes *)
  predicate only_there (a b: lm) (i j: int) =
    length b.lm_States = length a.lm_States /\ b.lm_StateIds = a.lm_StateIds /\ b.lm_Transitions = a.lm_Transitions
    /\ (forall k. 0 <= k < length a.lm_States -> b.lm_States[k].ls_State = a.lm_States[k].ls_State /\ length b.lm_States[k].ls_Lookahead = length a.lm_States[k].ls_Lookahead)
    /\ (forall k l. 0 <= k < length a.lm_States -> 0 <= l < length a.lm_States[k].ls_Lookahead -> (k <> i \/ l <> j) -> b.lm_States[k].ls_Lookahead[l] = a.lm_States[k].ls_Lookahead[l])
    /\ b.lm_States[i].ls_Lookahead[j] <> Null
  predicate here (m: lm) (i j: int) = 0 <= i < length m.lm_States /\ 0 <= j < length m.lm_States[i].ls_Lookahead
  lemma still_a_machine: forall a b i j. machine a -> here a i j -> only_there a b i j -> machine b
endmlw
fn m_add_look
  cxx lr::lalr_machine::add_lookahead(int, int, const contextfree::item_set&)
  requires machine this /\ (itemId >= 0 -> here this stateId itemId)
  ensures machine:: machine this
  ensures no_item_no_change:: itemId < 0 -> not result /\ this = old this
  ensures only_this_lookahead_changes:: itemId >= 0 -> only_there (old this) this stateId itemId
  ensures grows_by_exactly_the_new_lookahead:: itemId >= 0 -> forall x. looks this stateId itemId x <-> looks (old this) stateId itemId x \/ (has newLookahead x /\ itype x <> 0)
  ensures reports_growth_exactly:: itemId >= 0 -> (result <-> exists x. looks this stateId itemId x /\ not looks (old this) stateId itemId x)
  loop 0
    invariant lookaheadItem.is_s = newLookahead /\ 0 <= lookaheadItem.is_i <= length (elems newLookahead)
    invariant only_there (old this) this stateId itemId
    invariant forall x. looks this stateId itemId x <-> looks (old this) stateId itemId x \/ (itype x <> 0 /\ exists k. 0 <= k < lookaheadItem.is_i /\ (elems newLookahead)[k] = x)
    invariant v_result <-> exists x. looks this stateId itemId x /\ not looks (old this) stateId itemId x
    variant length (elems newLookahead) - lookaheadItem.is_i
end
fn m_add_look_item
  cxx lr::lalr_machine::add_lookahead(int, const lr::lr0_item&, const contextfree::item_set&)
  requires machine this /\ 0 <= stateId < length this.lm_States
  ensures machine:: machine this
  ensures unknown_item_no_change:: not entry (old this).lm_States[stateId].ls_State item -> not result /\ this = old this
  ensures the_lookahead_of_the_item_grows:: entry (old this).lm_States[stateId].ls_State item -> exists j. here (old this) stateId j /\ (old this).lm_States[stateId].ls_State.st_ItemList[j] = item /\ only_there (old this) this stateId j
    /\ (forall x. looks this stateId j x <-> looks (old this) stateId j x \/ (has newLookahead x /\ itype x <> 0))
    /\ (result <-> exists x. looks this stateId j x /\ not looks (old this) stateId j x)
end
fn m_count
  cxx lr::lalr_machine::count_states
  requires machine this
  ensures number_of_states:: result = length this.lm_States
end
