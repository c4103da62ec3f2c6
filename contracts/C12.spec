tu
#include "/repo/TameParse/ContextFree/grammar.cpp"
#include "/repo/TameParse/ContextFree/ebnf_items.cpp"
#define an_empty_item_c an_empty_item_c2
#define an_empty_item an_empty_item2
#include "/repo/TameParse/ContextFree/standard_items.cpp"
#include "/repo/TameParse/ContextFree/guard.cpp"
endtu
mlw
  (* items and rules as values (C09), rules by their items; item sets by their members (C11) *)
  type item
  predicate item_lt (a b: item)
  axiom item_irrefl: forall a. not item_lt a a
  axiom item_trans: forall a b c. item_lt a b -> item_lt b c -> item_lt a c
  axiom item_total: forall a b. item_lt a b \/ a = b \/ item_lt b a
  val constant eps_item : item
  val item_same (a b: item) : bool ensures { result <-> a = b }
  type rule
  val function r_items (r: rule) : seq item
  val function i_kind (i: item) : int ensures { 0 <= result <= 65536 }
  val function i_sym (i: item) : int
  axiom eps_kind: forall i. i_kind i = 0 <-> i = eps_item
  (* the rules held by an optional, repeating or alternating item *)
  function e_rules (i: item) : seq rule
  let constant no_rules : seq rule = empty
  type iset
  predicate has (s: iset) (x: item)
  val constant no_items : iset
  axiom no_items_is_empty: forall x. not has no_items x
  let new_items (_: 'a) : iset ensures { result = no_items } = no_items
  val s_contains (s: iset) (x: item) : bool ensures { result <-> has s x }
  val s_insert (s: iset) (i: item) : (r: bool, n: iset) ensures { r <-> not has s i } ensures { forall x. has n x <-> has s x \/ x = i }
  val s_erase (s: iset) (i: item) : (r: bool, n: iset) ensures { r <-> has s i } ensures { forall x. has n x <-> has s x /\ x <> i }
  val s_merge (s o: iset) : (r: bool, n: iset)
    ensures { forall x. has n x <-> has s x \/ has o x } ensures { r <-> exists x. has o x /\ not has s x }
  lemma ptr_used: forall p: ptr iset. p = Null \/ p <> Null
  lemma seq_used: forall s: seq rule. length s >= 0
endmlw
enum int "contextfree::item::kind"
alias "contextfree::item_container" "util::container<contextfree::item, contextfree::empty_item_constructor>"
alias "contextfree::rule_container" "util::container<contextfree::rule, util::simple_constructor<contextfree::rule>>"
alias "util::container<contextfree::rule>" "util::container<contextfree::rule, util::simple_constructor<contextfree::rule>>"
abstract item "contextfree::item"
abstract item "contextfree::empty_item" ctor0=eps_item
abstract item "contextfree::terminal"
abstract item "contextfree::nonterminal"
abstract item "contextfree::end_of_input"
abstract item "contextfree::end_of_guard"
abstract item "contextfree::guard"
abstract rule "contextfree::rule"
abstract iset "contextfree::item_set" ctor1=new_items
handle item "util::container<contextfree::item, contextfree::empty_item_constructor>" "contextfree::item" ctor0=eps_item
handle rule "util::container<contextfree::rule, util::simple_constructor<contextfree::rule>>" "contextfree::rule"
ptr iset "contextfree::item_set" own=yes
ptr item "contextfree::item"
vec item "std::vector<util::container<contextfree::item, contextfree::empty_item_constructor>>" "util::container<contextfree::item, contextfree::empty_item_constructor>"
vec rule "std::vector<util::container<contextfree::rule>>" "util::container<contextfree::rule, util::simple_constructor<contextfree::rule>>"
omap NR "std::map<int, std::vector<util::container<contextfree::rule>>>" key int elt {seq rule} eltty "std::vector<util::container<contextfree::rule>>" map yes default no_rules
omap FS "std::map<util::container<contextfree::item, contextfree::empty_item_constructor>, contextfree::item_set>" key item elt iset eltty "contextfree::item_set" map yes keyty "util::container<contextfree::item, contextfree::empty_item_constructor>" lt item_lt default no_items
global eps_item "an_empty_item" "contextfree::empty_item"
global eps_item "the_empty_item" "contextfree::empty_item"
global eps_item "an_empty_item_c" "util::container<contextfree::item, contextfree::empty_item_constructor>"
global eps_item "an_empty_item2" "contextfree::empty_item"
global no_rules "empty_rule_set" "std::vector<util::container<contextfree::rule>>"
record gram "contextfree::grammar" mutable yes drop m_CachedItemSets
ptr {seq rule} "std::vector<util::container<contextfree::rule>>"
record eb "contextfree::ebnf" 
record alt "contextfree::ebnf_alternate" base "contextfree::ebnf"
record opt "contextfree::ebnf_optional" base "contextfree::ebnf"
record rep "contextfree::ebnf_repeating" base "contextfree::ebnf"
record rop "contextfree::ebnf_repeating_optional" base "contextfree::ebnf"
mlw
  (* the grammar: what an item stands for *)
  predicate own (i t: item) =
    if 0 <= i_kind i <= 5 then t = i else if i_kind i = 256 \/ i_kind i = 259 then t = eps_item else false
  function subrules (n: NR.t) (i: item) : seq rule =
    if i_kind i = 4 then (if NR.mem n (i_sym i) then NR.get n (i_sym i) else empty) else if 256 <= i_kind i <= 259 then e_rules i else empty
  (* FIRST is the least relation closed under the rules *)
  predicate rstep_c (c: item -> item -> bool) (its: seq item) (t: item) =
    (t <> eps_item /\ exists m. 0 <= m < length its /\ (forall j. 0 <= j < m -> c its[j] eps_item) /\ c its[m] t)
    \/ (t = eps_item /\ forall j. 0 <= j < length its -> c its[j] eps_item)
  predicate istep_c (n: NR.t) (c: item -> item -> bool) (i t: item) =
    own i t \/ exists k. 0 <= k < length (subrules n i) /\ rstep_c c (r_items (subrules n i)[k]) t
  predicate closed_c (n: NR.t) (c: item -> item -> bool) = forall i t. istep_c n c i t -> c i t
  predicate fst (n: NR.t) (i t: item) = forall c. closed_c n c -> c i t
  (* the same with the sets of the cache *)
  predicate hc (f: FS.t) (x t: item) = FS.mem f x /\ has (FS.get f x) t
  predicate nul (f: FS.t) (its: seq item) (m: int) = forall j. 0 <= j < m -> hc f its[j] eps_item
  lemma nul_succ: forall f its m. 0 <= m -> (nul f its (m + 1) <-> nul f its m /\ hc f its[m] eps_item)
  predicate rstep (f: FS.t) (its: seq item) (t: item) =
    (t <> eps_item /\ exists m. 0 <= m < length its /\ nul f its m /\ hc f its[m] t)
    \/ (t = eps_item /\ nul f its (length its))
  let lemma rstep_cut (f: FS.t) (its: seq item) (n: int) (t: item)
    requires { 0 <= n < length its /\ nul f its n /\ not hc f its[n] eps_item }
    ensures { rstep f its t <-> t <> eps_item /\ exists m. 0 <= m <= n /\ hc f its[m] t }
  = assert { forall m. m > n -> not nul f its m };
    assert { forall m. 0 <= m <= n -> nul f its m }
  predicate istep (n: NR.t) (f: FS.t) (i t: item) = own i t \/ exists k. 0 <= k < length (subrules n i) /\ rstep f (r_items (subrules n i)[k]) t
  let lemma fst_step (n: NR.t) (f: FS.t) (i t: item)
    requires { forall x y. hc f x y -> fst n x y }
    requires { istep n f i t }
    ensures { fst n i t }
  = assert { forall c. closed_c n c -> istep_c n c i t }
  predicate on (s: seq item) (x: item) = exists i. 0 <= i < length s /\ s[i] = x
  lemma on_snoc: forall s: seq item, x y [on (snoc s x) y]. on (snoc s x) y <-> (on s y \/ y = x)
  lemma on_at: forall s: seq item, i [s[i]]. 0 <= i < length s -> on s s[i]
  predicate cached (g: gram) (x: item) = FS.mem g.gram_CachedFirstSets x
  predicate fin (g: gram) (x: item) = cached g x /\ not on g.gram_PendingFirstSets x
  predicate rvis (f: FS.t) (its: seq item) = forall m. 0 <= m < length its -> nul f its m -> FS.mem f its[m]
  predicate rfin (g: gram) (its: seq item) = forall m. 0 <= m < length its -> nul g.gram_CachedFirstSets its m -> fin g its[m]
  predicate ivis (g: gram) (i: item) = forall k. 0 <= k < length (subrules g.gram_Nonterminals i) -> rvis g.gram_CachedFirstSets (r_items (subrules g.gram_Nonterminals i)[k])
  predicate ifin (g: gram) (i: item) = forall k. 0 <= k < length (subrules g.gram_Nonterminals i) -> rfin g (r_items (subrules g.gram_Nonterminals i)[k])
  predicate complete_at (g: gram) (i: item) = forall t. istep g.gram_Nonterminals g.gram_CachedFirstSets i t -> hc g.gram_CachedFirstSets i t
  predicate pcl (g: gram) (x: item) = ivis g x /\ complete_at g x
  predicate sound (g: gram) = forall x t. hc g.gram_CachedFirstSets x t -> fst g.gram_Nonterminals x t
  predicate epsp (p: ptr iset) = match p with Null -> false | Ptr s -> forall x. has s x <-> x = eps_item end
  predicate epsok (g: gram) = epsp g.gram_EpsilonSet
  predicate inv (g: gram) = epsok g /\ sound g /\ (forall x. on g.gram_PendingFirstSets x -> cached g x)
    /\ (forall x. fin g x -> ifin g x /\ complete_at g x)
  (* sets that were there do not change *)
  predicate grows (g h: gram) = h.gram_Nonterminals = g.gram_Nonterminals /\ h.gram_EpsilonSet = g.gram_EpsilonSet /\ h.gram_CachedFollowSets = g.gram_CachedFollowSets
    /\ (forall x. cached g x -> cached h x) /\ (forall x t. cached g x -> (hc g.gram_CachedFirstSets x t <-> hc h.gram_CachedFirstSets x t))
    /\ (forall x. cached g x -> (on h.gram_PendingFirstSets x <-> on g.gram_PendingFirstSets x))
    /\ length g.gram_PendingFirstSets <= length h.gram_PendingFirstSets
    /\ (forall i. 0 <= i < length g.gram_PendingFirstSets -> h.gram_PendingFirstSets[i] = g.gram_PendingFirstSets[i])
    /\ (length g.gram_PendingFirstSets = 0 -> length h.gram_PendingFirstSets = 0)
  (* finished sets use finished sets only, and those stay *)
  predicate keepf (g h: gram) = h.gram_Nonterminals = g.gram_Nonterminals
    /\ (forall x t. fin g x -> (hc g.gram_CachedFirstSets x t <-> hc h.gram_CachedFirstSets x t)) /\ (forall x. fin g x -> fin h x)
  let lemma keep_rule (g h: gram) (its: seq item)
    requires { keepf g h /\ rfin g its }
    ensures { rfin h its /\ forall t. rstep h.gram_CachedFirstSets its t <-> rstep g.gram_CachedFirstSets its t }
  = let ref m = 0 in
    while m < length its do
      invariant { 0 <= m <= length its }
      invariant { forall k. 0 <= k <= m -> (nul h.gram_CachedFirstSets its k <-> nul g.gram_CachedFirstSets its k) }
      variant { length its - m }
      assert { nul g.gram_CachedFirstSets its m -> fin g its[m] };
      assert { nul h.gram_CachedFirstSets its (m + 1) <-> nul g.gram_CachedFirstSets its (m + 1) };
      m <- m + 1
    done;
    assert { forall t i. 0 <= i < length its -> nul g.gram_CachedFirstSets its i -> (hc h.gram_CachedFirstSets its[i] t <-> hc g.gram_CachedFirstSets its[i] t) }
  let lemma keep_item (g h: gram) (x: item)
    requires { keepf g h /\ ifin g x }
    ensures { ifin h x /\ forall t. istep h.gram_Nonterminals h.gram_CachedFirstSets x t <-> istep g.gram_Nonterminals g.gram_CachedFirstSets x t }
  = assert { forall k. 0 <= k < length (subrules g.gram_Nonterminals x) -> rfin g (r_items (subrules g.gram_Nonterminals x)[k]) };
    assert { forall k t. 0 <= k < length (subrules g.gram_Nonterminals x) -> (rstep h.gram_CachedFirstSets (r_items (subrules g.gram_Nonterminals x)[k]) t <-> rstep g.gram_CachedFirstSets (r_items (subrules g.gram_Nonterminals x)[k]) t) }
  lemma nul_keep: forall g h its m [grows g h, nul h.gram_CachedFirstSets its m]. grows g h -> nul g.gram_CachedFirstSets its m -> nul h.gram_CachedFirstSets its m
  lemma hc_keep: forall g h x t [grows g h, hc h.gram_CachedFirstSets x t]. grows g h -> cached g x -> (hc g.gram_CachedFirstSets x t <-> hc h.gram_CachedFirstSets x t)
  lemma inv_keep: forall g h [inv g, inv h]. inv g -> keepf g h -> epsok h -> sound h -> (forall x. on h.gram_PendingFirstSets x -> cached h x)
    -> (forall x. fin h x -> fin g x) -> inv h
  (* the same for sets that are only cached *)
  predicate keepc (g h: gram) = h.gram_Nonterminals = g.gram_Nonterminals
    /\ (forall x t. cached g x -> (hc g.gram_CachedFirstSets x t <-> hc h.gram_CachedFirstSets x t)) /\ (forall x. cached g x -> cached h x)
  let lemma keepc_rule (g h: gram) (its: seq item)
    requires { keepc g h /\ rvis g.gram_CachedFirstSets its }
    ensures { rvis h.gram_CachedFirstSets its /\ forall t. rstep h.gram_CachedFirstSets its t <-> rstep g.gram_CachedFirstSets its t }
  = let ref m = 0 in
    while m < length its do
      invariant { 0 <= m <= length its }
      invariant { forall k. 0 <= k <= m -> (nul h.gram_CachedFirstSets its k <-> nul g.gram_CachedFirstSets its k) }
      variant { length its - m }
      assert { nul g.gram_CachedFirstSets its m -> cached g its[m] };
      assert { nul h.gram_CachedFirstSets its (m + 1) <-> nul g.gram_CachedFirstSets its (m + 1) };
      m <- m + 1
    done;
    assert { forall t i. 0 <= i < length its -> nul g.gram_CachedFirstSets its i -> (hc h.gram_CachedFirstSets its[i] t <-> hc g.gram_CachedFirstSets its[i] t) }
  let lemma keepc_item (g h: gram) (x: item)
    requires { keepc g h /\ ivis g x }
    ensures { ivis h x /\ forall t. istep h.gram_Nonterminals h.gram_CachedFirstSets x t <-> istep g.gram_Nonterminals g.gram_CachedFirstSets x t }
  = assert { forall k. 0 <= k < length (subrules g.gram_Nonterminals x) -> rvis g.gram_CachedFirstSets (r_items (subrules g.gram_Nonterminals x)[k]) };
    assert { forall k t. 0 <= k < length (subrules g.gram_Nonterminals x) -> (rstep h.gram_CachedFirstSets (r_items (subrules g.gram_Nonterminals x)[k]) t <-> rstep g.gram_CachedFirstSets (r_items (subrules g.gram_Nonterminals x)[k]) t) }
  lemma rfin_clear: forall g h its. h.gram_CachedFirstSets = g.gram_CachedFirstSets -> length h.gram_PendingFirstSets = 0 -> (rfin g its \/ rvis g.gram_CachedFirstSets its) -> rfin h its
  lemma ifin_clear: forall g h x. h.gram_Nonterminals = g.gram_Nonterminals -> h.gram_CachedFirstSets = g.gram_CachedFirstSets -> length h.gram_PendingFirstSets = 0 -> (ifin g x \/ ivis g x) -> ifin h x
  let lemma all_done (g h: gram)
    requires { inv g /\ h.gram_Nonterminals = g.gram_Nonterminals /\ h.gram_EpsilonSet = g.gram_EpsilonSet /\ h.gram_CachedFirstSets = g.gram_CachedFirstSets }
    requires { length h.gram_PendingFirstSets = 0 /\ forall x. on g.gram_PendingFirstSets x -> pcl g x }
    ensures { inv h }
  = assert { forall x. cached h x -> ifin g x \/ ivis g x };
    assert { forall x. cached h x -> ifin h x };
    assert { forall x. cached h x -> complete_at g x };
    assert { forall x. complete_at g x -> complete_at h x };
    assert { sound h };
    assert { epsok h };
    assert { forall x. not on h.gram_PendingFirstSets x }
  let lemma inv_new (g h: gram) (x: item)
    requires { inv g /\ not cached g x /\ h.gram_Nonterminals = g.gram_Nonterminals /\ h.gram_EpsilonSet = g.gram_EpsilonSet }
    requires { h.gram_PendingFirstSets = snoc g.gram_PendingFirstSets x /\ forall y. cached h y <-> cached g y \/ y = x }
    requires { (forall y. cached g y -> FS.get h.gram_CachedFirstSets y = FS.get g.gram_CachedFirstSets y) /\ FS.get h.gram_CachedFirstSets x = no_items }
    ensures { inv h }
  = assert { forall y t. hc h.gram_CachedFirstSets y t <-> hc g.gram_CachedFirstSets y t };
    assert { sound h };
    assert { forall y. fin h y <-> fin g y };
    assert { keepf g h };
    assert { forall y. on h.gram_PendingFirstSets y -> cached h y };
    assert { forall y. ifin g y -> ifin h y };
    assert { forall y. fin h y -> complete_at h y };
    assert { epsok h }
  let lemma inv_merge (g h: gram) (x: item)
    requires { inv g /\ on g.gram_PendingFirstSets x /\ h.gram_Nonterminals = g.gram_Nonterminals /\ h.gram_EpsilonSet = g.gram_EpsilonSet }
    requires { h.gram_PendingFirstSets = g.gram_PendingFirstSets /\ forall y. cached h y <-> cached g y }
    requires { forall y t. y <> x -> (hc h.gram_CachedFirstSets y t <-> hc g.gram_CachedFirstSets y t) }
    requires { forall t. hc h.gram_CachedFirstSets x t -> hc g.gram_CachedFirstSets x t \/ istep g.gram_Nonterminals g.gram_CachedFirstSets x t }
    ensures { inv h /\ keepf g h }
  = assert { forall y t. hc g.gram_CachedFirstSets y t -> fst g.gram_Nonterminals y t };
    assert { forall t. istep g.gram_Nonterminals g.gram_CachedFirstSets x t -> fst g.gram_Nonterminals x t };
    assert { sound h };
    assert { forall y. fin h y <-> fin g y };
    assert { keepf g h };
    assert { forall y. on h.gram_PendingFirstSets y -> cached h y };
    assert { forall y. ifin g y -> ifin h y };
    assert { forall y. fin h y -> complete_at h y };
    assert { epsok h }
  lemma inv_merge_t: forall g h: gram, x [inv g, inv h, on g.gram_PendingFirstSets x]. (inv g /\ on g.gram_PendingFirstSets x /\ h.gram_Nonterminals = g.gram_Nonterminals /\ h.gram_EpsilonSet = g.gram_EpsilonSet) -> (h.gram_PendingFirstSets = g.gram_PendingFirstSets /\ forall y. cached h y <-> cached g y) -> (forall y t. y <> x -> (hc h.gram_CachedFirstSets y t <-> hc g.gram_CachedFirstSets y t)) -> (forall t. hc h.gram_CachedFirstSets x t -> hc g.gram_CachedFirstSets x t \/ istep g.gram_Nonterminals g.gram_CachedFirstSets x t) -> inv h
  lemma pcl_keep: forall g h x [pcl g x, pcl h x]. pcl g x -> cached g x -> keepc g h -> pcl h x
  (* when nothing is pending the cached sets are exactly the least solution *)
  function cfun (f: FS.t) : item -> item -> bool = fun a b -> if FS.mem f a then (if has (FS.get f a) b then True else False) else True
  let lemma exact_rule (f: FS.t) (its: seq item) (t: item)
    requires { rvis f its /\ rstep_c (cfun f) its t }
    ensures { rstep f its t }
  = let ref m = 0 in
    while m < length its do
      invariant { 0 <= m <= length its }
      invariant { forall k. 0 <= k <= m -> (forall j. 0 <= j < k -> cfun f its[j] eps_item) -> nul f its k }
      variant { length its - m }
      assert { nul f its m -> FS.mem f its[m] };
      assert { (forall j. 0 <= j < m + 1 -> cfun f its[j] eps_item) -> nul f its m };
      m <- m + 1
    done
  let lemma exact (g: gram) (x t: item)
    requires { inv g /\ length g.gram_PendingFirstSets = 0 /\ cached g x /\ fst g.gram_Nonterminals x t }
    ensures { hc g.gram_CachedFirstSets x t }
  = let ghost f = g.gram_CachedFirstSets in
    let ghost n = g.gram_Nonterminals in
    assert { forall i. cached g i -> ifin g i /\ complete_at g i };
    assert { forall i k. cached g i -> 0 <= k < length (subrules n i) -> rvis f (r_items (subrules n i)[k]) };
    assert { forall i t. istep_c n (cfun f) i t -> cached g i -> istep n f i t };
    assert { closed_c n (cfun f) };
    assert { cfun f x t }
  (* working on the pending sets of an outermost call *)
  predicate outer (g h: gram) (item: item) = h.gram_Nonterminals = g.gram_Nonterminals /\ h.gram_EpsilonSet = g.gram_EpsilonSet /\ h.gram_CachedFollowSets = g.gram_CachedFollowSets
    /\ length h.gram_PendingFirstSets > 0 /\ h.gram_PendingFirstSets[0] = item
    /\ (forall x. cached g x -> cached h x /\ not on h.gram_PendingFirstSets x)
    /\ (forall x t. cached g x -> (hc g.gram_CachedFirstSets x t <-> hc h.gram_CachedFirstSets x t))
  (* FIRST of an item in a grammar, as each kind of item computes it *)
  val item_first (i: item) (g: gram) : (r: iset, h: gram)
    requires { inv g } ensures { inv h /\ grows g h /\ ivis h i }
    ensures { forall t. has r t <-> istep h.gram_Nonterminals h.gram_CachedFirstSets i t }
    diverges
endmlw
xfn item_first "contextfree::item::first" upd=0 ret=yes ty=contextfree::item_set snap=after
xfn i_kind "contextfree::item::type"
xfn i_sym "contextfree::item::symbol"
xfn i_sym "contextfree::nonterminal::symbol"
xfn r_items "contextfree::rule::items"
xfn item_same "contextfree::item::operator=="
xfn item_same "util::container<contextfree::item, contextfree::empty_item_constructor>::operator=="
xfn s_contains "contextfree::item_set::contains"
xfn s_insert "contextfree::item_set::insert" upd=this ret=yes ty=bool
xfn s_erase "contextfree::item_set::erase" upd=this ret=yes ty=bool
xfn s_merge "contextfree::item_set::merge" upd=this ret=yes ty=bool
fn first
  cxx contextfree::grammar::first
  opt mutable
  opt snap
  entry let ghost ref after = this in
  requires inv this
  ensures inv this
  ensures sets computed before do not change:: grows (old this) this
  ensures the set is kept:: cached this item
  ensures the set of the item:: forall t. has result t <-> hc this.gram_CachedFirstSets item t
  ensures exactly the first symbols:: length (old this).gram_PendingFirstSets = 0 -> forall t. has result t <-> fst this.gram_Nonterminals item t
  loop 0
    before assert { length (old this).gram_PendingFirstSets = 0 }; assert { inv this }
    invariant inv this
    invariant outer (old this) this item
    invariant not changed -> forall i. 0 <= i < length this.gram_PendingFirstSets -> pcl this this.gram_PendingFirstSets[i]
    after assert { forall x. on this.gram_PendingFirstSets x -> pcl this x }
  loop 1
    begin let ghost g1 = this in assert { cached g1 g1.gram_PendingFirstSets[pos] }
    end assert { forall x. cached g1 x -> cached this x /\ (on this.gram_PendingFirstSets x <-> on g1.gram_PendingFirstSets x) }; assert { forall x t. x <> g1.gram_PendingFirstSets[pos] -> cached g1 x -> (hc g1.gram_CachedFirstSets x t <-> hc this.gram_CachedFirstSets x t) }; assert { on g1.gram_PendingFirstSets g1.gram_PendingFirstSets[pos] }; assert { keepf g1 this }; assert { forall t. hc this.gram_CachedFirstSets g1.gram_PendingFirstSets[pos] t -> hc after.gram_CachedFirstSets g1.gram_PendingFirstSets[pos] t \/ istep after.gram_Nonterminals after.gram_CachedFirstSets g1.gram_PendingFirstSets[pos] t }; assert { on after.gram_PendingFirstSets g1.gram_PendingFirstSets[pos] }; assert { inv this }; assert { not changed -> keepc after this }; assert { forall i. 0 <= i < length g1.gram_PendingFirstSets -> this.gram_PendingFirstSets[i] = g1.gram_PendingFirstSets[i] /\ cached g1 g1.gram_PendingFirstSets[i] }; assert { not changed -> keepc g1 this }; assert { not changed -> pcl this this.gram_PendingFirstSets[pos] }
    invariant inv this
    invariant outer (old this) this item
    invariant 0 <= pos <= length this.gram_PendingFirstSets
    invariant not changed -> forall i. 0 <= i < pos -> pcl this this.gram_PendingFirstSets[i]
end
fn first_rule
  cxx contextfree::grammar::first_for_rule
  opt mutable
  requires inv this
  ensures inv this
  ensures sets computed before do not change:: grows (old this) this
  ensures rvis this.gram_CachedFirstSets (r_items rule)
  ensures the first symbols of the rule:: forall t. has result t <-> rstep this.gram_CachedFirstSets (r_items rule) t
  loop 0
    after assert { nul this.gram_CachedFirstSets (r_items rule) (length (r_items rule)) }
    begin let ghost g1 = this in assert { inv g1 }
    end assert { keepc g1 this }
    invariant inv this
    invariant grows (old this) this
    invariant 0 <= itemId <= length (r_items rule)
    invariant nul this.gram_CachedFirstSets (r_items rule) itemId
    invariant forall j. 0 <= j < itemId -> cached this (r_items rule)[j] /\ hc this.gram_CachedFirstSets (r_items rule)[j] eps_item
    invariant forall t. has v_result t <-> (t = eps_item /\ itemId > 0) \/ (t <> eps_item /\ exists m. 0 <= m < itemId /\ hc this.gram_CachedFirstSets (r_items rule)[m] t)
end
fn first_terminal
  cxx contextfree::terminal::first
  requires inv gram /\ i_kind this = 3
  ensures inv gram /\ grows (old gram) gram /\ ivis gram this
  ensures the item itself:: forall t. has result t <-> istep gram.gram_Nonterminals gram.gram_CachedFirstSets this t
end
fn first_empty
  cxx contextfree::empty_item::first
  requires inv gram /\ i_kind this = 0
  ensures inv gram /\ grows (old gram) gram /\ ivis gram this
  ensures the item itself:: forall t. has result t <-> istep gram.gram_Nonterminals gram.gram_CachedFirstSets this t
end
fn first_eoi
  cxx contextfree::end_of_input::first
  requires inv gram /\ i_kind this = 1
  ensures inv gram /\ grows (old gram) gram /\ ivis gram this
  ensures the item itself:: forall t. has result t <-> istep gram.gram_Nonterminals gram.gram_CachedFirstSets this t
end
fn first_eog
  cxx contextfree::end_of_guard::first
  requires inv gram /\ i_kind this = 2
  ensures inv gram /\ grows (old gram) gram /\ ivis gram this
  ensures the item itself:: forall t. has result t <-> istep gram.gram_Nonterminals gram.gram_CachedFirstSets this t
end
fn first_guard
  cxx contextfree::guard::first
  requires inv gram /\ i_kind this = 5
  ensures inv gram /\ grows (old gram) gram /\ ivis gram this
  ensures the item itself:: forall t. has result t <-> istep gram.gram_Nonterminals gram.gram_CachedFirstSets this t
end
fn rules_of
  cxx contextfree::grammar::rules_for_nonterminal(int) const
  ensures the rules of the nonterminal:: result = (if NR.mem this.gram_Nonterminals id then NR.get this.gram_Nonterminals id else empty)
end
fn first_nonterminal
  cxx contextfree::nonterminal::first
  opt diverges
  requires inv gram /\ i_kind this = 4
  ensures inv gram /\ grows (old gram) gram /\ ivis gram this
  ensures the first symbols of the rules:: forall t. has result t <-> istep gram.gram_Nonterminals gram.gram_CachedFirstSets this t
  loop 0
    before let ghost rs = subrules gram.gram_Nonterminals this in assert { length rs >= 0 }
    begin let ghost g1 = gram in assert { inv g1 }
    end assert { keepc g1 gram }; assert { forall k. 0 <= k < nextRule -> rvis gram.gram_CachedFirstSets (r_items rs[k]) /\ forall t. rstep gram.gram_CachedFirstSets (r_items rs[k]) t <-> rstep g1.gram_CachedFirstSets (r_items rs[k]) t }
    invariant inv gram /\ grows (old gram) gram
    invariant 0 <= nextRule <= length rs
    invariant forall k. 0 <= k < nextRule -> rvis gram.gram_CachedFirstSets (r_items rs[k])
    invariant forall t. has v_result t <-> t = this \/ exists k. 0 <= k < nextRule /\ rstep gram.gram_CachedFirstSets (r_items rs[k]) t
    variant length rs - nextRule
end
fn first_optional
  cxx contextfree::ebnf_optional::first
  opt diverges
  requires inv gram
  requires match this.opt_base.eb_Rules with Ptr rs -> length rs = 1 | Null -> false end
  ensures inv gram /\ grows (old gram) gram
  ensures the first symbols of the rules it holds:: forall i. i_kind i = 256 -> this.opt_base.eb_Rules = Ptr (e_rules i) -> ivis gram i /\ forall t. has result t <-> istep gram.gram_Nonterminals gram.gram_CachedFirstSets i t
end
fn first_repeat
  cxx contextfree::ebnf_repeating::first
  opt diverges
  requires inv gram
  requires match this.rep_base.eb_Rules with Ptr rs -> length rs = 1 | Null -> false end
  ensures inv gram /\ grows (old gram) gram
  ensures the first symbols of the rules it holds:: forall i. i_kind i = 257 -> this.rep_base.eb_Rules = Ptr (e_rules i) -> ivis gram i /\ forall t. has result t <-> istep gram.gram_Nonterminals gram.gram_CachedFirstSets i t
end
fn first_repeat0
  cxx contextfree::ebnf_repeating_optional::first
  opt diverges
  requires inv gram
  requires match this.rop_base.eb_Rules with Ptr rs -> length rs = 1 | Null -> false end
  ensures inv gram /\ grows (old gram) gram
  ensures the first symbols of the rules it holds:: forall i. i_kind i = 259 -> this.rop_base.eb_Rules = Ptr (e_rules i) -> ivis gram i /\ forall t. has result t <-> istep gram.gram_Nonterminals gram.gram_CachedFirstSets i t
end
fn first_alternate
  cxx contextfree::ebnf_alternate::first
  opt diverges
  requires inv gram
  requires match this.alt_base.eb_Rules with Ptr rs -> true | Null -> false end
  ensures inv gram /\ grows (old gram) gram
  ensures the first symbols of the rules it holds:: forall i. i_kind i = 258 -> this.alt_base.eb_Rules = Ptr (e_rules i) -> ivis gram i /\ forall t. has result t <-> istep gram.gram_Nonterminals gram.gram_CachedFirstSets i t
  loop 0
    before let ghost rs = match this.alt_base.eb_Rules with Ptr x -> x | Null -> empty end in assert { this.alt_base.eb_Rules = Ptr rs }
    begin let ghost g1 = gram in assert { inv g1 }
    end assert { keepc g1 gram }; assert { forall k. 0 <= k < nextRule -> rvis gram.gram_CachedFirstSets (r_items rs[k]) /\ forall t. rstep gram.gram_CachedFirstSets (r_items rs[k]) t <-> rstep g1.gram_CachedFirstSets (r_items rs[k]) t }
    invariant inv gram /\ grows (old gram) gram
    invariant 0 <= nextRule <= length rs
    invariant forall k. 0 <= k < nextRule -> rvis gram.gram_CachedFirstSets (r_items rs[k])
    invariant forall t. has v_result t <-> exists k. 0 <= k < nextRule /\ rstep gram.gram_CachedFirstSets (r_items rs[k]) t
    variant length rs - nextRule
end
