tu
#include "/repo/TameParse/Lr/lr1_item_set.h"
endtu
mlw
  (* lookahead sets (C11) by their members; dotted rules ordered as C09 says *)
  type gramref
  type rule
  type item0 = { rule0: rule; off0: int }
  predicate item0_lt (a b: item0)
  axiom item0_irrefl: forall a. not item0_lt a a
  axiom item0_trans: forall a b c. item0_lt a b -> item0_lt b c -> item0_lt a c
  axiom item0_total: forall a b. item0_lt a b \/ a = b \/ item0_lt b a
  val item0_eq (a b: item0) : bool ensures { result <-> a = b }
  type iset
  use set.Fset as FS
  function has (s: iset) : FS.fset int
  val is_size (s: iset) : int ensures { result = FS.cardinal (has s) /\ 0 <= result <= 18446744073709551615 }
  val is_eq (a b: iset) : bool ensures { result <-> has a = has b }
  val is_merge (a b: iset) : (r: bool, n: iset) ensures { has n = FS.union (has a) (has b) } ensures { r <-> has n <> has a }
  val is_copy (a: iset) : iset ensures { result = a }
  type item1 = { core: item0; look: iset }
  val core1 (i: item1) : item0 ensures { result = i.core }
  val look1 (i: item1) : iset ensures { result = i.look }
  val rule1 (i: item1) : rule ensures { result = i.core.rule0 }
  val off1 (i: item1) : int ensures { result = i.core.off0 }
  val gram1 (i: item1) : gramref
  val make1 (g: ptr gramref) (r: rule) (o: int) (l: iset) : item1 ensures { result = { core = { rule0 = r; off0 = o }; look = l } }
  function lookof (i: item1) (x: int) : bool = FS.mem x (has i.look)
endmlw
alias "lr::lr1_item::lookahead_set" "contextfree::item_set"
alias "util::container<lr::lr1_item>" "util::container<lr::lr1_item, util::simple_constructor<lr::lr1_item>>"
abstract gramref "contextfree::grammar"
ptr gramref "contextfree::grammar"
abstract rule "contextfree::rule"
handle rule "util::container<contextfree::rule, util::simple_constructor<contextfree::rule>>" "contextfree::rule"
abstract item0 "lr::lr0_item"
abstract item1 "lr::lr1_item" ctor4=make1
abstract iset "contextfree::item_set" ctor1=is_copy
handle item1 "util::container<lr::lr1_item, util::simple_constructor<lr::lr1_item>>" "lr::lr1_item"
xfn core1 "lr::lr1_item::get_lr0_item"
xfn look1 "lr::lr1_item::lookahead"
xfn rule1 "lr::lr1_item::rule"
xfn off1 "lr::lr1_item::offset"
xfn gram1 "lr::lr1_item::gram"
xfn is_size "contextfree::item_set::size"
xfn is_eq "contextfree::item_set::operator=="
xfn is_merge "contextfree::item_set::merge" upd=this ret=yes ty=bool
xfn item0_eq "lr::lr0_item::operator=="
omap CS "std::set<util::container<lr::lr1_item>, lr::lr1_item_set::kernel_only_comparison>" key item0 elt item1 eltty "util::container<lr::lr1_item, util::simple_constructor<lr::lr1_item>>" keyof core lt item0_lt
record cs "lr::lr1_item_set"
mlw
  (* what the set holds for a dotted rule *)
  predicate holds (m: cs) (k: item0) (x: int) = CS.mem m.cs_Data k /\ FS.mem x (has (CS.get m.cs_Data k).look)
  predicate closed (m: cs) = forall k. CS.mem m.cs_Data k -> (CS.get m.cs_Data k).core = k
  lemma same_union: forall a b: FS.fset int. FS.cardinal (FS.union a b) = FS.cardinal a -> FS.union a b = a
    by FS.subset a (FS.union a b)
  lemma union_within: forall a b: FS.fset int. (forall x. FS.mem x b -> FS.mem x a) -> FS.union a b = a
    by FS.(==) (FS.union a b) a
  lemma union_grows: forall a b: FS.fset int. FS.union a b <> a -> exists x. FS.mem x b /\ not FS.mem x a
endmlw
fn cs_insert
  cxx lr::lr1_item_set::insert
  result type (iter item0, bool)
  requires closed this
  ensures one_entry_per_dotted_rule:: closed this
  ensures the_entries:: forall k. CS.mem this.cs_Data k <-> CS.mem (old this).cs_Data k \/ k = newItem.core
  ensures lookahead_is_merged_and_never_lost:: forall k x. holds this k x <-> holds (old this) k x \/ (k = newItem.core /\ FS.mem x (has newItem.look))
  ensures the_position_of_the_entry:: match result with (At k, _) -> k = newItem.core | _ -> false end
  ensures reports_a_change_exactly:: match result with (_, r) -> r <-> not CS.mem (old this).cs_Data newItem.core \/ exists x. FS.mem x (has newItem.look) /\ not holds (old this) newItem.core x end
end
