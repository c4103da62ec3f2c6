tu
#include "/repo/TameParse/Lr/ignored_symbols.cpp"
#include "/repo/TameParse/Lr/weak_symbols.cpp"
#include "/repo/TameParse/Lr/lr_action.cpp"
endtu
mlw
  (* items and rules are their values (C09 gives the order) *)
  type item
  predicate item_lt (a b: item)
  axiom item_irrefl: forall a. not item_lt a a
  axiom item_trans: forall a b c. item_lt a b -> item_lt b c -> item_lt a c
  axiom item_total: forall a b. item_lt a b \/ a = b \/ item_lt b a
  type rule
  predicate rule_lt (a b: rule)
  axiom rule_irrefl: forall a. not rule_lt a a
  axiom rule_trans: forall a b c. rule_lt a b -> rule_lt b c -> rule_lt a c
  axiom rule_total: forall a b. rule_lt a b \/ a = b \/ rule_lt b a
  let item_less (a b: item) : bool ensures { result <-> item_lt a b } = any bool ensures { result <-> item_lt a b }
  let rule_less (a b: rule) : bool ensures { result <-> rule_lt a b } = any bool ensures { result <-> rule_lt a b }
  type grammar
  lemma ptr_used: forall p: ptr grammar. p = Null \/ p <> Null
  type builder
  val constant eps_item : item
  val constant eps_rule : rule
  val function i_kind (i: item) : int ensures { 0 <= result <= 1000 }
  val function i_sym (i: item) : int
  (* item sets by their members (C11) *)
  type iset
  function elems (s: iset) : seq item
  predicate has (s: iset) (x: item) = exists i. 0 <= i < length (elems s) /\ (elems s)[i] = x
  predicate has_upto (s: iset) (n: int) (x: item) = exists i. 0 <= i < n /\ (elems s)[i] = x
  lemma has_all: forall s x. has_upto s (length (elems s)) x <-> has s x
  val constant no_items : iset
  axiom no_items_is_empty: forall x. not has no_items x
  let new_items (_: ptr grammar) : iset ensures { result = no_items } = no_items
  val s_contains (s: iset) (x: item) : bool ensures { result <-> has s x }
  val s_empty (s: iset) : bool ensures { result <-> length (elems s) = 0 }
  val s_merge (s o: iset) : (r: bool, n: iset) ensures { forall x. has n x <-> has s x \/ has o x }
  type isit = { is_s: iset; is_i: int }
  val s_begin (s: iset) : isit ensures { result.is_s = s /\ result.is_i = 0 }
  val s_end (s: iset) : isit ensures { result.is_s = s /\ result.is_i = length (elems s) }
  let s_ne (a b: isit) : bool ensures { result <-> a.is_i <> b.is_i } = a.is_i <> b.is_i
  val s_next (a: isit) : isit requires { 0 <= a.is_i < length (elems a.is_s) } ensures { result.is_s = a.is_s /\ result.is_i = a.is_i + 1 }
  val s_get (a: isit) : item requires { 0 <= a.is_i < length (elems a.is_s) } ensures { result = (elems a.is_s)[a.is_i] }
endmlw
alias "contextfree::item_container" "util::container<contextfree::item, contextfree::empty_item_constructor>"
alias "contextfree::rule_container" "util::container<contextfree::rule, util::simple_constructor<contextfree::rule>>"
alias "util::container<contextfree::rule>" "util::container<contextfree::rule, util::simple_constructor<contextfree::rule>>"
alias "util::container<lr::lr_action>" "util::container<lr::lr_action, util::simple_constructor<lr::lr_action>>"
enum int "lr::lr_action::action_type"
enum int "contextfree::item::kind"
abstract item "contextfree::item"
abstract item "contextfree::empty_item" ctor0=eps_item
abstract rule "contextfree::rule"
abstract grammar "contextfree::grammar"
ptr grammar "contextfree::grammar"
abstract builder "lr::lalr_builder"
abstract iset "contextfree::item_set" ctor1=new_items
abstract isit "contextfree::item_set::const_iterator"
handle item "util::container<contextfree::item, contextfree::empty_item_constructor>" "contextfree::item" ctor0=eps_item
handle rule "util::container<contextfree::rule, util::simple_constructor<contextfree::rule>>" "contextfree::rule"
record la "lr::lr_action"
handle la "util::container<lr::lr_action, util::simple_constructor<lr::lr_action>>" "lr::lr_action" mut=yes
ptr la "lr::lr_action"
mlw
  (* the order of actions: item, kind, state, rule *)
  predicate la_lt (a b: la) = item_lt a.la_Item b.la_Item \/ (a.la_Item = b.la_Item /\ (a.la_Type < b.la_Type \/ (a.la_Type = b.la_Type
    /\ (a.la_NextState < b.la_NextState \/ (a.la_NextState = b.la_NextState /\ rule_lt a.la_Rule b.la_Rule)))))
  lemma la_irrefl: forall a. not la_lt a a
  lemma la_trans: forall a b c. la_lt a b -> la_lt b c -> la_lt a c
  lemma la_total: forall a b. la_lt a b \/ a = b \/ la_lt b a
endmlw
omap IS "std::set<util::container<contextfree::item, contextfree::empty_item_constructor>>" key item keyonly yes keyty "util::container<contextfree::item, contextfree::empty_item_constructor>" lt item_lt
omap AS "std::set<util::container<lr::lr_action>>" key la keyonly yes keyty "util::container<lr::lr_action, util::simple_constructor<lr::lr_action>>" lt la_lt
omap SM "std::map<util::container<contextfree::item, contextfree::empty_item_constructor>, contextfree::item_set>" key item elt iset eltty "contextfree::item_set" map yes keyty "util::container<contextfree::item, contextfree::empty_item_constructor>" lt item_lt default no_items
omap WC "std::map<int, int>" key int elt int eltty "int" map yes default 0
vec la "std::stack<util::container<lr::lr_action>>" "util::container<lr::lr_action, util::simple_constructor<lr::lr_action>>"
global eps_rule "an_empty_rule" "contextfree::rule"
record ig "lr::ignored_symbols"
record wk "lr::weak_symbols"
xfn item_less "contextfree::item::operator<"
xfn item_less "util::container<contextfree::item, contextfree::empty_item_constructor>::operator<"
xfn rule_less "util::container<contextfree::rule, util::simple_constructor<contextfree::rule>>::operator<"
xfn i_kind "contextfree::item::type"
xfn i_sym "contextfree::item::symbol"
xfn s_contains "contextfree::item_set::contains"
xfn s_empty "contextfree::item_set::empty"
xfn s_merge "contextfree::item_set::merge" upd=this ret=yes ty=bool
xfn s_begin "contextfree::item_set::begin"
xfn s_end "contextfree::item_set::end"
xfn s_ne "contextfree::item_set::const_iterator::operator!="
xfn s_next "contextfree::item_set::const_iterator::operator++" upd=this
xfn s_get "contextfree::item_set::const_iterator::operator*"
fn la_less
  cxx lr::lr_action::operator<
  requires 0 <= this.la_Type <= 8 /\ 0 <= compareTo.la_Type <= 8
  ensures the order of actions:: result <-> la_lt this compareTo
end
fn la_new4
  cxx lr::lr_action::lr_action(action_type, const contextfree::item_container&, int, const contextfree::rule_container&)
  ensures made of its parts:: result = { la_Type = v_type; la_Item = item; la_NextState = nextState; la_Rule = rule }
end
fn la_copy
  cxx lr::lr_action::lr_action(const lr_action&)
  ensures a copy:: result = copyFrom
end
fn la_with_item
  cxx lr::lr_action::lr_action(const lr_action&, const contextfree::item_container&)
  ensures the same action on another symbol:: result = { copyFrom with la_Item = newItem }
end
fn la_new3
  cxx lr::lr_action::lr_action(action_type, const contextfree::item_container&, int)
  ensures made of its parts:: result = { la_Type = v_type; la_Item = item; la_NextState = nextState; la_Rule = eps_rule }
end
fn add_ignored
  cxx lr::ignored_symbols::add_item(const util::container<contextfree::item, contextfree::empty_item_constructor>&)
  ensures one more:: forall x. IS.mem this.ig_IgnoredItems x <-> IS.mem (old this).ig_IgnoredItems x \/ x = newItem
end
mlw
  predicate is_ignored (g: ig) (x: item) = IS.mem g.ig_IgnoredItems x
  (* what becomes of an action *)
  function weakened (g: ig) (a: la) : la = if a.la_Type = 3 /\ is_ignored g a.la_Item then { a with la_Type = 4 } else a
  (* the symbol has a shift (of an ignored symbol) or an ignore action *)
  predicate uses (g: ig) (a: la) (x: item) = a.la_Item = x /\ ((a.la_Type = 0 /\ is_ignored g x) \/ a.la_Type = 2)
  predicate in_use (g: ig) (m: AS.t) (x: item) = exists a. AS.mem m a /\ uses g a x
  function ignoring (x: item) (state: int) : la = { la_Type = 2; la_Item = x; la_NextState = state; la_Rule = eps_rule }
endmlw
fn rewrite_ignored
  cxx lr::ignored_symbols::rewrite_actions
  requires forall a. AS.mem actions a -> 0 <= a.la_Type <= 8
  ensures every action is kept, reductions on ignored symbols as weak ones:: forall a. AS.mem (old actions) a -> AS.mem actions (weakened this a)
  ensures one ignore action for each ignored symbol without a shift or ignore action:: forall x. is_ignored this x -> not in_use this (old actions) x -> AS.mem actions (ignoring x state)
  ensures nothing else:: forall b. AS.mem actions b -> (exists a. AS.mem (old actions) a /\ b = weakened this a) \/ (is_ignored this b.la_Item /\ not in_use this (old actions) b.la_Item /\ b = ignoring b.la_Item state)
  loop 0
    invariant AS.valid actions action
    invariant forall a. AS.mem actions a -> not AS.at_or_after a action -> AS.mem newActions (weakened this a)
    invariant forall b. AS.mem newActions b -> exists a. AS.mem actions a /\ b = weakened this a
    invariant forall x a. AS.mem actions a -> not AS.at_or_after a action -> uses this a x -> IS.mem usedIgnored x
    invariant forall x. IS.mem usedIgnored x -> in_use this actions x
    variant AS.rank actions action
  loop 1
    before let ghost new0 = newActions in assert { forall x. is_ignored this x -> (IS.mem usedIgnored x <-> in_use this actions x) }
    invariant IS.valid this.ig_IgnoredItems ignored
    invariant forall b. AS.mem new0 b -> AS.mem newActions b
    invariant forall b. AS.mem newActions b -> AS.mem new0 b \/ (is_ignored this b.la_Item /\ not IS.mem usedIgnored b.la_Item /\ b = ignoring b.la_Item state)
    invariant forall x. is_ignored this x -> not IS.at_or_after x ignored -> not IS.mem usedIgnored x -> AS.mem newActions (ignoring x state)
    variant IS.rank this.ig_IgnoredItems ignored
end
fn add_weak
  cxx lr::weak_symbols::add_symbols(const contextfree::item_container&, const contextfree::item_set&)
  ensures recorded as weak:: forall x. has this.wk_WeakSymbols x <-> has (old this).wk_WeakSymbols x \/ has weak x
  ensures equivalents of the strong symbol:: SM.mem this.wk_StrongToWeak strong /\ forall x. has (SM.get this.wk_StrongToWeak strong) x <-> (SM.mem (old this).wk_StrongToWeak strong /\ has (SM.get (old this).wk_StrongToWeak strong) x) \/ has weak x
  ensures others unchanged:: forall y. y <> strong -> (SM.mem this.wk_StrongToWeak y <-> SM.mem (old this).wk_StrongToWeak y) /\ (SM.mem this.wk_StrongToWeak y -> SM.get this.wk_StrongToWeak y = SM.get (old this).wk_StrongToWeak y)
end
mlw
  predicate term (a: la) = i_kind a.la_Item = 3
  predicate is_weak (g: wk) (a: la) = term a /\ has g.wk_WeakSymbols a.la_Item
  predicate is_strong (g: wk) (a: la) = term a /\ not has g.wk_WeakSymbols a.la_Item
  (* a strong symbol with weak equivalents *)
  predicate triggers (g: wk) (a: la) = term a /\ SM.mem g.wk_StrongToWeak a.la_Item /\ length (elems (SM.get g.wk_StrongToWeak a.la_Item)) <> 0
  predicate affected (g: wk) (m: AS.t) = exists a. AS.mem m a /\ triggers g a
  (* a goto or a divert cannot be on a terminal *)
  predicate odd (g: wk) (a: la) = is_weak g a /\ (a.la_Type = 6 \/ a.la_Type = 7)
  function passed (g: wk) (a: la) : la = if is_weak g a /\ a.la_Type = 3 then { a with la_Type = 4 } else a
  (* a weak symbol with an action of its own *)
  predicate own_action (g: wk) (m: AS.t) (s: int) = exists a. AS.mem m a /\ is_weak g a /\ a.la_Type <> 8 /\ i_sym a.la_Item = s
  predicate weak_for (g: wk) (x w: item) = SM.mem g.wk_StrongToWeak x /\ has (SM.get g.wk_StrongToWeak x) w /\ i_kind w = 3
  predicate adds (g: wk) (m: AS.t) (a: la) (w: item) = weak_for g a.la_Item w /\ not own_action g m (i_sym w)
  function as_weak (a: la) (w: item) : la = { a with la_Item = w; la_Type = if a.la_Type = 0 then 1 else a.la_Type }
  predicate on (s: seq la) (a: la) = exists i. 0 <= i < length s /\ s[i] = a
  lemma on_snoc: forall s: seq la, x a. on (snoc s x) a <-> (on s a \/ a = x)
  let lemma on_pop (s: seq la) (a: la)
    requires { length s > 0 /\ on s a }
    ensures { on s[.. length s - 1] a \/ a = s[length s - 1] }
  = let ghost i = any int ensures { 0 <= result < length s /\ s[result] = a } in
    if i < length s - 1 then assert { s[.. length s - 1][i] = a }
  lemma on_pop2: forall s: seq la, a. length s > 0 -> on s[.. length s - 1] a -> on s a
  let rec ghost function cnt (s: seq la) (y: int) (n: int) : int
    requires { 0 <= n <= length s } variant { n }
    ensures { result >= 0 } ensures { result <= n }
  = if n <= 0 then 0 else cnt s y (n - 1) + (if pure { i_sym s[n-1].la_Item = y } then 1 else 0)
  let rec lemma cnt_frame (s t: seq la) (y: int) (n: int)
    requires { 0 <= n <= length s /\ n <= length t /\ forall i. 0 <= i < n -> s[i] = t[i] } variant { n }
    ensures { cnt s y n = cnt t y n }
  = if n > 0 then cnt_frame s t y (n - 1)
  function num (s: seq la) (y: int) : int = cnt s y (length s)
  let lemma num_snoc (s: seq la) (x: la) (y: int)
    ensures { num (snoc s x) y = num s y + (if i_sym x.la_Item = y then 1 else 0) }
  = cnt_frame s (snoc s x) y (length s)
  let lemma num_pop (s: seq la) (y: int)
    requires { length s > 0 }
    ensures { num s y = num s[.. length s - 1] y + (if i_sym s[length s - 1].la_Item = y then 1 else 0) }
  = cnt_frame s s[.. length s - 1] y (length s - 1)
endmlw
fn rewrite_weak
  cxx lr::weak_symbols::rewrite_actions
  requires forall a. AS.mem actions a -> 0 <= a.la_Type <= 8
  requires AS.size actions < 2147483647
  ensures a state without strong symbols that have weak equivalents is left alone:: not affected this (old actions) -> actions = old actions
  ensures every action is kept, reductions on weak symbols as weak ones:: affected this (old actions) -> forall a. AS.mem (old actions) a -> not odd this a -> AS.mem actions (passed this a)
  ensures equivalent actions:: affected this (old actions) -> forall a w. AS.mem (old actions) a -> is_strong this a -> weak_for this a.la_Item w -> not own_action this (old actions) (i_sym w) -> AS.mem actions (as_weak a w)
  ensures nothing else:: affected this (old actions) -> forall b. AS.mem actions b -> (exists a. AS.mem (old actions) a /\ not odd this a /\ b = passed this a) \/ (exists a w. AS.mem (old actions) a /\ is_strong this a /\ weak_for this a.la_Item w /\ not own_action this (old actions) (i_sym w) /\ b = as_weak a w)
  loop 0
    invariant AS.valid actions act
    invariant not haveStrong
    invariant forall a. AS.mem actions a -> not AS.at_or_after a act -> not triggers this a
    variant AS.rank actions act
  loop 1
    invariant AS.valid actions act_2
    invariant length weakActions + AS.rank actions act_2 <= AS.size actions
    invariant forall a. AS.mem actions a -> not AS.at_or_after a act_2 -> is_strong this a -> on strongActions a
    invariant forall a. on strongActions a -> AS.mem actions a /\ is_strong this a
    invariant forall a. AS.mem actions a -> not AS.at_or_after a act_2 -> is_weak this a -> a.la_Type <> 8 -> on weakActions a
    invariant forall a. on weakActions a -> AS.mem actions a /\ is_weak this a /\ a.la_Type <> 8
    invariant forall a. AS.mem actions a -> not AS.at_or_after a act_2 -> (is_weak this a /\ a.la_Type <> 8) \/ AS.mem newActions a
    invariant forall b. AS.mem newActions b -> AS.mem actions b /\ (not is_weak this b \/ b.la_Type = 8)
    invariant forall y. WC.mem weakSymbols y -> own_action this actions y
    invariant forall a. on weakActions a -> WC.mem weakSymbols (i_sym a.la_Item)
    invariant forall y. WC.mem weakSymbols y -> WC.get weakSymbols y = num weakActions y
    invariant forall y. not WC.mem weakSymbols y -> num weakActions y = 0
    invariant forall y. 0 <= num weakActions y <= length weakActions
    variant AS.rank actions act_2
  loop 2
    before let ghost new1 = newActions in let ghost w0 = weakActions in let ghost ws0 = weakSymbols in assert { forall y. WC.mem ws0 y <-> own_action this actions y }
    invariant forall a. on weakActions a -> on w0 a
    invariant forall a. on w0 a -> on weakActions a \/ odd this a \/ AS.mem newActions (passed this a)
    invariant forall b. AS.mem new1 b -> AS.mem newActions b
    invariant forall b. AS.mem newActions b -> AS.mem new1 b \/ exists a. on w0 a /\ not odd this a /\ b = passed this a
    invariant forall y. WC.mem weakSymbols y <-> WC.mem ws0 y
    invariant forall y. WC.mem weakSymbols y -> num weakActions y <= WC.get weakSymbols y <= length w0
    invariant forall y. 0 <= num weakActions y <= length weakActions
    variant length weakActions
  loop 3
    before let ghost new2 = newActions in let ghost s0 = strongActions in assert { forall a. AS.mem actions a -> not odd this a -> AS.mem new2 (passed this a) }; assert { forall b. AS.mem new2 b -> exists a. AS.mem actions a /\ not odd this a /\ b = passed this a }
    invariant forall a. on strongActions a -> on s0 a
    invariant forall a w. on s0 a -> not on strongActions a -> adds this actions a w -> AS.mem newActions (as_weak a w)
    invariant forall b. AS.mem new2 b -> AS.mem newActions b
    invariant forall b. AS.mem newActions b -> AS.mem new2 b \/ exists a w. on s0 a /\ adds this actions a w /\ b = as_weak a w
    variant length strongActions
  loop 4
    before let ghost new3 = newActions in let ghost top = strongActions[length strongActions - 1] in let ghost eqs = SM.get this.wk_StrongToWeak top.la_Item in assert { SM.mem this.wk_StrongToWeak top.la_Item }
    invariant weakEquiv.is_s = eqs /\ 0 <= weakEquiv.is_i <= length (elems eqs)
    invariant forall w. has_upto eqs weakEquiv.is_i w -> i_kind w = 3 -> not own_action this actions (i_sym w) -> AS.mem newActions (as_weak top w)
    invariant forall b. AS.mem new3 b -> AS.mem newActions b
    invariant forall b. AS.mem newActions b -> AS.mem new3 b \/ exists w. adds this actions top w /\ b = as_weak top w
    variant length (elems eqs) - weakEquiv.is_i
end
