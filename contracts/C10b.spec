tu
#include "/repo/TameParse/ContextFree/grammar.cpp"
endtu
mlw
  (* grammar items and rules as values: container::operator< orders them, and incomparable means equal (C09) *)
  type item
  predicate item_lt (a b: item)
  axiom item_irrefl: forall a. not item_lt a a
  axiom item_trans: forall a b c. item_lt a b -> item_lt b c -> item_lt a c
  axiom item_total: forall a b. item_lt a b \/ a = b \/ item_lt b a
  val constant eps_item : item
  val function nt_item (n: int) : item
  type rule
  predicate rule_lt (a b: rule)
  axiom rule_irrefl: forall a. not rule_lt a a
  axiom rule_trans: forall a b c. rule_lt a b -> rule_lt b c -> rule_lt a c
  axiom rule_total: forall a b. rule_lt a b \/ a = b \/ rule_lt b a
  val constant eps_rule : rule
  let constant no_rules : seq rule = empty
  val function rule_for (i: item) : rule
  type str
  predicate str_lt (a b: str)
  axiom str_irrefl: forall a. not str_lt a a
  axiom str_trans: forall a b c. str_lt a b -> str_lt b c -> str_lt a c
  axiom str_total: forall a b. str_lt a b \/ a = b \/ str_lt b a
  val constant str_empty : str
endmlw
alias "std::wstring" "std::basic_string<wchar_t>"
alias "wstring" "std::basic_string<wchar_t>"
alias "util::container<contextfree::rule>" "util::container<contextfree::rule, util::simple_constructor<contextfree::rule>>"
abstract str "std::basic_string<wchar_t>" ctor0=str_empty
abstract item "contextfree::item"
abstract item "contextfree::empty_item" ctor0=eps_item
abstract item "contextfree::nonterminal" ctor1=nt_item
abstract rule "contextfree::rule" ctor1=rule_for
handle item "util::container<contextfree::item, contextfree::empty_item_constructor>" "contextfree::item" ctor0=eps_item
handle rule "util::container<contextfree::rule, util::simple_constructor<contextfree::rule>>" "contextfree::rule"
omap II "std::map<util::container<contextfree::item, contextfree::empty_item_constructor>, int>" key item elt int eltty "int" map yes keyty "util::container<contextfree::item, contextfree::empty_item_constructor>" lt item_lt default 0
omap FI "std::map<int, util::container<contextfree::item, contextfree::empty_item_constructor>>" key int elt item eltty "util::container<contextfree::item, contextfree::empty_item_constructor>" map yes default eps_item
omap RI "std::map<util::container<contextfree::rule>, int>" key rule elt int eltty "int" map yes keyty "util::container<contextfree::rule, util::simple_constructor<contextfree::rule>>" lt rule_lt default 0
omap FR "std::map<int, util::container<contextfree::rule>>" key int elt rule eltty "util::container<contextfree::rule, util::simple_constructor<contextfree::rule>>" map yes default eps_rule
omap N2S "std::map<std::basic_string<wchar_t>, int>" key str elt int eltty "int" map yes keyty "std::basic_string<wchar_t>" lt str_lt default 0
omap S2N "std::map<int, std::basic_string<wchar_t>>" key int elt str eltty "std::basic_string<wchar_t>" map yes default str_empty
vec rule "std::vector<util::container<contextfree::rule>>" "util::container<contextfree::rule, util::simple_constructor<contextfree::rule>>"
omap NR "std::map<int, std::vector<util::container<contextfree::rule>>>" key int elt {seq rule} eltty "std::vector<util::container<contextfree::rule>>" map yes default no_rules
global eps_item "an_empty_item" "contextfree::empty_item"
global eps_item "an_empty_item_c" "util::container<contextfree::item, contextfree::empty_item_constructor>"
global no_rules "empty_rule_set" "std::vector<util::container<contextfree::rule>>"
record gram "contextfree::grammar" drop m_CachedFirstSets,m_CachedFollowSets,m_CachedItemSets,m_EpsilonSet,m_PendingFirstSets
mlw
  (* items and identifiers: a one to one correspondence with 0 .. n-1 *)
  predicate items_ok (g: gram) =
    (forall k. II.mem g.gram_ItemIdentifiers k -> 0 <= II.get g.gram_ItemIdentifiers k < II.size g.gram_ItemIdentifiers
        /\ FI.mem g.gram_ItemForIdentifier (II.get g.gram_ItemIdentifiers k) /\ FI.get g.gram_ItemForIdentifier (II.get g.gram_ItemIdentifiers k) = k)
    /\ (forall i. FI.mem g.gram_ItemForIdentifier i <-> 0 <= i < II.size g.gram_ItemIdentifiers)
    /\ (forall i. FI.mem g.gram_ItemForIdentifier i -> II.mem g.gram_ItemIdentifiers (FI.get g.gram_ItemForIdentifier i) /\ II.get g.gram_ItemIdentifiers (FI.get g.gram_ItemForIdentifier i) = i)
  predicate rules_ok (g: gram) =
    (forall k. RI.mem g.gram_RuleIdentifiers k -> 0 <= RI.get g.gram_RuleIdentifiers k < RI.size g.gram_RuleIdentifiers
        /\ FR.mem g.gram_RuleForIdentifier (RI.get g.gram_RuleIdentifiers k) /\ FR.get g.gram_RuleForIdentifier (RI.get g.gram_RuleIdentifiers k) = k)
    /\ (forall i. FR.mem g.gram_RuleForIdentifier i <-> 0 <= i < RI.size g.gram_RuleIdentifiers)
    /\ (forall i. FR.mem g.gram_RuleForIdentifier i -> RI.mem g.gram_RuleIdentifiers (FR.get g.gram_RuleForIdentifier i) /\ RI.get g.gram_RuleIdentifiers (FR.get g.gram_RuleForIdentifier i) = i)
  predicate names_ok (g: gram) =
    (forall n. N2S.mem g.gram_NameToNonterminal n -> S2N.mem g.gram_NonterminalToName (N2S.get g.gram_NameToNonterminal n) /\ S2N.get g.gram_NonterminalToName (N2S.get g.gram_NameToNonterminal n) = n
        /\ FI.mem g.gram_ItemForIdentifier (N2S.get g.gram_NameToNonterminal n) /\ FI.get g.gram_ItemForIdentifier (N2S.get g.gram_NameToNonterminal n) = nt_item (N2S.get g.gram_NameToNonterminal n))
    /\ (forall i. S2N.mem g.gram_NonterminalToName i -> N2S.mem g.gram_NameToNonterminal (S2N.get g.gram_NonterminalToName i) /\ N2S.get g.gram_NameToNonterminal (S2N.get g.gram_NonterminalToName i) = i)
  predicate items_extend (a b: gram) =
    forall k. II.mem a.gram_ItemIdentifiers k -> II.mem b.gram_ItemIdentifiers k /\ II.get b.gram_ItemIdentifiers k = II.get a.gram_ItemIdentifiers k
  predicate rules_extend (a b: gram) =
    forall k. RI.mem a.gram_RuleIdentifiers k -> RI.mem b.gram_RuleIdentifiers k /\ RI.get b.gram_RuleIdentifiers k = RI.get a.gram_RuleIdentifiers k
  lemma different_items_have_different_ids: forall g j k. items_ok g -> II.mem g.gram_ItemIdentifiers j -> II.mem g.gram_ItemIdentifiers k ->
    II.get g.gram_ItemIdentifiers j = II.get g.gram_ItemIdentifiers k -> j = k
  lemma different_rules_have_different_ids: forall g j k. rules_ok g -> RI.mem g.gram_RuleIdentifiers j -> RI.mem g.gram_RuleIdentifiers k ->
    RI.get g.gram_RuleIdentifiers j = RI.get g.gram_RuleIdentifiers k -> j = k
endmlw
fn g_item_id
  opt mutable
  cxx contextfree::grammar::identifier_for_item
  requires items_ok this /\ II.size this.gram_ItemIdentifiers <= 2147483647
  ensures consistent:: items_ok this
  ensures earlier identifiers unchanged:: items_extend (old this) this
  ensures the identifier means this item:: II.mem this.gram_ItemIdentifiers item /\ II.get this.gram_ItemIdentifiers item = result /\ FI.get this.gram_ItemForIdentifier result = item
  ensures same identifier if already known:: II.mem (old this).gram_ItemIdentifiers item -> this = old this
  ensures dense:: not II.mem (old this).gram_ItemIdentifiers item -> result = II.size (old this).gram_ItemIdentifiers /\ II.size this.gram_ItemIdentifiers = result + 1
  ensures rules and names unchanged:: this.gram_RuleIdentifiers = (old this).gram_RuleIdentifiers /\ this.gram_RuleForIdentifier = (old this).gram_RuleForIdentifier /\ this.gram_Nonterminals = (old this).gram_Nonterminals /\ this.gram_NameToNonterminal = (old this).gram_NameToNonterminal /\ this.gram_NonterminalToName = (old this).gram_NonterminalToName
  ensures names stay consistent:: names_ok (old this) -> names_ok this
end
fn g_rule_id
  opt mutable
  cxx contextfree::grammar::identifier_for_rule
  requires rules_ok this /\ RI.size this.gram_RuleIdentifiers <= 2147483647
  ensures consistent:: rules_ok this
  ensures earlier identifiers unchanged:: rules_extend (old this) this
  ensures the identifier means this rule:: RI.mem this.gram_RuleIdentifiers rule /\ RI.get this.gram_RuleIdentifiers rule = result /\ FR.get this.gram_RuleForIdentifier result = rule
  ensures same identifier if already known:: RI.mem (old this).gram_RuleIdentifiers rule -> this = old this
  ensures dense:: not RI.mem (old this).gram_RuleIdentifiers rule -> result = RI.size (old this).gram_RuleIdentifiers /\ RI.size this.gram_RuleIdentifiers = result + 1
  ensures items and names unchanged:: this.gram_ItemIdentifiers = (old this).gram_ItemIdentifiers /\ this.gram_ItemForIdentifier = (old this).gram_ItemForIdentifier /\ this.gram_Nonterminals = (old this).gram_Nonterminals /\ this.gram_NameToNonterminal = (old this).gram_NameToNonterminal /\ this.gram_NonterminalToName = (old this).gram_NonterminalToName
end
fn g_item_with_id
  cxx contextfree::grammar::item_with_identifier
  ensures item with the identifier:: FI.mem this.gram_ItemForIdentifier id -> result = FI.get this.gram_ItemForIdentifier id
  ensures empty item for unknown identifiers:: not FI.mem this.gram_ItemForIdentifier id -> result = eps_item
  ensures this = old this
end
fn g_rule_with_id
  cxx contextfree::grammar::rule_with_identifier
  ensures rule with the identifier:: FR.mem this.gram_RuleForIdentifier id -> result = FR.get this.gram_RuleForIdentifier id
  ensures this = old this
end
fn g_max_item
  cxx contextfree::grammar::max_item_identifier
  requires II.size this.gram_ItemIdentifiers <= 2147483647
  ensures first unused item identifier:: result = II.size this.gram_ItemIdentifiers
end
fn g_max_rule
  cxx contextfree::grammar::max_rule_identifier
  requires RI.size this.gram_RuleIdentifiers <= 2147483647
  ensures first unused rule identifier:: result = RI.size this.gram_RuleIdentifiers
end
fn g_nt_id
  cxx contextfree::grammar::id_for_nonterminal
  requires items_ok this /\ names_ok this /\ II.size this.gram_ItemIdentifiers <= 2147483647
  requires nonterminal identifiers come from the grammar:: not II.mem this.gram_ItemIdentifiers (nt_item (II.size this.gram_ItemIdentifiers))
  ensures consistent:: items_ok this /\ names_ok this
  ensures earlier identifiers unchanged:: items_extend (old this) this
  ensures earlier names unchanged:: forall n. N2S.mem (old this).gram_NameToNonterminal n -> N2S.mem this.gram_NameToNonterminal n /\ N2S.get this.gram_NameToNonterminal n = N2S.get (old this).gram_NameToNonterminal n
  ensures the name means this nonterminal:: N2S.mem this.gram_NameToNonterminal name /\ N2S.get this.gram_NameToNonterminal name = result
  ensures the nonterminal has this name:: S2N.mem this.gram_NonterminalToName result /\ S2N.get this.gram_NonterminalToName result = name
  ensures registered as an item:: II.mem this.gram_ItemIdentifiers (nt_item result) /\ II.get this.gram_ItemIdentifiers (nt_item result) = result
  ensures same identifier if already known:: N2S.mem (old this).gram_NameToNonterminal name -> this = old this
  ensures rules unchanged:: this.gram_RuleIdentifiers = (old this).gram_RuleIdentifiers /\ this.gram_RuleForIdentifier = (old this).gram_RuleForIdentifier /\ this.gram_Nonterminals = (old this).gram_Nonterminals
end
fn g_nt_name
  cxx contextfree::grammar::name_for_nonterminal
  ensures name of the nonterminal:: result = if S2N.mem this.gram_NonterminalToName id then S2N.get this.gram_NonterminalToName id else str_empty
end
fn g_nt_defined
  cxx contextfree::grammar::nonterminal_is_defined
  ensures defined exactly if registered:: result <-> N2S.mem this.gram_NameToNonterminal name
  ensures this = old this
end
fn g_get_nt
  cxx contextfree::grammar::get_nonterminal
  requires items_ok this /\ names_ok this /\ II.size this.gram_ItemIdentifiers <= 2147483647
  requires nonterminal identifiers come from the grammar:: not II.mem this.gram_ItemIdentifiers (nt_item (II.size this.gram_ItemIdentifiers))
  ensures consistent:: items_ok this /\ names_ok this
  ensures the nonterminal of this name:: N2S.mem this.gram_NameToNonterminal name /\ result = nt_item (N2S.get this.gram_NameToNonterminal name)
  ensures earlier identifiers unchanged:: items_extend (old this) this
end
fn g_rules_const
  cxx contextfree::grammar::rules_for_nonterminal(int) const
  ensures rules of the nonterminal:: result = if NR.mem this.gram_Nonterminals id then NR.get this.gram_Nonterminals id else no_rules
  ensures this = old this
end
fn g_assign
  cxx contextfree::grammar::operator=
  ensures copy has the same identifiers:: this = assignFrom
end
