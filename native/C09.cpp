// sources: TameParse/Dfa/*.cpp TameParse/ContextFree/*.cpp TameParse/Lr/*.cpp TameParse/Util/*.cpp
// bound: every pair and triple from pools of 12 to 60 values of each type (ranges, sets, transitions, accept actions, positions, lexemes, containers, items of all kinds with nesting up to 3, rules, LR(0) and LR(1) items, actions, states, syntax nodes, table entries), pools rebuilt from 4 seeds
#include "vh.h"
#include "TameParse/Dfa/range.h"
#include "TameParse/Dfa/symbol_set.h"
#include "TameParse/Dfa/transition.h"
#include "TameParse/Dfa/accept_action.h"
#include "TameParse/Dfa/position.h"
#include "TameParse/Dfa/lexeme.h"
#include "TameParse/Util/container.h"
#include "TameParse/Util/astnode.h"
#include "TameParse/ContextFree/grammar.h"
#include "TameParse/ContextFree/item.h"
#include "TameParse/ContextFree/guard.h"
#include "TameParse/ContextFree/rule.h"
#include "TameParse/Lr/lr_item.h"
#include "TameParse/Lr/lr_state.h"
#include "TameParse/Lr/lr_action.h"
#include "TameParse/Lr/lalr_builder.h"
#include "TameParse/Lr/parser_tables.h"
using namespace dfa; using namespace vh; using namespace contextfree; using namespace lr;
// strict weak order of < over all pairs and triples
template<class T, class F> void order(const char* ty, std::vector<T>& v, F lt) {
    size_t n = v.size(); std::vector<std::vector<char> > m(n, std::vector<char>(n));
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) { *g_case = std::string(ty) + " values #" + str(i) + ",#" + str(j); m[i][j] = lt(v[i], v[j]); }
    for (size_t i = 0; i < n; ++i) { begin_case(std::string(ty) + " #" + str(i) + " seed " + str(g_seed), true); check(!m[i][i], std::string(ty) + ": a < a");
        for (size_t j = 0; j < n; ++j) { ++g_evals; *g_case = std::string(ty) + " #" + str(i) + ", #" + str(j);
            check(!(m[i][j] && m[j][i]), std::string(ty) + ": a < b and b < a");
            for (size_t k = 0; k < n; ++k) { ++g_evals;
                if (m[i][j] && m[j][k] && !m[i][k]) { *g_case += ", #" + str(k); fail(std::string(ty) + ": < is not transitive"); }
                if (!m[i][j] && !m[j][i] && !m[j][k] && !m[k][j] && (m[i][k] || m[k][i])) { *g_case += ", #" + str(k); fail(std::string(ty) + ": incomparability is not transitive"); } } } }
}
template<class T> void eqs(const char* ty, std::vector<T>& v) {
    for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) { ++g_evals; *g_case = std::string(ty) + " #" + str(i) + ", #" + str(j);
        check((v[i] != v[j]) == !(v[i] == v[j]), std::string(ty) + ": != is not the negation of =="); check((v[i] == v[j]) == (v[j] == v[i]), std::string(ty) + ": == is not symmetric"); if (i == j) check(v[i] == v[j], std::string(ty) + ": a == a"); }
}
template<class T> void ops(const char* ty, std::vector<T>& v) {
    for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) { ++g_evals; *g_case = std::string(ty) + " #" + str(i) + ", #" + str(j);
        check((v[i] > v[j]) == (v[j] < v[i]), std::string(ty) + ": > is not < exchanged"); check((v[i] <= v[j]) == !(v[j] < v[i]), std::string(ty) + ": <= is not the negation of >"); check((v[i] >= v[j]) == !(v[i] < v[j]), std::string(ty) + ": >= is not the negation of <"); }
}
// equal values are exactly the incomparable ones (types whose order sees the whole value)
template<class T> void eqlt(const char* ty, std::vector<T>& v) {
    for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) { ++g_evals; *g_case = std::string(ty) + " #" + str(i) + ", #" + str(j); check((v[i] == v[j]) == (!(v[i] < v[j]) && !(v[j] < v[i])), std::string(ty) + ": equality and order disagree"); }
}
struct lt { template<class T> bool operator()(const T& a, const T& b) const { return a < b; } };
template<class T> void all(const char* ty, std::vector<T>& v) { order(ty, v, lt()); eqs(ty, v); ops(ty, v); eqlt(ty, v); watchdog(); }
// grammar items
static rule* mkrule(Rng& r, int depth);
static item_container mkitem(Rng& r, int depth) {
    switch (r.below(depth > 0 ? 10 : 5)) {
        case 0: return item_container(new terminal(r.below(3)), true);
        case 1: return item_container(new nonterminal(r.below(3)), true);
        case 2: return item_container(new empty_item(), true);
        case 3: return item_container(new end_of_input(), true);
        case 4: return item_container(new end_of_guard(), true);
        case 5: { rule* x = mkrule(r, depth - 1); item_container c(new ebnf_optional(*x), true); delete x; return c; }
        case 6: { rule* x = mkrule(r, depth - 1); item_container c(new ebnf_repeating(*x), true); delete x; return c; }
        case 7: { rule* x = mkrule(r, depth - 1); item_container c(new ebnf_repeating_optional(*x), true); delete x; return c; }
        case 8: { rule* x = mkrule(r, depth - 1); ebnf_alternate* a = new ebnf_alternate(*x); delete x; int n = r.below(3); while (n--) { rule_container y = a->add_rule(); int k = r.below(3); while (k--) *y << mkitem(r, depth - 1); } return item_container(a, true); }
        default: { rule* x = mkrule(r, depth - 1); item_container c(new contextfree::guard(*x, r.below(3) - 1), true); delete x; return c; }
    }
}
static rule* mkrule(Rng& r, int depth) { rule* x = new rule(r.below(3)); int n = r.below(4); while (n--) *x << mkitem(r, depth); return x; }
struct lt0 { bool operator()(const lexeme* a, const lexeme* b) const { return lexeme::compare(a, b); } };
static void pools(int seed) {
    Rng r(g_seed * 101 + seed);
    { std::vector<range<int> > v; for (int a = 0; a < 4; ++a) for (int b = a; b < 5; ++b) v.push_back(range<int>(a, b)); all("range", v); }
    { std::vector<symbol_set> v(1); for (int i = 0; i < 40; ++i) { symbol_set s; int n = r.below(4); while (n--) { int a = r.below(9); s |= range<int>(a, a + 1 + r.below(4)); } v.push_back(s); } all("symbol_set", v); }
    { std::vector<transition> v; for (int a = -1; a < 3; ++a) for (int b = 0; b < 4; ++b) v.push_back(transition(a, b)); all("transition", v); }
    { std::vector<accept_action> v; for (int a = -1; a < 4; ++a) { v.push_back(accept_action(a)); v.push_back(accept_action(a, true)); } order("accept_action", v, lt()); eqs("accept_action", v); ops("accept_action", v);
      for (size_t i = 0; i < v.size(); ++i) { check(!(v[i] == (const accept_action*)0), "accept_action equals null"); for (size_t j = 0; j < v.size(); ++j) { *g_case = "accept_action pointers"; check((v[i] == &v[j]) == (v[i] == v[j]), "accept_action pointer ==");  check((v[i] != &v[j]) == !(v[i] == v[j]), "accept_action pointer !=");
        check((v[i] < v[j]) == (v[i].symbol() > v[j].symbol()), "accept_action: lower numbered symbols have priority"); check((v[i] == v[j]) == (v[i].symbol() == v[j].symbol() && v[i].eager() == v[j].eager()), "accept_action equality"); } } }
    { std::vector<position> v; for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) for (int c = 0; c < 3; ++c) v.push_back(position(a, b, c)); all("position", v); }
    { std::vector<lexeme*> v(1, (lexeme*)0); std::vector<util::container<lexeme> > c; c.push_back(util::container<lexeme>((lexeme*)0)); c.push_back(util::container<lexeme>((lexeme*)0));
      for (int i = 0; i < 40; ++i) { lexeme::symbols s; int n = r.below(3); while (n--) s += r.below(3); v.push_back(new lexeme(s, position(r.below(2), r.below(2), r.below(2)), r.below(2))); c.push_back(util::container<lexeme>(v.back(), false)); if (i % 5 == 0) c.push_back(c.back()); if (i % 7 == 0) c.push_back(util::container<lexeme>(*v.back())); }
      order("lexeme", v, lt0()); order("container<lexeme>", c, lt()); ops("container<lexeme>", c);
      std::vector<util::astnode> a; for (int i = 0; i < 40; ++i) { util::astnode n(r.below(2)); if (r.coin()) n = util::astnode(lexeme_container(v[1 + r.below(8)], false)); int k = a.empty() ? 0 : r.below(3); while (k--) n.add_child(util::astnode_container(a[r.below((int)a.size())])); a.push_back(n); } order("astnode", a, lt());
      for (size_t i = 0; i < v.size(); ++i) delete v[i]; }
    watchdog();
    { std::vector<item_container> v; for (int i = 0; i < 45; ++i) { v.push_back(mkitem(r, 2 + i % 2)); if (i % 9 == 0) v.push_back(item_container(*v.back())); }
      all("item_container", v);
      for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) { *g_case = "item #" + str(i) + ", #" + str(j); const item &a = *v[i], &b = *v[j];
        check((a < b) == item::compare(a, b), "item: operator< and compare disagree"); check((a < b) == item::compare(&a, &b), "item: pointer compare"); check((a != b) == !(a == b), "item: !="); check((a > b) == (b < a), "item: >"); check((a <= b) == !(b < a), "item: <="); check((a >= b) == !(a < b), "item: >=");
        check((a == b) == (!(a < b) && !(b < a)), "item: equality and order disagree"); }
      check(item::compare((const item*)0, &*v[0]) && !item::compare(&*v[0], (const item*)0) && !item::compare((const item*)0, (const item*)0), "null items"); }
    watchdog();
    { std::vector<rule_container> v; for (int i = 0; i < 45; ++i) { rule* x = mkrule(r, 2); v.push_back(rule_container(x, true)); if (i % 8 == 0) v.push_back(rule_container(*x)); }
      all("rule_container", v);
      for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v.size(); ++j) { *g_case = "rule #" + str(i) + ", #" + str(j); const rule &a = *v[i], &b = *v[j]; int c = a.compare_items(b), d = b.compare_items(a); check((c < 0) == (d > 0) && (c == 0) == (d == 0), "rule::compare_items is not antisymmetric"); check((a == b) == (!(a < b) && !(b < a)), "rule: equality and order disagree"); if (a == b) check(c == 0, "equal rules have different items"); }
      watchdog();
      grammar g; std::vector<lr0_item> l0; std::vector<lr1_item> l1; std::vector<lr_action> acts; std::vector<lr0_item_container> l0c;
      for (int i = 0; i < 30; ++i) { const rule_container& rc = v[r.below(12)]; l0.push_back(lr0_item(&g, rc, r.below((int)rc->items().size() + 1))); l0c.push_back(lr0_item_container(l0.back())); }
      all("lr0_item", l0); all("lr0_item_container", l0c);
      for (int i = 0; i < 35; ++i) { item_set s(g); int n = r.below(4); while (n--) { item_container c(new terminal(r.below(4)), true); s.insert(c); } l1.push_back(lr1_item(l0[r.below(5)], s)); }
      all("lr1_item", l1);
      for (int i = 0; i < 40; ++i) { item_container it(new terminal(r.below(2)), true); if (r.coin()) acts.push_back(lr_action((lr_action::action_type)r.below(9), it, r.below(2))); else acts.push_back(lr_action((lr_action::action_type)r.below(3), it, r.below(2), v[r.below(6)])); }
      order("lr_action", acts, lt()); eqlt("lr_action", acts);
      typedef lr_state<lr0_item> st; std::vector<st> sts; for (int i = 0; i < 30; ++i) { st s; int n = r.below(4); while (n--) s.add(l0c[r.below(6)]); sts.push_back(s); }
      all("lr_state", sts);
      for (size_t i = 0; i < sts.size(); ++i) for (size_t j = 0; j < sts.size(); ++j) { *g_case = "lr_state pointers"; check(st::compare(&sts[i], &sts[j]) == (sts[i] < sts[j]), "lr_state: pointer compare disagrees with <"); check(st::compare(sts[i], sts[j]) == (sts[i] < sts[j]), "lr_state: compare disagrees with <"); }
    }
    { std::vector<lalr_builder::lr_item_id> v; for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) v.push_back(lalr_builder::lr_item_id(a, b)); order("lr_item_id", v, lt()); eqs("lr_item_id", v); eqlt("lr_item_id", v); }
}
int main(int argc, char** argv) {
    init(argc, argv);
    for (int s = 0; s < 4 * g_scale; ++s) pools(s);
    return finish();
}
