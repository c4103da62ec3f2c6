// sources: TameParse/Dfa/*.cpp TameParse/ContextFree/*.cpp TameParse/Lr/*.cpp TameParse/Util/*.cpp
// bound: 400 random grammars of 2 to 4 nonterminals, 2 to 4 terminals, EBNF items, guards, some with weak symbols; every state, every symbol; copies and assignments in random histories over four table objects
#include "cfg.h"
#include "TameParse/Lr/lalr_builder.h"
#include "TameParse/Lr/parser_tables.h"
#include "TameParse/Lr/weak_symbols.h"
#include "TameParse/Lr/ignored_symbols.h"
using namespace vh; using namespace lr;
static int score(int t) { switch (t) { case lr_action::act_guard: return 0; case lr_action::act_weakreduce: return 1; case lr_action::act_shift: case lr_action::act_shiftstrong: case lr_action::act_divert: return 2; case lr_action::act_reduce: return 3; case lr_action::act_goto: return 4; } return 5; }
typedef std::vector<int> ent;   // type, next state or (rule id, nonterminal, length)
static bool red(int t) { return t == lr_action::act_reduce || t == lr_action::act_weakreduce || t == lr_action::act_accept; }
struct expected { int states, eoi, eog; std::vector<std::map<int, std::multiset<ent> > > t, n; std::vector<bool> ends; std::map<int, std::set<int> > weak; };
static expected reference(const lalr_builder& b, const weak_symbols* w) {
    expected e; const grammar& g = b.gram(); e.states = b.count_states(); e.eoi = g.identifier_for_item(end_of_input()); e.eog = g.identifier_for_item(end_of_guard());
    for (int s = 0; s < e.states; ++s) {
        std::map<int, std::multiset<ent> > t, n; bool ends = false; const lr_action_set& as = b.actions_for_state(s);
        for (lr_action_set::const_iterator a = as.begin(); a != as.end(); ++a) {
            const lr_action& x = **a; ent v; v.push_back(x.type());
            if (red(x.type())) { v.push_back(x.rule()->identifier(g)); v.push_back(g.identifier_for_item(x.rule()->nonterminal())); v.push_back((int)x.rule()->items().size()); } else v.push_back(x.next_state());
            if (x.item()->type() == item::terminal) t[x.item()->symbol()].insert(v); else { int id = g.identifier_for_item(x.item()); n[id].insert(v); if (id == e.eog) ends = true; }
        }
        e.t.push_back(t); e.n.push_back(n); e.ends.push_back(ends);
    }
    if (w) for (weak_symbols::strong_iterator i = w->begin_strong(); i != w->end_strong(); ++i) for (item_set::const_iterator k = i->second.begin(); k != i->second.end(); ++k) if (i->first->type() == item::terminal && (*k)->type() == item::terminal) e.weak[(*k)->symbol()].insert(i->first->symbol());
    return e;
}
static ent entry(const parser_tables& p, const parser_tables::action& a) { ent v; v.push_back(a.type); if (red(a.type)) { if ((int)a.nextState >= p.count_reduce_rules()) fail("rule number out of range"); const parser_tables::reduce_rule& r = p.rule(a.nextState); v.push_back(r.ruleId); v.push_back(r.identifier); v.push_back(r.length); } else v.push_back(a.nextState); return v; }
static void row(const parser_tables& p, int s, std::map<int, std::multiset<ent> >& want, bool term, int top) {
    int total = 0; for (auto& k : want) total += (int)k.second.size();
    int n = term ? p.action_counts()[s].numTerminals : p.action_counts()[s].numNonterminals; if (n != total) fail("number of actions in state " + str(s));
    const parser_tables::action* list = term ? p.terminal_actions()[s] : p.nonterminal_actions()[s];
    for (int i = 0; i + 1 < n; ++i) if (list[i].symbolId > list[i + 1].symbolId || (list[i].symbolId == list[i + 1].symbolId && score(list[i].type) > score(list[i + 1].type))) fail("order of the actions in state " + str(s));
    for (int sym = -1; sym <= top; ++sym) {
        std::multiset<ent> got; parser_tables::action_iterator end = term ? p.last_terminal_action(s) : p.last_nonterminal_action(s);
        for (parser_tables::action_iterator i = term ? p.find_terminal(s, sym) : p.find_nonterminal(s, sym); i != end && i->symbolId == sym; ++i) got.insert(entry(p, *i));
        std::map<int, std::multiset<ent> >::iterator w = want.find(sym);
        if (w == want.end() ? !got.empty() : got != w->second) fail((term ? "terminal " : "nonterminal ") + str(sym) + " in state " + str(s) + ": the actions found are not those of the automaton");
    }
}
static void compare(const parser_tables& p, expected& e, int terms, int items) {
    if (p.count_states() != e.states) fail("number of states"); check(p.end_of_input() == e.eoi, "end of input"); check(p.end_of_guard() == e.eog, "end of guard");
    for (int s = 0; s < e.states; ++s) { row(p, s, e.t[s], true, terms); row(p, s, e.n[s], false, items); if (p.has_end_of_guard(s) != e.ends[s]) fail("has_end_of_guard of state " + str(s)); if (p.count_actions_for_state(s) != p.action_counts()[s].numTerminals + p.action_counts()[s].numNonterminals) fail("count"); }
    for (int w = 0; w <= terms; ++w) { int x = p.strong_for_weak(w); if (e.weak.count(w) ? !e.weak[w].count(x) : x != w) fail("strong_for_weak " + str(w)); }
    p.size();
}
int main(int argc, char** argv) {
    init(argc, argv); Rng r(g_seed);
    std::vector<parser_tables*> slot(4, (parser_tables*)0); std::vector<expected> se(4); std::vector<std::pair<int, int> > dims(4);
    for (int it = 0; it < 400 * g_scale; ++it) {
        if (it % 20 == 0) watchdog(120);
        cfg c(r.range(2, 4), r.range(2, 4)); c.random_rules(r, r.below(3) ? 15 : 0, r.below(3) ? 0 : 10); 
        lalr_builder b(c.g, c.d); weak_symbols* w = 0; std::string d = c.desc;
        if (r.below(3) == 0) { w = new weak_symbols(&c.g); int k = r.range(1, 2); while (k--) { int s = r.below(c.T); item_set ws(&c.g); int m = r.range(1, 3); while (m--) { int x = r.below(c.T); if (x != s) { ws.insert(c.tItem[x]); d += " weak " + str(x) + " for " + str(s); } } w->add_symbols(c.tItem[s], ws); } b.add_rewriter(action_rewriter_container(w, false)); }
        if (r.below(4) == 0) { ignored_symbols* ig = new ignored_symbols(); ig->add_item(c.tItem[0]); b.add_rewriter(action_rewriter_container(ig, true)); d += " ignore t0"; }
        begin_case(d); b.add_initial_state(c.ntItem[0]); if (r.coin()) b.add_initial_state(c.ntItem[1]); b.complete_parser();
        expected e = reference(b, w); int items = c.g.max_item_identifier() + 2;
        { parser_tables* p = new parser_tables(b, w); compare(*p, e, c.T, items); parser_tables* q = new parser_tables(*p); compare(*q, e, c.T, items); delete p; compare(*q, e, c.T, items);
          int i = r.below(4); if (slot[i]) { if (r.coin()) { *slot[i] = *q; delete q; } else { delete slot[i]; slot[i] = q; } } else slot[i] = q; se[i] = e; dims[i] = std::make_pair(c.T, items); }
        int i = r.below(4), j = r.below(4); if (slot[i] && slot[j]) { *slot[j] = *slot[i]; se[j] = se[i]; dims[j] = dims[i]; }
        for (int k = 0; k < 4; ++k) if (slot[k]) compare(*slot[k], se[k], dims[k].first, dims[k].second);
        delete w;
    }
    for (int k = 0; k < 4; ++k) delete slot[k];
    return finish();
}
