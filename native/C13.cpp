// sources: TameParse/Dfa/*.cpp TameParse/ContextFree/*.cpp TameParse/Lr/*.cpp TameParse/Util/*.cpp
// bound: 300 random histories over grammars of up to 8 rules and 8 lookahead symbols: states of up to 12 items, closure sets of up to 60 insertions, machines of up to 40 states with transitions and lookahead additions
#include "gram.h"
#include "TameParse/Lr/lalr_machine.h"
#include "TameParse/Lr/lr1_item_set.h"
using namespace vh; using namespace lr;
typedef std::pair<int, int> dotted;                  // which rule, where the dot is
typedef std::set<int> look;
static std::vector<ditem> symbols; static std::vector<rule_container> rules; static grammar* g;
static look members(const item_set& s) { look r; for (item_set::const_iterator i = s.begin(); i != s.end(); ++i) for (size_t k = 0; k < symbols.size(); ++k) if (**i == *symbols[k].first) r.insert((int)k); if (r.size() != s.size()) fail("a lookahead set holds something that was never added"); return r; }
static item_set random_look(Rng& r, look& l, bool eps) { item_set s(g); int n = r.below(4); while (n--) { int k = r.below((int)symbols.size()); if (symbols[k].first->type() == item::empty && !eps) continue; s.insert(symbols[k].first); l.insert(k); } return s; }
static lr0_item_container make(dotted d) { return lr0_item_container(new lr0_item(g, rules[d.first], d.second), true); }
static bool same(const lr0_item& i, dotted d) { return i.offset() == d.second && i.rule()->identifier(*g) == rules[d.first]->identifier(*g); }
static dotted random_dotted(Rng& r) { int k = r.below((int)rules.size()); return dotted(k, r.below((int)rules[k]->items().size() + 1)); }
struct state_model { std::vector<dotted> items; std::vector<look> la; int find(dotted d) const { for (size_t i = 0; i < items.size(); ++i) if (items[i] == d) return (int)i; return -1; } };
static void agree(const lalr_state& s, const state_model& m, Rng& r) {
    check(s.count_items() == (int)m.items.size(), "number of items in a state");
    int n = 0; for (lalr_state::iterator i = s.begin(); i != s.end(); ++i, ++n) check(n < (int)m.items.size() && same(**i, m.items[n]), "items of a state are in order of first addition"); check(n == (int)m.items.size(), "every item of a state is visited");
    for (n = 0; n < (int)m.items.size(); ++n) { check(same(*s[n], m.items[n]), "item with this number"); check(s.find_identifier(make(m.items[n])) == n, "number of this item"); if (members(s.lookahead_for(n)) != m.la[n]) fail("lookahead of item " + str(n)); }
    dotted d = random_dotted(r); check(s.find_identifier(make(d)) == m.find(d), "items that are not there have no number");
}
static void add_item(lalr_state& s, state_model& m, dotted d) { int want = m.find(d); if (want < 0) { want = (int)m.items.size(); m.items.push_back(d); m.la.push_back(look()); } check(s.add(make(d), g) == want, "number of the added item"); }
int main(int argc, char** argv) {
    init(argc, argv); Rng r(g_seed);
    for (int it = 0; it < 300 * g_scale; ++it) {
        watchdog(60); g = new grammar(); symbols.clear(); rules.clear(); std::string d;
        std::set<std::string> have; for (int k = 0; k < 14; ++k) { ditem i = gitem(r, 1); if (have.insert(i.second).second) symbols.push_back(i); }
        have.clear(); for (int k = r.range(2, 8); k > 0; --k) { drule x = grule(r, 1); if (have.insert(x.second).second) { rules.push_back(x.first); d += x.second + "; "; } }
        begin_case(d + " seed " + str((int)it), true);
        // states
        std::vector<lalr_state_container> c; std::vector<state_model> m;
        int ns = r.range(1, 12); dotted few[3] = { random_dotted(r), random_dotted(r), random_dotted(r) };
        for (int k = 0; k < ns; ++k) { lalr_state_container s; state_model x; int n = r.below(k % 3 ? 4 : 13); while (n--) add_item(*s, x, r.below(3) ? few[r.below(3)] : random_dotted(r)); agree(*s, x, r); c.push_back(s); m.push_back(x); }
        for (int a = 0; a < ns; ++a) for (int b = 0; b < ns; ++b) {
            bool eq = m[a].items == m[b].items; check((*c[a] == *c[b]) == eq, "equality of states"); check((*c[a] != *c[b]) == !eq, "inequality of states");
            check((*c[a] < *c[b]) + (*c[b] < *c[a]) + eq == 1, "order of states"); for (int e = 0; e < ns; ++e) if (*c[a] < *c[b] && *c[b] < *c[e]) check(*c[a] < *c[e], "order of states is transitive");
        }
        // a machine
        lalr_machine mach(*g); std::vector<state_model> kept; std::vector<std::map<int, int> > trans;
        for (int step = r.range(5, 60); step > 0; --step) switch (r.below(4)) {
            case 0: {
                int k = r.below(ns); lalr_state_container s = r.coin() ? c[k] : lalr_state_container(new lalr_state(*c[k]), true); state_model x = m[k]; if (&*s == &*c[k]) { }
                int want = -1; for (size_t i = 0; i < kept.size(); ++i) if (kept[i].items == x.items) want = (int)i; bool fresh = want < 0;
                if (fresh) { want = (int)kept.size(); for (size_t i = 0; i < x.items.size(); ++i) x.la[i] = members(s->lookahead_for((int)i)); kept.push_back(x); trans.push_back(std::map<int, int>()); }
                check(mach.add_state(s) == want, "number of the added state"); check(s->identifier() == want, "the state knows its number"); check(mach.count_states() == (int)kept.size(), "number of states");
                break; }
            case 1: if (!kept.empty()) { int s = r.below((int)kept.size()), t = r.below((int)kept.size() + 2) - 1, i = r.below((int)symbols.size()); mach.add_transition(s, symbols[i].first, t); if (t >= 0 && t < (int)kept.size() && !trans[s].count(i)) trans[s][i] = t; } break;
            default: if (!kept.empty()) {
                int s = r.below((int)kept.size()); look l; item_set add = random_look(r, l, true); int i = kept[s].items.empty() || r.below(5) == 0 ? -1 : r.below((int)kept[s].items.size()); bool grew = false;
                for (int k : l) if (i >= 0 && symbols[k].first->type() != item::empty) grew |= kept[s].la[i].insert(k).second;
                bool got; if (i >= 0 && r.coin()) { dotted x = kept[s].items[i]; got = mach.add_lookahead(s, *make(x), add); } else if (i < 0) { dotted x; do x = random_dotted(r); while (kept[s].find(x) >= 0 && r.below(20)); if (kept[s].find(x) >= 0) got = mach.add_lookahead(s, -1, add); else got = mach.add_lookahead(s, *make(x), add); } else got = mach.add_lookahead(s, i, add);
                check(got == grew, "report of lookahead growth"); }
        }
        check(mach.count_states() == (int)kept.size(), "number of states"); int n = 0; for (lalr_machine::state_iterator i = mach.first_state(); i != mach.last_state(); ++i, ++n) check(&**i == &*mach.state_with_id(n), "states are numbered in order");
        for (n = 0; n < (int)kept.size(); ++n) { check(mach.state_with_id(n)->identifier() == n, "a state knows its number"); agree(*mach.state_with_id(n), kept[n], r); const lalr_machine::transition_set& t = mach.transitions_for_state(n); check(t.size() == trans[n].size(), "number of transitions"); for (auto& x : trans[n]) { lalr_machine::transition_set::const_iterator f = t.find(symbols[x.first].first); check(f != t.end() && f->second == x.second, "transition"); } }
        // closure sets
        lr1_item_set cs; std::map<dotted, look> cm;
        for (int step = r.range(1, 60); step > 0; --step) {
            dotted x = random_dotted(r); look l; item_set add = random_look(r, l, true); lr1_item_container i(new lr1_item(g, rules[x.first], x.second, add), true); bool fresh = !cm.count(x); look before = cm[x]; cm[x].insert(l.begin(), l.end());
            std::pair<lr1_item_set::iterator, bool> got = cs.insert(i); check(got.second == (fresh || cm[x] != before), "report of a change to a closure set"); check(same((*got.first)->get_lr0_item(), x) && members((*got.first)->lookahead()) == cm[x], "entry returned by insert"); check(cs.size() == cm.size(), "size of a closure set");
        }
        std::set<dotted> seen; for (lr1_item_set::const_iterator i = cs.begin(); i != cs.end(); ++i) { int hits = 0; for (auto& x : cm) if (same((*i)->get_lr0_item(), x.first)) { ++hits; seen.insert(x.first); if (members((*i)->lookahead()) != x.second) fail("lookahead in a closure set"); } check(hits == 1, "an item of a closure set was added once"); } check(seen.size() == cm.size() && cs.empty() == cm.empty(), "every item of a closure set is there");
        c.clear(); rules.clear(); symbols.clear();
        // the machine's items refer to the grammar: it goes last
    }
    return finish();
}
