// sources: TameParse/Dfa/*.cpp TameParse/Util/*.cpp
// bound: random automata of up to 7 states (up to 3 start states), overlapping classes over 5 symbols, epsilon transitions and cycles, up to 3 accept actions per state, some eager; each result is compared with the original by exploring all pairs of reachable state sets (every string, of any length)
#include "vh.h"
#include "TameParse/Dfa/ndfa.h"
using namespace vh;
using dfa::ndfa;
static const int SYMS = 5;
typedef std::set<int> sset;
typedef std::set<std::pair<int, bool> > actions;

// plain simulation of an automaton, per symbol
static sset closure(const ndfa& a, sset s) {
    std::vector<int> w(s.begin(), s.end());
    while (!w.empty()) { int q = w.back(); w.pop_back(); const dfa::state& st = a.get_state(q);
        for (dfa::state::iterator t = st.begin(); t != st.end(); ++t) { dfa::symbol_set c(a.symbols()[t->symbol_set()]); if (c.empty() && s.insert(t->new_state()).second) w.push_back(t->new_state()); } }
    return s;
}
static actions acts(const ndfa& a, const sset& s) { actions r; for (int q : s) { const ndfa::accept_action_list& l = a.actions_for_state(q); for (size_t i = 0; i < l.size(); ++i) r.insert(std::make_pair(l[i]->symbol(), l[i]->eager())); } return r; }
static bool eager(const actions& x) { for (auto& p : x) if (p.second) return true; return false; }
static sset step(const ndfa& a, const sset& s, int sym) {
    sset r; if (eager(acts(a, s))) return r;
    for (int q : s) { const dfa::state& st = a.get_state(q); for (dfa::state::iterator t = st.begin(); t != st.end(); ++t) { dfa::symbol_set c(a.symbols()[t->symbol_set()]); if (c[sym]) r.insert(t->new_state()); } }
    return closure(a, r);
}
static std::string show(const ndfa& a) {
    std::string d;
    for (int q = 0; q < a.count_states(); ++q) { const dfa::state& st = a.get_state(q); d += " " + str(q) + ":";
        for (dfa::state::iterator t = st.begin(); t != st.end(); ++t) { dfa::symbol_set c(a.symbols()[t->symbol_set()]); if (c.empty()) d += "eps"; for (int k = 0; k < 8; ++k) if (c[k]) d += (char)('a' + k); d += ">" + str(t->new_state()) + ","; }
        const ndfa::accept_action_list& l = a.actions_for_state(q); for (size_t i = 0; i < l.size(); ++i) d += "!" + str(l[i]->symbol()) + (l[i]->eager() ? "e" : ""); }
    return d;
}
// the pairs of state sets reached by the same string carry the same actions
static void same(const ndfa& a, int sa, const ndfa& b, int sb, bool firstOnly, const std::string& what) {
    std::map<std::pair<sset, sset>, std::string> seen; std::vector<std::pair<sset, sset> > w;
    sset x0; x0.insert(sa); sset y0; y0.insert(sb);
    std::pair<sset, sset> s0(closure(a, x0), closure(b, y0)); seen[s0] = ""; w.push_back(s0);
    while (!w.empty()) {
        std::pair<sset, sset> p = w.back(); w.pop_back(); std::string str0 = seen[p];
        actions u = acts(a, p.first), v = acts(b, p.second);
        bool ok = firstOnly ? (u.empty() == v.empty() && (u.empty() || u.begin()->first == v.begin()->first)) : u == v;
        if (!ok) fail(what + ": different accept actions after \"" + str0 + "\" from start state " + str(sa) + "; result is" + show(b));
        if (eager(u)) continue;
        for (int k = 0; k <= SYMS; ++k) {
            std::pair<sset, sset> n(step(a, p.first, k), step(b, p.second, k));
            if (n.first.empty() && n.second.empty()) continue;
            if (seen.insert(std::make_pair(n, str0 + (char)('a' + k))).second) w.push_back(n);
        }
    }
}
static void well_formed(const ndfa& a, bool det, const std::string& what) {
    for (int q = 0; q < a.count_states(); ++q) {
        const dfa::state& st = a.get_state(q); std::set<int> used;
        check(st.identifier() == q, what + ": state " + str(q) + " has identifier " + str(st.identifier()));
        for (dfa::state::iterator t = st.begin(); t != st.end(); ++t) {
            check(t->new_state() >= 0 && t->new_state() < a.count_states(), what + ": transition to a state that does not exist");
            check(t->symbol_set() >= 0 && t->symbol_set() < a.symbols().count_sets(), what + ": transition on a class that does not exist");
            if (det) { check(used.insert(t->symbol_set()).second, what + ": two transitions on one class"); dfa::symbol_set c(a.symbols()[t->symbol_set()]); check(!c.empty(), what + ": epsilon transition"); }
        }
    }
}
static void no_overlap(const ndfa& a, const std::string& what) {
    for (int k = 0; k <= SYMS; ++k) { int c = 0; for (int i = 0; i < a.symbols().count_sets(); ++i) { dfa::symbol_set s(a.symbols()[i]); c += s[k]; } check(c <= 1, what + ": overlapping classes"); }
}

int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(g_seed);
    int cases = 4000 * g_scale;
    for (int i = 0; i < cases; ++i) {
        watchdog(60);
        ndfa a; int n = r.range(1, 7); while (a.count_states() < n) a.add_state();
        int kind = r.below(4);      // 0: few overlapping classes, 1: general, 2: deterministic already, 3: single symbols
        bool anyEager = r.below(4) == 0;
        int tr = r.range(0, 3 * n);
        std::set<std::pair<int, int> > det;
        for (int t = 0; t < tr; ++t) {
            int from = r.below(n), to = r.below(n);
            if (kind != 2 && r.below(5) == 0) { a.add_transition(from, dfa::epsilon(), to); continue; }
            dfa::symbol_set s;
            if (kind == 2 || kind == 3) { int k = r.below(SYMS); if (kind == 2 && !det.insert(std::make_pair(from, k)).second) continue; s |= dfa::range<int>(k, k + 1); }
            else for (int q = r.range(1, 2); q > 0; --q) { int lo = r.below(SYMS), hi = r.range(lo + 1, SYMS); s |= dfa::range<int>(lo, hi); }
            a.add_transition(from, s, to);
        }
        for (int q = 0; q < n; ++q) for (int c = r.below(3) ? 0 : r.range(1, 3); c > 0; --c) a.accept(q, dfa::accept_action(r.below(4), anyEager && r.below(4) == 0));
        std::vector<int> init; init.push_back(r.below(4) ? 0 : r.below(n)); while (r.below(3) == 0 && init.size() < 3) init.push_back(r.below(n));
        begin_case("start " + strv(init) + show(a), tr > 2);

        ndfa* u = a.to_ndfa_with_unique_symbols();
        well_formed(*u, false, "unique symbols"); no_overlap(*u, "unique symbols");
        check(u->verify_no_symbol_overlap(), "verify_no_symbol_overlap");
        for (int q = 0; q < n; ++q) same(a, q, *u, q, false, "unique symbols");
        ndfa* d = u->to_dfa(init);
        well_formed(*d, true, "to_dfa"); no_overlap(*d, "to_dfa"); check(d->is_dfa() && d->verify_is_dfa() && d->verify_no_symbol_overlap(), "to_dfa: not reported as deterministic");
        std::vector<int> dinit; for (size_t k = 0; k < init.size(); ++k) { same(a, init[k], *d, (int)k, false, "to_dfa"); dinit.push_back((int)k); }
        if (i % 3 == 0) { ndfa* dd = u->to_dfa(init[0]); same(a, init[0], *dd, 0, false, "to_dfa with one start state"); delete dd; }
        for (int first = 0; first < 2; ++first) {
            ndfa* c = d->to_compact_dfa(dinit, first != 0); std::string w = first ? "to_compact_dfa (first action)" : "to_compact_dfa";
            well_formed(*c, true, w); no_overlap(*c, w); check(c->is_dfa() && c->count_states() <= d->count_states() + 1, w + ": not a smaller deterministic automaton");
            for (size_t k = 0; k < init.size(); ++k) same(*d, (int)k, *c, (int)k, first != 0, w);
            ndfa* m = c->to_ndfa_with_merged_symbols();
            well_formed(*m, true, "merged symbols"); no_overlap(*m, "merged symbols"); check(m->is_dfa(), "merged symbols: not deterministic");
            for (int q = 0; q < c->count_states(); ++q) same(*c, q, *m, q, false, "merged symbols");
            delete c; delete m;
        }
        // merging on the automata of the earlier stages
        ndfa* m1 = d->to_ndfa_with_merged_symbols(); well_formed(*m1, true, "merged symbols"); for (int q = 0; q < d->count_states(); ++q) same(*d, q, *m1, q, false, "merged symbols"); delete m1;
        ndfa* m2 = u->to_ndfa_with_merged_symbols(); well_formed(*m2, false, "merged symbols (nondeterministic)"); for (int q = 0; q < n; ++q) same(*u, q, *m2, q, false, "merged symbols (nondeterministic)"); delete m2;
        ndfa* m3 = a.to_ndfa_with_merged_symbols(); well_formed(*m3, false, "merged symbols (overlapping)"); for (int q = 0; q < n; ++q) same(a, q, *m3, q, false, "merged symbols (overlapping)"); delete m3;
        delete u; delete d;
    }
    return finish();
}
