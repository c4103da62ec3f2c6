// sources: TameParse/Dfa/*.cpp TameParse/ContextFree/*.cpp TameParse/Lr/*.cpp TameParse/Util/*.cpp
// bound: random grammars of 1 to 5 nonterminals, 2 to 4 terminals, up to 3 rules each of up to 4 items, nested EBNF items, with left and mutual recursion and nullable rules; every item queried in a random order, before and after adding rules; reference FIRST and FOLLOW by the textbook fixpoints over the grammar with EBNF items written out
#include "vh.h"
#include "cfg.h"
using namespace vh;
static void one(cfg& c, Rng& r, bool guards) {
    std::vector<bool> e = c.nullable(); std::vector<std::set<csym> > f = c.first(e);
    item_container eps(new empty_item(), true);
    auto compare = [&](const item_set& got, const std::set<csym>& want, bool nullable, const std::string& what) {
        for (int t = 0; t < c.T; ++t) { csym s; s.k = 't'; s.id = t; bool w = want.count(s) != 0; check(got.contains(c.tItem[t]) == w, what + ": terminal t" + str(t) + (w ? " is missing" : " should not be there")); }
        check(got.contains(eps) == nullable, what + ": the empty marker " + (nullable ? "is missing" : "should not be there"));
    };
    std::vector<int> order; for (size_t i = 0; i < c.P.size(); ++i) order.push_back((int)i);
    for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[r.below((int)k)]);
    bool followFirst = r.coin();
    for (int pass = 0; pass < 2; ++pass) {
        if ((pass == 0) != followFirst) {
            for (int n : order) compare(c.g.first(c.ntItem[n]), f[n], e[n], "FIRST of item " + str(n));
            for (int t = 0; t < c.T; ++t) { std::set<csym> w; csym s; s.k = 't'; s.id = t; w.insert(s); compare(c.g.first(c.tItem[t]), w, false, "FIRST of a terminal"); }
            { std::set<csym> w; compare(c.g.first(eps), w, true, "FIRST of the empty item"); }
            for (int n = 0; n < c.N; ++n) {
                const rule_list& rl = ((const grammar&)c.g).rules_for_nonterminal(c.g.id_for_nonterminal(c.ntName(n)));
                check(rl.size() == c.P[n].size(), "number of rules");
                int k = 0;
                for (rule_list::const_iterator it = rl.begin(); it != rl.end(); ++it, ++k) {
                    const crule& x = c.P[n][k]; std::set<csym> w; bool nul = true;
                    for (const csym& s : x) { if (s.k == 't' || s.k == 'g') w.insert(s); if (s.k == 'n') w.insert(f[s.id].begin(), f[s.id].end()); if (!(s.k == 'e' || (s.k == 'n' && e[s.id]))) { nul = false; break; } }
                    compare(c.g.first_for_rule(**it), w, nul, "FIRST of rule " + str(k) + " of nonterminal " + str(n));
                }
            }
        } else {
            // FOLLOW over every rule of the grammar (including those of unreachable nonterminals); the library may add more
            std::vector<std::set<int> > fo(c.P.size()); bool ch = true;
            while (ch) { ch = false;
                for (size_t n = 0; n < c.P.size(); ++n) for (const crule& x : c.P[n]) for (size_t p = 0; p < x.size(); ++p) if (x[p].k == 'n') {
                    size_t before = fo[x[p].id].size(); bool nul = true;
                    for (size_t q = p + 1; q < x.size() && nul; ++q) {
                        if (x[q].k == 't') fo[x[p].id].insert(x[q].id);
                        if (x[q].k == 'n') for (const csym& s : f[x[q].id]) if (s.k == 't') fo[x[p].id].insert(s.id);
                        nul = x[q].k == 'e' || (x[q].k == 'n' && e[x[q].id]);
                    }
                    if (nul) fo[x[p].id].insert(fo[n].begin(), fo[n].end());
                    if (fo[x[p].id].size() != before) ch = true;
                } }
            for (int n = 0; n < c.N; ++n) for (int t : fo[n]) check(c.g.follow(c.ntItem[n]).contains(c.tItem[t]), "FOLLOW of nonterminal " + str(n) + ": terminal t" + str(t) + " is missing");
        }
    }
}
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(g_seed);
    int cases = 6000 * g_scale;
    for (int i = 0; i < cases; ++i) {
        watchdog(60);
        cfg* c = new cfg(r.range(2, 4), r.range(1, 5));
        bool guards = r.below(8) == 0;
        c->random_rules(r, r.below(3) * 15, guards ? 10 : 0, 3, 4);
        begin_case(c->desc, c->desc.size() > 30);
        one(*c, r, guards);
        if (r.below(3) == 0) {           // the sets follow changes to the grammar
            int n = r.below(c->N); crule ref; rule_container rc(new rule(c->ntItem[n]), true); std::string s = c->sequence(r, *rc, ref, r.below(3), 1, 20, 0);
            c->g.rules_for_nonterminal(c->ntName(n)).push_back(rc); c->g.clear_caches(); c->P[n].push_back(ref);
            c->desc += "then N" + std::string(1, (char)('A' + n)) + " -> " + s; begin_case(c->desc);
            one(*c, r, guards);
        }
        delete c;
    }
    return finish();
}
