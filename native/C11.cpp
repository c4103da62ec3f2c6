// sources: TameParse/Dfa/*.cpp TameParse/ContextFree/*.cpp TameParse/Lr/*.cpp TameParse/Util/*.cpp
// bound: random histories of 120 operations on four item sets over one grammar of 140 items (identifiers 0 to 140, mostly around word boundaries), and a directed set of histories: every pair of identifiers from a list inserted, erased, merged in both orders
#include "vh.h"
#include "TameParse/ContextFree/grammar.h"
#include "TameParse/ContextFree/item_set.h"
using namespace vh;
using namespace contextfree;
typedef std::set<int> ref;
static std::vector<item_container> keep;
static std::string show(const ref& r) { std::string s = "{"; for (ref::const_iterator i = r.begin(); i != r.end(); ++i) s += str(*i) + " "; return s + "}"; }
static int cmp_same(const item_set& a, const item_set& b) { return (a == b) - (a != b); }
static void compare(const item_set& s, const ref& r, const grammar& g) {
    if (s.size() != r.size()) fail("size " + str((int)s.size()) + " of " + show(r)); check(s.empty() == r.empty(), "empty");
    for (int i = -70; i <= 210; ++i) if (s.contains(i) != (r.count(i) > 0)) fail("contains " + str(i) + " in " + show(r));
    ref::const_iterator e = r.begin(); int n = 0;
    for (item_set::iterator it = s.begin(); it != s.end(); ++it) {
        if (++n > 400) { fail("iteration does not end"); break; }
        if (e == r.end()) { fail("iteration goes past the last member of " + show(r)); break; }
        if (!(*it == keep[*e])) fail("iteration order in " + show(r)); ++e;
    }
    if (e != r.end()) fail("iteration missed a member of " + show(r));
}
static void order(const item_set& a, const item_set& b, bool same) {
    check(cmp_same(a, b) == (same ? 1 : -1), "== of sets with " + std::string(same ? "the same" : "different") + " members");
    int lt = a < b, gt = b < a; check(lt + gt + same == 1, "exactly one of <, ==, > holds");
    check((a > b) == gt && (a <= b) == !gt && (a >= b) == !lt, "derived comparisons");
}
int main(int argc, char** argv) {
    init(argc, argv);
    grammar g; std::vector<item_container> items;
    { item_container e(new empty_item(), true); items.push_back(e); g.identifier_for_item(e); }
    for (int i = 1; i <= 140; ++i) { items.push_back(item_container(new terminal(i), true)); if (g.identifier_for_item(items.back()) != i) { begin_case("setup", false); fail("identifiers are not dense"); return finish(); } }
    keep = items;
    static const int ids[] = { 0, 1, 2, 30, 31, 32, 33, 62, 63, 64, 65, 95, 96, 97, 127, 128, 139, 140 }; const int nids = sizeof(ids) / sizeof(ids[0]);
    for (int a = 0; a < nids; ++a) for (int b = 0; b < nids; ++b) for (int variant = 0; variant < 6; ++variant) {
        int x = ids[a], y = ids[b]; begin_case("insert " + str(x) + ", " + str(y) + " variant " + str(variant), x != y);
        item_set s(g), t(&g), u; u.set_grammar(&g); ref rs, rt;
        check(s.insert(x), "insert reports a change"); rs.insert(x);
        check(t.insert(items[y]) , "insert reports a change"); rt.insert(y);
        if (variant & 1) { check(s.insert(y) == (x != y), "second insert"); rs.insert(y); compare(s, rs, g); check(s.erase(y) == true, "erase"); rs.erase(y); compare(s, rs, g); check(!s.erase(y), "erase of an item not in the set"); }
        compare(s, rs, g); compare(t, rt, g); order(s, t, rs == rt);
        u = s; order(u, s, true); bool ch = s.merge(t); check(ch == (rs.count(y) == 0), "merge reports whether the set changed"); rs.insert(y); compare(s, rs, g); check(!s.merge(t), "merge again");
        if (variant & 2) { check(s.erase(items[x]) == (rs.count(x) > 0), "erase of an item"); rs.erase(x); compare(s, rs, g); item_set c(s); order(c, s, true); compare(c, rs, g); order(s, t, rs == rt); order(t, s, rs == rt); }
        if (variant & 4) { t = s; compare(t, rs, g); t.insert(140); compare(s, rs, g); s = s; compare(s, rs, g); check(!s.merge(s), "merge with itself"); compare(s, rs, g); }
    }
    Rng r(g_seed * 31 + 7);
    for (int h = 0; h < 300 * g_scale; ++h) {
        if (h % 20 == 0) watchdog();
        item_set s[4]; ref m[4]; std::string hist; for (int i = 0; i < 4; ++i) s[i].set_grammar(&g);
        for (int step = 0; step < 120; ++step) {
            int i = r.below(4), j = r.below(4), x = r.coin() ? ids[r.below(nids)] : r.below(141), op = r.below(9);
            hist += str(op) + ":" + str(i) + "," + str(j) + "," + str(x) + " "; begin_case("history " + hist, step > 3);
            switch (op) {
                case 0: case 1: case 2: check((r.coin() ? s[i].insert(x) : s[i].insert(items[x])) == m[i].insert(x).second, "insert reports a change"); break;
                case 3: case 4: case 5: check((r.coin() ? s[i].erase(x) : s[i].erase(items[x])) == (m[i].erase(x) > 0), "erase reports a change"); break;
                case 6: { size_t n = m[i].size(); m[i].insert(m[j].begin(), m[j].end()); check(s[i].merge(s[j]) == (m[i].size() != n), "merge reports a change"); break; }
                case 7: if (r.below(3) == 0) { s[i] = s[j]; m[i] = m[j]; } break;
                case 8: if (r.below(6) == 0) { s[i] = item_set(g); m[i].clear(); } else { item_set c(s[j]); compare(c, m[j], g); if (c.erase(x)) compare(s[j], m[j], g); } break;
            }
            compare(s[i], m[i], g); order(s[i], s[j], m[i] == m[j]);
        }
    }
    return finish();
}
