// sources: TameParse/Dfa/symbol_set.cpp
// bound: all sets over 7 symbols built from 1..3 ranges with all single range operations (exhaustive), random sequences of 12 operations over symbols -3..40 and extreme symbols
#include "vh.h"
#include "TameParse/Dfa/symbol_set.h"
#include "TameParse/Dfa/epsilon.h"
using namespace dfa;
using namespace vh;
typedef range<int> R;
static std::string show(const symbol_set& s) { std::ostringstream o; for (symbol_set::iterator i = s.begin(); i != s.end(); ++i) o << "[" << i->lower() << "," << i->upper() << ")"; return o.str(); }
static const int MAXS = 0x7fffffff;
// model: sorted list of canonical ranges computed independently over long long
typedef std::vector<std::pair<long long, long long> > Model;
static Model norm(Model m) {
    Model r, s;
    for (auto& p : m) if (p.first < p.second) s.push_back(p);
    std::sort(s.begin(), s.end());
    for (auto& p : s) { if (!r.empty() && p.first <= r.back().second) { if (p.second > r.back().second) r.back().second = p.second; } else r.push_back(p); }
    return r;
}
static Model uni(Model a, const Model& b) { a.insert(a.end(), b.begin(), b.end()); return norm(a); }
static Model diff(const Model& a, const Model& b) {
    Model r;
    for (auto p : a) {
        long long lo = p.first;
        for (auto& q : b) { if (q.second <= lo || q.first >= p.second) continue; if (q.first > lo) r.push_back(std::make_pair(lo, q.first)); lo = std::max(lo, q.second); }
        if (lo < p.second) r.push_back(std::make_pair(lo, p.second));
    }
    return norm(r);
}
static Model inv(const Model& a) { Model u(1, std::make_pair(0LL, (long long)MAXS)); return diff(u, a); }
static void same(symbol_set& s, const Model& m, const char* what, const std::vector<int>& probes) {
    size_t n = 0; bool ok = true;
    for (symbol_set::iterator i = s.begin(); i != s.end(); ++i, ++n) if (n >= m.size() || i->lower() != m[n].first || i->upper() != m[n].second) { ok = false; break; }
    if (!ok || n != m.size()) { std::ostringstream o; o << what << ": set is " << show(s) << " expected"; for (auto& p : m) o << "[" << p.first << "," << p.second << ")"; fail(o.str()); }
    check(s.empty() == m.empty(), std::string(what) + ": empty()");
    for (int x : probes) { bool in = false; for (auto& p : m) if (p.first <= x && x < p.second) in = true; if (s[x] != in) fail(std::string(what) + ": membership of " + str(x) + " in " + show(s)); }
}
static bool universe(const Model& m) { for (auto& p : m) if (p.first < 0 || p.second > MAXS) return false; return true; }
int main(int argc, char** argv) {
    init(argc, argv);
    // range predicates, exhaustive over small ranges
    for (int a = 0; a < 5; ++a) for (int b = a; b < 6; ++b) for (int c = 0; c < 5; ++c) for (int d = c; d < 6; ++d) {
        R x(a, b), y(c, d);
        begin_case("ranges (" + str(a) + "," + str(b) + ") (" + str(c) + "," + str(d) + ")", a < b && c < d);
        bool share = false; for (int i = 0; i < 7; ++i) { check(x[i] == (a <= i && i < b), "range membership"); if (x[i] && y[i]) share = true; }
        if (a < b && c < d) { check(x.overlaps(y) == share, "overlaps"); check(x.neighbours(y) == (b == c || a == d), "neighbours"); check(x.can_merge(y) == (share || b == c || a == d), "can_merge"); }
        if (x.can_merge(y)) { R m = x.merge(y); check(m.lower() == std::min(a, c) && m.upper() == std::max(b, d), "merge"); }
        check((x == y) == (a == c && b == d), "range =="); check((x != y) == !(x == y), "range !=");
        bool lt = a < c || (a == c && b < d); check((x < y) == lt, "range <"); check((x <= y) == (lt || x == y), "range <="); check((x > y) == !(lt || x == y), "range >"); check((x >= y) == !lt, "range >=");
        R z(x); check(z == x, "range copy"); z = y; check(z == y, "range assign");
    }
    { R one(7); check(one.lower() == 7 && one.upper() == 8, "single value range"); }
    // exhaustive: bitmask of symbols 1..7, one range operation of each kind
    for (int mask = 0; mask < 128; ++mask) {
        Model m; for (int i = 0; i < 7; ++i) if (mask >> i & 1) m.push_back(std::make_pair((long long)i + 1, (long long)i + 2));
        m = norm(m);
        watchdog();
        for (int lo = 0; lo < 9; ++lo) for (int hi = lo; hi < 10; ++hi) for (int op = 0; op < 3; ++op) {
            symbol_set s; for (auto& p : m) s |= R((int)p.first, (int)p.second);
            begin_case("set mask=" + str(mask) + " op=" + str(op) + " range(" + str(lo) + "," + str(hi) + ")", mask != 0 && lo < hi);
            std::vector<int> pr; for (int i = -1; i < 11; ++i) pr.push_back(i);
            Model r(1, std::make_pair((long long)lo, (long long)hi)); r = norm(r);
            Model e;
            if (op == 0) { s |= R(lo, hi); e = uni(m, r); }
            if (op == 1) { s.exclude(R(lo, hi)); e = diff(m, r); }
            if (op == 2) { s &= R(lo, hi); e = diff(m, inv(r)); }
            same(s, e, op == 0 ? "|= range" : op == 1 ? "exclude range" : "&= range", pr);
        }
        symbol_set s; for (auto& p : m) s |= R((int)p.first, (int)p.second);
        std::vector<int> pr; for (int i = -1; i < 11; ++i) pr.push_back(i);
        begin_case("invert mask=" + str(mask)); symbol_set v = ~s; same(v, inv(m), "~", pr); v.invert(); same(v, m, "invert twice", pr);
        for (int mask2 = 0; mask2 < 128; mask2 += (g_scale > 1 ? 1 : 3)) {
            Model m2; for (int i = 0; i < 7; ++i) if (mask2 >> i & 1) m2.push_back(std::make_pair((long long)i + 1, (long long)i + 2));
            m2 = norm(m2);
            symbol_set t; for (size_t i = m2.size(); i-- > 0;) t |= R((int)m2[i].first, (int)m2[i].second);
            begin_case("sets mask=" + str(mask) + "," + str(mask2), mask && mask2);
            symbol_set a = s | t, b = s & t, c = s.excluding(t);
            same(a, uni(m, m2), "|", pr); same(b, diff(m, inv(m2)), "&", pr); same(c, diff(m, m2), "excluding", pr);
            check((s == t) == (mask == mask2), "=="); check((s != t) == (mask != mask2), "!=");
        }
    }
    // random sequences
    Rng rng(g_seed);
    long n = 6000L * g_scale;
    for (long it = 0; it < n; ++it) {
        watchdog();
        symbol_set s[2]; Model m[2]; std::ostringstream log;
        int ops = rng.range(1, 12);
        for (int o = 0; o < ops; ++o) {
            int w = rng.below(2), k = rng.below(12);
            long long lo, hi;
            int kind = rng.below(8);
            if (kind == 0) { lo = MAXS - rng.range(0, 4); hi = MAXS; }
            else if (kind == 1) { lo = rng.range(0, 30); hi = MAXS - rng.range(0, 3); }
            else if (kind == 2 && k < 4) { lo = -rng.range(1, 6); hi = rng.range(-3, 10); }
            else { lo = rng.range(0, 40); hi = lo + rng.range(0, 9); }
            R r((int)lo, (int)hi);
            Model rm = norm(Model(1, std::make_pair(lo, hi)));
            std::string rs = "(" + str(lo) + "," + str(hi) + ")";
            char nm[4] = { 's', (char)('0' + w), 0, 0 };
            if (k < 4) { log << nm << "|=" << rs << "; "; *g_case = log.str(); s[w] |= r; m[w] = uni(m[w], rm); }
            else if (k < 6) { log << nm << ".exclude" << rs << "; "; *g_case = log.str(); s[w].exclude(r); m[w] = diff(m[w], rm); }
            else if (k == 6) { if (!universe(m[w])) continue; log << nm << ".invert(); "; *g_case = log.str(); s[w].invert(); m[w] = inv(m[w]); }
            else if (k == 7) { int v = rng.below(2); log << nm << "|=s" << v << "; "; *g_case = log.str(); s[w] |= s[v]; m[w] = uni(m[w], m[v]); }
            else if (k == 8) { int v = rng.below(2); log << nm << ".exclude(s" << v << "); "; *g_case = log.str(); s[w].exclude(s[v]); m[w] = diff(m[w], m[v]); }
            else if (k == 9) { int v = rng.below(2); if (!universe(m[w]) || !universe(m[v])) continue; log << nm << "&=s" << v << "; "; *g_case = log.str(); s[w] &= s[v]; m[w] = diff(m[w], inv(m[v])); }
            else if (k == 10) { log << nm << "=s" << (1 - w) << "; "; *g_case = log.str(); s[w] = s[1 - w]; m[w] = m[1 - w]; }
            else { if (!universe(m[w]) || lo < 0 || hi > MAXS) continue; log << nm << "&=" << rs << "; "; *g_case = log.str(); s[w] &= r; m[w] = diff(m[w], inv(rm)); }
            std::vector<int> pr; for (int i = 0; i < 6; ++i) pr.push_back(rng.range(-4, 52)); pr.push_back((int)lo); pr.push_back((int)hi); pr.push_back((int)lo - 1); pr.push_back(MAXS); pr.push_back(MAXS - 1);
            same(s[w], m[w], "sequence", pr);
        }
        begin_case(log.str(), ops > 2);
        check((s[0] == s[1]) == (m[0] == m[1]), "== after sequence");
        symbol_set c(s[0]); check(c == s[0], "copy"); symbol_set* d = s[0].clone(); check(*d == s[0], "clone"); delete d;
        if (!m[0].empty()) { symbol_set e(s[0]); e.exclude(*e.begin()); Model em(m[0].begin() + 1, m[0].end()); same(e, em, "exclude own range", std::vector<int>()); }
        symbol_set ep = symbol_set(epsilon()); check(ep.empty(), "epsilon set is empty");
    }
    return finish();
}
