// sources: TameParse/Dfa/*.cpp TameParse/Util/*.cpp
// bound: every collection of up to 3 intervals-sets over 5 symbols (exhaustive on two sets), random collections of up to 10 sets of up to 6 ranges over 40 symbols (and over widely spread symbols), with and without the epsilon set; bit-vector model of every set
#include "vh.h"
#include "TameParse/Dfa/remapped_symbol_map.h"
#include "TameParse/Dfa/epsilon.h"
using namespace vh;
typedef std::vector<std::vector<bool> > model;      // set -> symbol -> member

static void one(const model& m, const std::vector<int>& at, bool eps, const std::vector<std::vector<std::pair<int,int> > >& build) {
    int n = (int)at.size() - 1;                      // symbol class k stands for the range [at[k], at[k+1])
    std::string d = eps ? "with epsilon; " : "";
    for (auto& s : m) { d += "{"; for (int k = 0; k < n; ++k) if (s[k]) d += str(at[k]) + "-" + str(at[k + 1]) + " "; d += "} "; }
    begin_case(d);
    dfa::symbol_map src;
    std::map<int, std::vector<bool> > bits;           // identifier -> members
    int epsId = -1;
    if (eps) epsId = src.identifier_for_symbols(dfa::epsilon());
    for (size_t i = 0; i < m.size(); ++i) {
        dfa::symbol_set s;
        for (auto& r : build[i]) s |= dfa::range<int>(at[r.first], at[r.second]);
        int id = src.identifier_for_symbols(s);
        bits[id] = m[i];
        if (s.empty()) { eps = true; epsId = id; }        // the empty set is the one that stands for epsilon
    }
    bool overlap = false;
    for (auto& a : bits) for (auto& b : bits) if (a.first < b.first) for (int k = 0; k < n; ++k) if (a.second[k] && b.second[k]) overlap = true;
    check(src.has_duplicates() == overlap, "has_duplicates is wrong");
    dfa::remapped_symbol_map* res = dfa::remapped_symbol_map::deduplicate(src);
    dfa::remapped_symbol_map copy(*res);
    for (int pass = 0; pass < 2; ++pass) {
        const dfa::remapped_symbol_map& r = pass ? copy : *res;
        std::string w = pass ? "copy of the result: " : "";
        int cnt = r.count_sets();
        // membership of the first, a middle and the last symbol of each class, and of the symbols around the universe
        std::vector<dfa::symbol_set> ns; for (int i = 0; i < cnt; ++i) ns.push_back(r[i]);
        check(r.count_sets() == res->count_sets(), w + "number of sets");
        check(!r.has_duplicates(), w + "has_duplicates of the result");
        std::vector<std::vector<bool> > in(cnt, std::vector<bool>(n));
        for (int i = 0; i < cnt; ++i) {
            check(!(ns[i] == dfa::epsilon()) ? !ns[i].empty() : eps, w + "an empty new set");
            for (int k = 0; k < n; ++k) {
                in[i][k] = ns[i][at[k]];
                check(ns[i][at[k + 1] - 1] == in[i][k] && ns[i][at[k] + (at[k + 1] - at[k]) / 2] == in[i][k], w + "a new set splits symbols no original tells apart");
            }
            check(!ns[i][at[0] - 1] && !ns[i][at[n]], w + "a new set contains a symbol outside every original");
        }
        for (int k = 0; k < n; ++k) {
            int c = 0; bool any = false;
            for (int i = 0; i < cnt; ++i) c += in[i][k];
            for (auto& b : bits) any = any || b.second[k];
            check(c == (any ? 1 : 0), w + "symbol " + str(at[k]) + " lies in " + str(c) + " new sets");
        }
        for (auto& b : bits) {
            const dfa::remapped_symbol_map::new_symbol_set& to = r.new_symbols(b.first);
            for (std::set<int>::const_iterator it = to.begin(); it != to.end(); ++it) check(*it >= 0 && *it < cnt, w + "maps to an unknown set");
            for (int k = 0; k < n; ++k) {
                bool u = false; for (std::set<int>::const_iterator it = to.begin(); it != to.end(); ++it) u = u || in[*it][k];
                check(u == b.second[k], w + "set " + str(b.first) + " is not the union of its new sets at symbol " + str(at[k]));
            }
            dfa::symbol_set un; for (std::set<int>::const_iterator it = to.begin(); it != to.end(); ++it) un |= ns[*it];
            check(un == src[b.first], w + "set " + str(b.first) + " is not the union of its new sets");
        }
        if (eps) {
            const dfa::remapped_symbol_map::new_symbol_set& to = r.new_symbols(epsId);
            check(to.size() == 1 && ns[*to.begin()] == dfa::epsilon(), w + "the epsilon set does not map to itself");
        }
        check(r.new_symbols(1000).empty() && r.new_symbols(-1).empty(), w + "unknown identifiers map to nothing");
    }
    delete res;
}

int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(g_seed);
    auto runs = [](const std::vector<bool>& s) { std::vector<std::pair<int,int> > o; for (size_t k = 0; k < s.size(); ) { if (!s[k]) { ++k; continue; } size_t e = k; while (e < s.size() && s[e]) ++e; o.push_back(std::make_pair((int)k, (int)e)); k = e; } return o; };
    // exhaustive: two sets over 5 symbols, triples over 4
    for (int N = 4; N <= 5; ++N) {
        std::vector<int> at; for (int k = 0; k <= N; ++k) at.push_back(10 + k);
        int lim = 1 << N;
        for (int a = 0; a < lim; ++a) for (int b = 0; b < lim; ++b) for (int c = 0; c < (N == 4 ? lim : 1); ++c) {
            watchdog(60);
            model m; std::vector<std::vector<std::pair<int,int> > > bl;
            for (int x : { a, b, c }) { std::vector<bool> s(N); for (int k = 0; k < N; ++k) s[k] = (x >> k) & 1; if (x == c && N == 5) break; m.push_back(s); bl.push_back(runs(s)); }
            one(m, at, false, bl);
        }
    }
    int cases = 4000 * g_scale;
    for (int i = 0; i < cases; ++i) {
        watchdog(60);
        int n = r.range(2, 40); bool spread = r.coin();
        std::vector<int> at; int p = r.range(0, 3); for (int k = 0; k <= n; ++k) { at.push_back(p); p += 1 + (spread ? r.below(50) : 0); }
        int sets = r.range(1, 10);
        model m; std::vector<std::vector<std::pair<int,int> > > bl;
        for (int s = 0; s < sets; ++s) {
            std::vector<bool> v(n); std::vector<std::pair<int,int> > b;
            if (s && r.below(6) == 0) { int o = r.below(s); v = m[o]; for (int k = 0; k < n; ++k) if (r.below(8) == 0) v[k] = !v[k]; b = runs(v); }
            else for (int q = r.range(1, 6); q > 0; --q) { int lo = r.below(n), hi = r.range(lo + 1, std::min(n, lo + 1 + r.below(n))); for (int k = lo; k < hi; ++k) v[k] = true; b.push_back(std::make_pair(lo, hi)); }
            m.push_back(v); bl.push_back(b);
        }
        if (r.coin()) for (auto& b : bl) for (size_t k = b.size(); k > 1; --k) std::swap(b[k - 1], b[r.below((int)k)]);
        one(m, at, r.below(3) == 0, bl);
    }
    return finish();
}
