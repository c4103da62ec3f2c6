// sources: TameParse/Dfa/symbol_map.cpp TameParse/Dfa/symbol_set.cpp
// bound: random families of up to 12 disjoint classes with boundaries drawn near page boundaries of each table width (8, 16 and 31 bit), random insertion orders, single-class and translator construction; every boundary and its neighbours, plus random characters, looked up in the table, in a copy of it and in its flattened form; 8 bit tables exhaustively
#include "vh.h"
#include "TameParse/Dfa/symbol_table.h"
#include "TameParse/Dfa/symbol_translator.h"
#include "TameParse/Dfa/hard_coded_symbol_table.h"
using namespace vh;
typedef long long ll;
struct Cls { ll lo, hi; int id; };
template<class C, int bytes> static void run(Rng& r, ll width, const char* nm, bool beyond) {
    std::set<ll> cuts; int nc = 1 + r.below(16);
    for (int i = 0; i < nc; ++i) {
        ll c; int k = r.below(6);
        if (k == 0) c = r.below(600); else if (k == 1) c = 256LL * r.below(1 + (int)(width / 256 > 600 ? 600 : width / 256)); else if (k == 2) c = (width / 256) * r.below(256);
        else if (k == 3) c = width - r.below(3) * (r.coin() ? 1 : 256); else if (k == 4) c = 65536LL * r.below(400) + (r.coin() ? r.below(3) - 1 : 256 * r.below(3)); else c = (ll)(r.next() % (uint64_t)(width + 1));
        if (c < 0) c = 0; if (c > 0x7fffffff) c = 0x7fffffff; if (!beyond && c > width) c = width; cuts.insert(c);
    }
    if (r.coin()) cuts.insert(0); if (r.coin()) cuts.insert(width > 0x7fffffff ? 0x7fffffff : width);
    std::vector<ll> v(cuts.begin(), cuts.end()); std::vector<Cls> cl; int ids = 1 + r.below(5);
    for (size_t i = 0; i + 1 < v.size(); ++i) if (r.below(4)) { Cls c; c.lo = v[i]; c.hi = v[i + 1]; c.id = r.below(ids); cl.push_back(c); }
    for (size_t i = cl.size(); i > 1; --i) std::swap(cl[i - 1], cl[r.below((int)i)]);
    std::string d = nm; for (size_t i = 0; i < cl.size(); ++i) d += " [" + str(cl[i].lo) + "," + str(cl[i].hi) + ")=" + str(cl[i].id);
    begin_case(d, cl.size() > 1);
    // no more than a few million pages
    dfa::symbol_table<C> t; for (size_t i = 0; i < cl.size(); ++i) t.add_range(dfa::range<int>((int)cl[i].lo, (int)cl[i].hi), cl[i].id);
    dfa::symbol_table<C> cp(t);
    dfa::symbol_map* m = new dfa::symbol_map(); std::vector<int> tr(ids, -1);
    for (int k = 0; k < ids; ++k) { dfa::symbol_set s; bool any = false; for (size_t i = 0; i < cl.size(); ++i) if (cl[i].id == k) { s |= dfa::range<int>((int)cl[i].lo, (int)cl[i].hi); any = true; } if (any) tr[k] = m->identifier_for_symbols(s); }
    dfa::symbol_translator<C> xl(*m), xc(xl); delete m;
    size_t size = 0; int* h = t.table.to_hard_coded_table(size); if (!h || size < 2 || size > 100000000) fail("size of the flattened table");
    int* h2 = new int[size]; for (size_t i = 0; i < size; ++i) h2[i] = h[i]; delete[] h;   // exact bounds for the sanitizer
    dfa::hard_coded_symbol_table<C, bytes> hc(h2);
    std::vector<ll> probe; if (width <= 256) for (ll c = 0; c < width; ++c) probe.push_back(c);
    else { for (size_t i = 0; i < v.size(); ++i) for (int k = -2; k <= 2; ++k) { probe.push_back(v[i] + k); probe.push_back(v[i] + 256 * k); probe.push_back((v[i] & ~255LL) + k); } for (int i = 0; i < 300; ++i) probe.push_back((ll)(r.next() % (uint64_t)width)); for (int i = 0; i < 256; ++i) probe.push_back(i); }
    for (size_t i = 0; i < probe.size(); ++i) {
        ll c = probe[i]; if (c < 0 || c >= width) continue; int want = -1; for (size_t k = 0; k < cl.size(); ++k) if (c >= cl[k].lo && c < cl[k].hi) want = cl[k].id;
        int a = t.lookup((C)c), b = hc.lookup((C)c), e = cp.lookup((C)c), f = xl.set_for_symbol((C)c), g = xc.set_for_symbol((C)c), w2 = want < 0 ? -1 : tr[want];
        if (a != want) fail("lookup of " + str(c) + " gives " + str(a) + " instead of " + str(want));
        if (b != want) fail("flattened lookup of " + str(c) + " gives " + str(b) + " instead of " + str(want));
        if (e != want) fail("lookup of " + str(c) + " in a copy gives " + str(e) + " instead of " + str(want));
        if (f != w2 || g != w2) fail("symbol_translator for " + str(c) + " gives " + str(f) + "/" + str(g) + " instead of " + str(w2));
    }
    delete[] h2;
}
int main(int c, char** v) {
    init(c, v); Rng r(g_seed);
    for (int i = 0; i < 3000 * g_scale; ++i) { run<unsigned char, 1>(r, 256, "8 bit", false); run<unsigned char, 1>(r, 256, "8 bit", true); }
    for (int i = 0; i < 600 * g_scale; ++i) { run<wchar_t, 2>(r, 65536, "16 bit", false); run<wchar_t, 2>(r, 65536, "16 bit", true); if (i % 50 == 0) watchdog(120); }
    for (int i = 0; i < 80 * g_scale; ++i) { run<int, 4>(r, 0x80000000LL, "31 bit", false); if (i % 10 == 0) watchdog(120); }
    return finish();
}
