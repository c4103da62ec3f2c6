// sources: TameParse/Dfa/*.cpp TameParse/Util/*.cpp
// bound: 600 random deterministic automata of up to 12 states and 14 character classes (0 to 14 transitions per state), in five table formats (flat and compact rows for int and wchar_t, pre-built rows); every state and class, and run() on 70 characters from every state and three out-of-range states
#include "vh.h"
#include "TameParse/Dfa/state_machine.h"
#include "TameParse/Dfa/hard_coded_symbol_table.h"
using namespace vh; using namespace dfa;
typedef hard_coded_symbol_table<wchar_t, 2> hct;
typedef state_machine_tables<wchar_t, hct> tables;
template<class M> static void same(const M& m, const char* name, const std::vector<std::vector<int> >& to, const std::vector<int>& cls, int n, int sets) {
    for (int s = 0; s < n; ++s) for (int c = 0; c < sets; ++c) { int got = m.run_unsafe_set(s, c); if (got != to[s][c]) fail(std::string(name) + " state " + str(s) + " class " + str(c) + " gives " + str(got) + ", automaton " + str(to[s][c])); }
    for (int s = -2; s <= n + 1; ++s) for (int ch = 0; ch < (int)cls.size(); ++ch) { int want = s < 0 || s >= n || cls[ch] < 0 ? -1 : to[s][cls[ch]]; int got = m.run(s, ch); if (got != want) fail(std::string(name) + " run state " + str(s) + " character " + str(ch) + " gives " + str(got) + ", automaton " + str(want)); if (s >= 0 && s < n && m.run_unsafe(s, ch) != want) fail(std::string(name) + " run_unsafe"); }
}
int main(int argc, char** argv) {
    init(argc, argv); Rng r(g_seed); watchdog(600);
    for (int it = 0; it < 600 * g_scale; ++it) {
        int n = 1 + r.below(12), want = 1 + r.below(14); ndfa d; while (d.count_states() < n) d.add_state();
        std::vector<int> owner(70, -1); std::vector<symbol_set> ss(want);
        for (int c = 0; c < 70; ++c) { int k = r.below(want + 2); if (k < want) { ss[k] |= range<int>(c, c + 1); owner[c] = k; } }
        std::vector<std::vector<std::pair<int, int> > > tr(n); std::string desc = str(n) + " states:";
        int density = r.below(5);
        for (int s = 0; s < n; ++s) for (int c = want - 1; c >= 0; --c) if (!ss[c].empty() && r.below(5) <= density) { int t = r.below(n); d.add_transition(s, ss[c], t); tr[s].push_back(std::make_pair(c, t)); desc += " " + str(s) + "-" + str(c) + "->" + str(t); }
        begin_case(desc, n > 1);
        int sets = d.symbols().count_sets(); std::vector<int> id(want, -1); for (int c = 0; c < want; ++c) if (!ss[c].empty()) id[c] = d.symbols().find_identifier_for_symbols(ss[c]);
        std::vector<std::vector<int> > to(n, std::vector<int>(sets, -1)); for (int s = 0; s < n; ++s) for (size_t i = 0; i < tr[s].size(); ++i) to[s][id[tr[s][i].first]] = tr[s][i].second;
        for (int s = 0; s < n; ++s) { int k = 0; for (state::iterator t = d.get_state(s).begin(); t != d.get_state(s).end(); ++t, ++k) if (to[s][t->symbol_set()] != t->new_state()) fail("the automaton's own transitions"); check(k == d.get_state(s).count_transitions(), "count_transitions"); }
        std::vector<int> cls(70, -1); for (int c = 0; c < 70; ++c) if (owner[c] >= 0) cls[c] = id[owner[c]];
        { state_machine<int> m(d); same(m, "flat int", to, cls, n, sets); }
        { state_machine<wchar_t> m(d); same(m, "flat wchar_t", to, cls, n, sets); }
        { state_machine<int, state_machine_compact_table<> > m(d); same(m, "compact int", to, cls, n, sets); }
        { state_machine<wchar_t, state_machine_compact_table<> > m(d); same(m, "compact wchar_t", to, cls, n, sets); }
        symbol_translator<wchar_t> tl(d.symbols()); size_t sz = 0; symbol_table<wchar_t> tb; for (int c = 0; c < 70; ++c) if (cls[c] >= 0) tb.add_range(range<int>(c, c + 1), cls[c]); int* hard = tb.table.to_hard_coded_table(sz); hct h(hard);
        std::vector<tables::entry> e; std::vector<int> start;
        for (int s = 0; s < n; ++s) { start.push_back(e.size()); for (int c = 0; c < sets; ++c) if (to[s][c] >= 0) { tables::entry x = { c, to[s][c] }; e.push_back(x); } }
        start.push_back(e.size()); e.push_back(tables::entry());
        std::vector<const tables::entry*> p; for (size_t i = 0; i < start.size(); ++i) p.push_back(&e[0] + start[i]);
        { tables m(h, &p[0], n); same(m, "pre-built", to, cls, n, sets); }
        { typedef state_machine_compact_table<false> row; std::vector<row> rows; for (int s = 0; s < n; ++s) rows.push_back(row(&e[0] + start[s], &e[0] + start[s + 1])); state_machine<wchar_t, row, symbol_translator<wchar_t>, false> m(tl, sets, n, &rows[0]); same(m, "given rows", to, cls, n, sets); }
        delete[] hard;
    }
    return finish();
}
