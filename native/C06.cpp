// sources: TameParse/Dfa/*.cpp TameParse/ContextFree/*.cpp TameParse/Lr/*.cpp TameParse/Util/*.cpp
// bound: 150 random automata (up to 9 states, overlapping character classes over 4 characters and some above 255, several accept actions per state), four lexer types and the default lexer each, inputs of up to 14 symbols; byte streams of every byte value through std::istream; lexers that change state after a newline
#include "vh.h"
#include "TameParse/Dfa/ndfa.h"
#include "TameParse/Dfa/lexer.h"
#include "TameParse/Dfa/basic_lexer.h"
#include "TameParse/Dfa/character_lexer.h"
#include "TameParse/Dfa/state_machine.h"
using namespace vh; using namespace dfa;
typedef std::vector<int> word;
struct source : lexer_symbol_stream { word w; size_t i; source(const word& x) : w(x), i(0) {} lexer_symbol_stream& operator>>(int& r) { r = i < w.size() ? w[i++] : (int)symbol_set::end_of_input; return *this; } };
// the automaton itself, simulated: longest accepted prefix and its highest priority action
#include <sstream>
struct nfa { ndfa* d; std::set<int> closure(std::set<int> s) const { return s; }  /* no epsilons after to_dfa */
    std::pair<int, int> longest(const word& w, size_t from, int start) const {
        std::set<int> cur; cur.insert(start); cur = closure(cur); std::pair<int, int> best(0, -1);
        for (size_t k = from; k < w.size(); ++k) {
            std::set<int> next; for (int s : cur) for (state::iterator t = d->get_state(s).begin(); t != d->get_state(s).end(); ++t) if (symbol_set(const_cast<const ndfa*>(d)->symbols()[t->symbol_set()])[w[k]]) next.insert(t->new_state());
            cur = closure(next); if (cur.empty()) break;
            int a = -1; for (int s : cur) for (accept_action* x : d->actions_for_state(s)) if (a < 0 || x->symbol() < a) a = x->symbol();
            if (a >= 0) best = std::make_pair((int)(k - from + 1), a);
        }
        return best;
    } };
static bool nl(int c) { return c == 10 || c == 11 || c == 12 || c == 13 || c == 0x85 || c == 0x2028 || c == 0x2029; }
static void drain(lexeme_stream* s, const word& w, const nfa& m, int first, int newline, const char* what, const word& starts = word()) {
    size_t at = 0; int init = first;
    for (int n = 0; ; ++n) {
        if (n > (int)w.size()) fail(std::string(what) + ": more tokens than symbols");
        if (n < (int)starts.size() && starts[n] >= 0) { init = starts[n]; s->set_initial_state(init); }
        lexeme* l = (lexeme*)8; (*s) >> l;
        if (at == w.size()) { check(!l, std::string(what) + ": a token after the end"); (*s) >> l; check(!l, "again"); break; }
        if (!l) fail(std::string(what) + ": no token although input is left at " + str(at));
        std::pair<int, int> b = m.longest(w, at, init); int len = std::max(1, b.first);
        if ((int)l->content().size() != len) fail(std::string(what) + ": token at " + str(at) + " has " + str(l->content().size()) + " symbols, the longest match has " + str(len));
        for (int i = 0; i < len; ++i) if (l->content()[i] != w[at + i]) fail(std::string(what) + ": contents of the token at " + str(at));
        if (l->matched() != b.second) fail(std::string(what) + ": token at " + str(at) + " is " + str(l->matched()) + ", should be " + str(b.second));
        if (l->pos().offset() != (int)at) fail(std::string(what) + ": position of the token at " + str(at));
        at += len; init = newline && nl(w[at - 1]) ? newline : 0; delete l;
    }
    delete s;
}
template<class L> static void run(const L& l, const word& w, const nfa& m, int first, int newline, const char* what, const word& starts = word()) { drain(l.create_stream(new source(w)), w, m, first, newline, what, starts); }
static void set_of(Rng& r, symbol_set& s, const int* alpha, int na) { int n = r.range(1, 2); while (n--) { int a = alpha[r.below(na)]; if (r.coin()) s |= range<int>(a, a + 1); else { int b = alpha[r.below(na)]; s |= range<int>(std::min(a, b), std::max(a, b) + 1); } } }
int main(int argc, char** argv) {
    init(argc, argv); Rng r(g_seed); static const int alpha[] = { 'a', 'b', 'c', 10, 13, 0x2028, 0x3b1, 255 };
    for (int it = 0; it < 150 * g_scale; ++it) {
        watchdog(60); int na = r.coin() ? 4 : 8; ndfa n; std::string d; int ns = r.range(2, 9); while (n.count_states() < ns) n.add_state();
        int nt = r.range(ns, 2 * ns + 2); for (int k = 0; k < nt; ++k) { symbol_set s; set_of(r, s, alpha, na); int a = r.below(ns), b = r.coin() ? std::min(ns - 1, a + 1) : r.below(ns); n.add_transition(a, s, b); d += str(a) + "-"; for (symbol_set::iterator i = s.begin(); i != s.end(); ++i) d += str(i->lower()) + ".." + str(i->upper()) + " "; d += ">" + str(b) + "; "; }
        int acc = r.range(1, ns); while (acc--) { int s = r.below(ns), a = r.below(5); n.accept(s, accept_action(a)); d += "accept " + str(s) + "=" + str(a) + " "; }
        ndfa* u = n.to_ndfa_with_unique_symbols(); ndfa* dd = u->to_dfa();
        nfa m; m.d = dd;      // (that to_dfa keeps the language is C05)
        dfa_lexer<wchar_t> l1(*dd); dfa_lexer<wchar_t, state_machine_compact_table<false> > l2(*dd); dfa_lexer<int> l3(*dd); lexer l4(*dd); character_lexer l5;
        int q = std::min(1, dd->count_states() - 1); dfa_lexer<wchar_t, state_machine_flat_table, 0, 1> l6(*dd);
        for (int k = 0; k < 30; ++k) {
            word w; int len = r.below(15); while (len--) w.push_back(alpha[r.below(na)]); std::string wd = d + " on " + strv(w); begin_case(wd, w.size() > 1);
            run(l1, w, m, 0, 0, "flat"); run(l2, w, m, 0, 0, "compact"); run(l3, w, m, 0, 0, "int"); run(l4, w, m, 0, 0, "lexer");
            if (q == 1) { run(l6, w, m, 0, 1, "newline state"); word st; for (int i = 0; i < 6; ++i) st.push_back(r.range(-1, 1)); run(l1, w, m, 0, 0, "set_initial_state", st); run(l6, w, m, 0, 1, "newline state, set_initial_state", st); }
            lexeme_stream* s = l5.create_stream(new source(w)); for (size_t i = 0; i < w.size(); ++i) { lexeme* l = 0; (*s) >> l; check(l && l->content().size() == 1 && l->content()[0] == w[i] && l->matched() == w[i] && l->pos().offset() == (int)i, "character lexer"); delete l; } lexeme* l = 0; (*s) >> l; check(!l, "character lexer after the end"); delete s;
        }
        delete u; delete dd;
    }
    // bytes: every byte value is a symbol, none is the end of the input
    for (int it = 0; it < 300 * g_scale; ++it) {
        std::string b; if (it < 256) b += (char)it; int len = r.below(8); while (len--) b += (char)r.below(256); begin_case("bytes " + strv(std::vector<int>(b.begin(), b.end())), true);
        symbol_set any(range<int>(0, 256)), one(range<int>(0x80, 0x100)); ndfa n; int s1 = n.add_state(), s2 = n.add_state(); n.add_transition(0, any, s1); n.accept(s1, accept_action(3)); n.add_transition(0, one, s2); n.add_transition(s2, one, s2); n.accept(s2, accept_action(2));
        ndfa* u = n.to_ndfa_with_unique_symbols(); ndfa* dd = u->to_dfa(); nfa m; m.d = dd; word w; for (char c : b) w.push_back((unsigned char)c);
        dfa_lexer<unsigned char> l(*dd); std::istringstream in(b); drain(l.create_stream_from(in), w, m, 0, 0, "std::istream");
        lexer l2(*dd); std::istringstream in2(b); drain(l2.create_stream_from(in2), w, m, 0, 0, "std::istream, default lexer");
        std::wstring wb; for (int c : w) wb += (wchar_t)c; std::wistringstream in3(wb); drain(l2.create_stream_from(in3), w, m, 0, 0, "std::wistream"); delete u; delete dd;
    }
    return finish();
}
