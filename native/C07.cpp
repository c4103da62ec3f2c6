// sources: TameParse/Dfa/lexeme.cpp TameParse/Dfa/position.cpp TameParse/Dfa/lexer.cpp TameParse/Dfa/basic_lexer.cpp TameParse/Dfa/character_lexer.cpp TameParse/Dfa/ndfa.cpp TameParse/Dfa/ndfa_transformations.cpp TameParse/Dfa/ndfa_regex.cpp TameParse/Dfa/regex_error.cpp TameParse/Dfa/symbol_set.cpp TameParse/Dfa/symbol_map.cpp TameParse/Dfa/remapped_symbol_map.cpp TameParse/Dfa/state.cpp TameParse/Dfa/state_machine.cpp TameParse/Dfa/symbol_table.cpp TameParse/Dfa/symbol_translator.cpp TameParse/Dfa/transition.cpp TameParse/Dfa/accept_action.cpp TameParse/Dfa/epsilon.cpp TameParse/Dfa/range.cpp TameParse/Dfa/hard_coded_symbol_table.cpp TameParse/Util/unicode.cpp
// bound: all symbol sequences of length up to 4 over 11 representative symbols (every line break, neighbours of each), in every split into two batches; random sequences up to 60 symbols, random batches, through lexemes and through two lexers
#include "vh.h"
#include "TameParse/Dfa/position.h"
#include "TameParse/Dfa/lexeme.h"
#include "TameParse/Dfa/lexer.h"
#include "TameParse/Dfa/character_lexer.h"
using namespace dfa;
using namespace vh;
static bool brk(int c) { return c == 0x0a || c == 0x0d || c == 0x0b || c == 0x0c || c == 0x85 || c == 0x2028 || c == 0x2029; }
struct P { int o, l, c; };
// the position before symbol n of v, counted from scratch
static P expect(const std::vector<int>& v, size_t n, P s = P{0, 0, 0}) {
    P p = s; p.o += (int)n;
    int last = -1;
    for (size_t i = 0; i < n; ++i) if (brk(v[i])) { last = (int)i; if (!(v[i] == 0x0a && i > 0 && v[i-1] == 0x0d)) p.l++; }
    p.c = last < 0 ? s.c + (int)n : (int)n - 1 - last;
    return p;
}
static void same(const position& a, const P& b, const std::string& what) {
    if (a.offset() != b.o || a.line() != b.l || a.column() != b.c)
        fail(what + ": got offset=" + str(a.offset()) + " line=" + str(a.line()) + " column=" + str(a.column()) + " expected " + str(b.o) + "," + str(b.l) + "," + str(b.c));
}
struct src : lexer_symbol_stream { std::vector<int> v; size_t i; src(const std::vector<int>& x) : v(x), i(0) {} lexer_symbol_stream& operator>>(int& r) { r = i < v.size() ? v[i++] : symbol_set::end_of_input; return *this; } };
static void run(const std::vector<int>& v, size_t cut, const char* what) {
    begin_case(std::string(what) + " symbols " + strv(v) + " split at " + str(cut), v.size() > 1);
    position_tracker one, two;
    for (size_t i = 0; i < v.size(); ++i) { same(one.current_position(), expect(v, i), "one at a time, before symbol " + str(i)); one.update_position(v[i]); }
    same(one.current_position(), expect(v, v.size()), "one at a time, at the end");
    two.update_position(v.begin(), v.begin() + cut); same(two.current_position(), expect(v, cut), "after the first batch");
    position_tracker three(two);
    two.update_position(v.begin() + cut, v.end()); same(two.current_position(), expect(v, v.size()), "after the second batch");
    three.update_position(v.begin() + cut, v.end()); check(three.current_position() == two.current_position(), "copied tracker");
    const int* raw = v.empty() ? 0 : &v[0];
    position_tracker four; four.update_position(raw, raw + v.size()); same(four.current_position(), expect(v, v.size()), "through pointers");
    lexeme::symbols s(v.begin(), v.end());
    lexeme l(s, position(7, 3, 5), 1); same(l.pos(), P{7, 3, 5}, "lexeme position"); same(l.final_pos(), expect(v, v.size(), P{7, 3, 5}), "lexeme end position");
    lexeme m(v.begin(), v.end(), position(2, 9, 4), 1); same(m.pos(), P{2, 9, 4}, "lexeme position"); same(m.final_pos(), expect(v, v.size(), P{2, 9, 4}), "lexeme end position (iterators)");
    lexeme n(m); same(n.final_pos(), expect(v, v.size(), P{2, 9, 4}), "copied lexeme");
}
static void stream(basic_lexer& lx, const std::vector<int>& v, const char* what) {
    begin_case(std::string(what) + " over " + strv(v), v.size() > 2);
    lexeme_stream* st = lx.create_stream(new src(v));
    size_t at = 0;
    for (;;) {
        lexeme* l = NULL; *st >> l; if (!l) break;
        same(l->pos(), expect(v, at), std::string(what) + ": token at symbol " + str(at));
        at += l->content().size();
        bool crlf = at < v.size() + 1 && l->content().size() > 0 && l->content()[0] == 0x0a && at > l->content().size() && v[at - l->content().size() - 1] == 0x0d;
        if (!crlf) same(l->final_pos(), expect(v, at), std::string(what) + ": end of the token before symbol " + str(at));
        delete l;
    }
    delete st;
}
int main(int argc, char** argv) {
    init(argc, argv);
    std::vector<int> al = {'a', 0x0a, 0x0d, 0x0b, 0x0c, 0x85, 0x2028, 0x2029, 0x09, 0x2027, 0x0e};
    int K = al.size();
    for (int len = 0; len <= 4; ++len) {
        long tot = 1; for (int i = 0; i < len; ++i) tot *= K;
        for (long x = 0; x < tot; ++x) {
            std::vector<int> v; long y = x; for (int i = 0; i < len; ++i) { v.push_back(al[y % K]); y /= K; }
            if (len < 4) for (int c = 0; c <= len; ++c) run(v, c, "exhaustive"); else run(v, x % 5, "exhaustive");
        }
        watchdog();
    }
    lexer lx; lx.add_symbol("[a-z]+", 1); lx.add_symbol("[0-9]+", 2); lx.add_symbol(" +", 3); lx.compile();
    lexer lc; lc.add_symbol("[a-z\x0a\x0d]+", 1); lc.add_symbol("\x0d", 2); lc.compile();
    character_lexer cl;
    Rng r(g_seed);
    std::vector<int> pool = al; pool.insert(pool.end(), {'b', 'z', '0', '9', ' ', ' ', 0x10ffff, 0x84, 0x86, 0x202a, 0x0a, 0x0d, 0x0d, 0x0a, 1, 0x7f, 'A'});
    for (int it = 0; it < 1500 * g_scale; ++it) {
        std::vector<int> v; int n = r.below(60); for (int i = 0; i < n; ++i) v.push_back(pool[r.below(pool.size())]);
        run(v, r.below(n + 1), "random");
        stream(lx, v, "word lexer"); stream(lc, v, "multi-line lexer"); stream(cl, v, "character lexer");
        if (it % 100 == 0) watchdog();
    }
    return finish();
}
