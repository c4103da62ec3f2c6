// sources: TameParse/Dfa/*.cpp TameParse/Util/*.cpp
// bound: random expressions of depth up to 4 (literals, escapes, classes and negated classes, '.', groups, alternation, ?, *, +, named expressions and named literals), up to 3 in one automaton from different start states or one after another, with case-insensitive and UTF-16 modes; each against a direct matcher on up to 60 strings of up to 8 symbols
#include "vh.h"
#include "TameParse/Dfa/ndfa_regex.h"
using namespace vh;
using dfa::ndfa; using dfa::ndfa_regex; using dfa::symbol_string;
typedef std::set<int> sset;
typedef std::vector<int> istr;

// the expressions
struct rx { char op; std::vector<std::pair<int, int> > cls; bool neg; istr lit; rx* a; rx* b; rx(char o) : op(o), neg(false), a(0), b(0) {} };
static bool g_utf16, g_nocase;
static bool in_class(const rx* e, int c) {
    for (int v = 0; v < 3; ++v) {
        int k = c;
        if (v) { if (!g_nocase) break; if (v == 1 && k >= 'a' && k <= 'z') k -= 32; else if (v == 2 && k >= 'A' && k <= 'Z') k += 32; else continue; }
        bool in = false; for (size_t i = 0; i < e->cls.size(); ++i) if (k >= e->cls[i].first && k <= e->cls[i].second) in = true;
        if (in != e->neg) return true;
    }
    return false;
}
static sset ends(const rx* e, const istr& s, int p) {
    sset r;
    switch (e->op) {
        case 'c':
            if (p < (int)s.size() && !(g_utf16 && s[p] > 0xffff) && in_class(e, s[p])) r.insert(p + 1);
            if (g_utf16 && p + 1 < (int)s.size() && s[p] >= 0xd800 && s[p] < 0xdc00 && s[p + 1] >= 0xdc00 && s[p + 1] < 0xe000 && in_class(e, 0x10000 + ((s[p] - 0xd800) << 10) + (s[p + 1] - 0xdc00))) r.insert(p + 2);
            break;
        case '0': r.insert(p); break;
        case '.': { sset m = ends(e->a, s, p); for (int q : m) { sset n = ends(e->b, s, q); r.insert(n.begin(), n.end()); } break; }
        case '|': { r = ends(e->a, s, p); sset n = ends(e->b, s, p); r.insert(n.begin(), n.end()); break; }
        case '?': r = ends(e->a, s, p); r.insert(p); break;
        case '*': case '+': {
            sset w; if (e->op == '*') r.insert(p);
            w.insert(p); sset done;
            while (!w.empty()) { int q = *w.begin(); w.erase(w.begin()); if (!done.insert(q).second) continue; sset n = ends(e->a, s, q); for (int x : n) { r.insert(x); w.insert(x); } }
            break; }
    }
    return r;
}

static std::vector<int> alphabet(bool utf16) {
    std::vector<int> v; v.push_back('a'); v.push_back('b'); v.push_back('c'); v.push_back('A'); v.push_back('B'); v.push_back('1'); v.push_back('\n'); v.push_back('*'); v.push_back(0x2603); v.push_back(0xffff);
    if (utf16) { int w[] = { 0x10000, 0x103fe, 0x103ff, 0x10400, 0x10402, 0x1f600, 0x10fbff, 0x10fc00, 0x10ffff }; v.insert(v.end(), w, w + 9); }
    return v;
}
static symbol_string hexs(int c, int n) { symbol_string r; for (int k = n - 1; k >= 0; --k) { int d = (c >> (4 * k)) & 15; r += d < 10 ? '0' + d : 'a' + d - 10; } return r; }
// one symbol, in one of its spellings
static symbol_string spell(Rng& r, int c, bool inClass) {
    symbol_string t;
    bool special = c == '*' || c == '-' || c == '\n';
    int k = r.below(special ? 3 : 8);
    if (c < 256 && k == 0) { t += '\\'; t += 'x'; return t + hexs(c, 2); }
    if (c < 0x10000 && k == 1) { t += '\\'; t += 'u'; return t + hexs(c, 4); }
    if (c < 256 && k == 2) { t += '\\'; t += '0' + (c >> 6); t += '0' + ((c >> 3) & 7); t += '0' + (c & 7); return t; }
    if (c == '\n') { t += '\\'; t += 'n'; return t; }
    if (c == '*' || c == '{' || c == '[' || c == '^') { t += '\\'; t += c; return t; }
    t += c; return t;
}
static std::map<symbol_string, symbol_string> g_names; static std::map<symbol_string, bool> g_literal;
static symbol_string name_of(int i) { symbol_string s; s += 'n'; s += '0' + i / 10; s += '0' + i % 10; return s; }

// prec: 0 alternation, 1 sequence, 2 repeated item
static rx* gen(Rng& r, int depth, int prec, symbol_string& out, const std::vector<int>& al) {
    int k = depth <= 0 ? r.below(3) : r.below(12);
    if (k < 2) { rx* e = new rx('c'); int c = al[r.below(al.size())]; e->cls.push_back(std::make_pair(c, c)); out += spell(r, c, false); return e; }
    if (k == 2) {
        rx* e = new rx('c');
        if (r.below(5) == 0) { e->cls.push_back(std::make_pair(0, 0x7ffffffe)); out += '.'; return e; }
        out += '['; e->neg = r.below(4) == 0; if (e->neg) out += '^';
        for (int n = r.range(1, 3); n > 0; --n) {
            int c = al[r.below(al.size())], d = c; out += spell(r, c, true);
            if (r.coin()) { d = al[r.below(al.size())]; if (d < c) d = c; out += '-'; out += spell(r, d, true); }
            e->cls.push_back(std::make_pair(c, d));
        }
        out += ']'; return e;
    }
    if (k <= 5) {                                           // repetition
        symbol_string in; rx* e = new rx("?*+"[r.below(3)]); e->a = gen(r, depth - 1, 2, in, al);
        out += in; out += e->op; return e;
    }
    if (k <= 8) {                                           // sequence
        symbol_string x, y; rx* e = new rx('.'); e->a = gen(r, depth - 1, 1, x, al); e->b = gen(r, depth - 1, 1, y, al);
        symbol_string t = x + y;
        if (prec > 1) { out += '('; out += t; out += ')'; } else out += t;
        return e;
    }
    if (k <= 10) {                                          // alternation
        symbol_string x, y; rx* e = new rx('|'); e->a = gen(r, depth - 1, 0, x, al); e->b = gen(r, depth - 1, 0, y, al);
        if (prec > 0) out += '(';
        out += x; out += '|'; out += y;
        if (prec > 0) out += ')';
        return e;
    }
    // a named expression or literal
    symbol_string in, nm = name_of(g_names.size()); rx* e;
    if (r.coin()) { e = gen(r, depth - 1, 0, in, al); nm = name_of(g_names.size()); g_literal[nm] = false; }
    else {
        e = 0; g_literal[nm] = true;
        for (int n = r.range(1, 3); n > 0; --n) { int c = al[r.below(al.size())]; in += c; rx* l = new rx('c'); l->cls.push_back(std::make_pair(c, c)); if (e) { rx* q = new rx('.'); q->a = e; q->b = l; e = q; } else e = l; }
    }
    g_names[nm] = in;
    out += '{'; out += nm; out += '}';
    return e;
}
static std::string show(const symbol_string& s) { std::string d; for (size_t i = 0; i < s.size(); ++i) { if (s[i] >= 32 && s[i] < 127) d += (char)s[i]; else { char b[16]; snprintf(b, sizeof b, "<%x>", s[i]); d += b; } } return d; }
static std::string show(const istr& s) { return show(symbol_string(s.begin(), s.end())); }

// a string that the expression is likely to accept
static void sample(Rng& r, const rx* e, istr& out, const std::vector<int>& al) {
    if (out.size() > 8) return;
    switch (e->op) {
        case 'c': { int c = e->neg || r.below(8) == 0 ? al[r.below(al.size())] : e->cls[0].first + (e->cls[0].second > e->cls[0].first && r.coin() ? r.below(std::min(4, e->cls[0].second - e->cls[0].first + 1)) : 0);
            if (e->cls.size() > 1 && r.coin()) c = e->cls.back().second;
            if (c > 0x10ffff) c = al[r.below(al.size())];
            if (g_utf16 && c > 0xffff) { out.push_back(0xd800 + ((c - 0x10000) >> 10)); out.push_back(0xdc00 + ((c - 0x10000) & 0x3ff)); } else out.push_back(c);
            break; }
        case '.': sample(r, e->a, out, al); sample(r, e->b, out, al); break;
        case '|': sample(r, r.coin() ? e->a : e->b, out, al); break;
        case '?': if (r.coin()) sample(r, e->a, out, al); break;
        case '*': for (int n = r.below(3); n > 0; --n) sample(r, e->a, out, al); break;
        case '+': for (int n = r.range(1, 3); n > 0; --n) sample(r, e->a, out, al); break;
    }
}

static sset closure(const ndfa& a, sset s) {
    std::vector<int> w(s.begin(), s.end());
    while (!w.empty()) { int q = w.back(); w.pop_back(); const dfa::state& st = a.get_state(q);
        for (dfa::state::iterator t = st.begin(); t != st.end(); ++t) { dfa::symbol_set c(a.symbols()[t->symbol_set()]); if (c.empty() && s.insert(t->new_state()).second) w.push_back(t->new_state()); } }
    return s;
}
static sset step(const ndfa& a, const sset& s, int sym) {
    sset r;
    for (int q : s) { const dfa::state& st = a.get_state(q); for (dfa::state::iterator t = st.begin(); t != st.end(); ++t) { dfa::symbol_set c(a.symbols()[t->symbol_set()]); if (c[sym]) r.insert(t->new_state()); } }
    return closure(a, r);
}

int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(g_seed);
    int cases = 3000 * g_scale;
    for (int i = 0; i < cases; ++i) {
        watchdog(60);
        g_utf16 = r.below(4) == 0; g_nocase = !g_utf16 && r.below(6) == 0;
        g_names.clear(); g_literal.clear();
        std::vector<int> all = alphabet(g_utf16 || r.below(5) == 0), al; for (int n = r.range(2, 5); n > 0; --n) al.push_back(all[r.below(all.size())]);
        if (g_nocase) { std::vector<int> x; for (int c : al) if (c < 256) x.push_back(c); x.push_back('b'); if (r.coin()) { x.push_back('y'); x.push_back('{'); x.push_back('['); x.push_back('^'); } al = x; }
        ndfa_regex a; a.set_use_surrogates(g_utf16); a.set_case_insensitive(g_nocase);
        int count = r.below(3) ? 1 : r.range(2, 3);
        std::vector<rx*> e; std::vector<symbol_string> text; std::vector<int> from, start, fin; std::string d;
        if (g_utf16) d += " (utf16)"; if (g_nocase) d += " (nocase)";
        for (int k = 0; k < count; ++k) {
            symbol_string t; e.push_back(gen(r, r.range(1, 4), 0, t, al)); text.push_back(t);
            int f = k ? r.below(3) : 0;                     // 0: from the first state, 1: from a state of its own, 2: after the last one
            from.push_back(f); d += " " + show(t) + (f == 1 ? "(own state)" : f == 2 ? "(after the last)" : "");
        }
        for (std::map<symbol_string, symbol_string>::iterator n = g_names.begin(); n != g_names.end(); ++n) { d += " {" + show(n->first) + "}=" + (g_literal[n->first] ? "'" : "") + show(n->second); if (g_literal[n->first]) a.define_expression_literal(n->first, n->second); else a.define_expression(n->first, n->second); }
        begin_case(d, count > 1 || text[0].size() > 4);
        for (int k = 0; k < count; ++k) {
            int s = from[k] == 0 ? 0 : from[k] == 1 ? a.add_state() : fin[k - 1];
            int first = from[k] == 2 ? start[k - 1] : s;
            fin.push_back(a.add_regex(s, text[k])); start.push_back(first);
            check(fin[k] >= 0 && fin[k] < a.count_states(), "the final state does not exist");
            a.accept(fin[k], dfa::accept_action(k));
            if (from[k] == 2) { rx* c = new rx('.'); c->a = e[k - 1]; c->b = e[k]; e[k] = c; }
        }
        std::vector<int> units; for (int c : al) { if (g_utf16 && c > 0xffff) { units.push_back(0xd800 + ((c - 0x10000) >> 10)); units.push_back(0xdc00 + ((c - 0x10000) & 0x3ff)); } else units.push_back(c); if (g_nocase && c >= 'a' && c <= 'z') units.push_back(c - 32); }
        units.push_back('z');
        for (int n = 0; n < 60; ++n) {
            istr s;
            if (n == 0) ; else if (n % 3) { sample(r, e[r.below(count)], s, al); int m = r.below(4); if (m == 1 && !s.empty()) s.erase(s.begin() + r.below(s.size())); if (m == 2) s.insert(s.begin() + r.below(s.size() + 1), units[r.below(units.size())]); }
            else for (int m = r.below(7); m > 0; --m) s.push_back(units[r.below(units.size())]);
            if (s.size() > 12) s.resize(12);
            std::set<int> starts(start.begin(), start.end());
            for (int st : starts) {
                sset q; q.insert(st); q = closure(a, q);
                for (size_t m = 0; m < s.size(); ++m) q = step(a, q, s[m]);
                for (int k = 0; k < count; ++k) {
                    if (start[k] != st) continue;
                    bool got = q.count(fin[k]) != 0, want = ends(e[k], s, 0).count(s.size()) != 0;
                    bool action = false; for (int z : q) { const ndfa::accept_action_list& l = a.actions_for_state(z); for (size_t w = 0; w < l.size(); ++w) if (l[w]->symbol() == k) action = true; }
                    check(got == action, "the accept action is not where it was put");
                    if (got != want) fail("expression " + str(k) + " " + show(text[k]) + (want ? " rejects " : " accepts ") + "\"" + show(s) + "\"");
                }
            }
        }
    }
    return finish();
}
