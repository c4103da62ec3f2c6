// random grammars over the library's item classes, with a plain reference copy in which every EBNF
// item and guard is an anonymous nonterminal
#pragma once
#include "vh.h"
#include "TameParse/ContextFree/grammar.h"
#include "TameParse/ContextFree/item.h"
#include "TameParse/ContextFree/guard.h"
#include "TameParse/ContextFree/rule.h"
#include "TameParse/ContextFree/terminal_dictionary.h"
namespace vh {
using namespace contextfree;
struct csym { char k; int id; bool operator<(const csym& o) const { return k != o.k ? k < o.k : id < o.id; } bool operator==(const csym& o) const { return k == o.k && id == o.id; } };   // t terminal, n nonterminal (named or anonymous), g guard, e empty
typedef std::vector<csym> crule;
struct cfg {
    int T, N;                                      // terminals, named nonterminals; later nonterminals are anonymous
    std::vector<std::vector<crule> > P;            // productions of each nonterminal
    std::vector<crule> G;                          // the rule of each guard
    std::vector<item_container> ntItem, gItem, tItem; // the library's items
    std::map<std::string, int> anon, ganon;        // by description
    grammar g; terminal_dictionary d; std::string desc;
    explicit cfg(int t, int n) : T(t), N(n), P(n) {
        for (int i = 0; i < T; ++i) { std::wstring w = L"t"; w += (wchar_t)(L'0' + i); tItem.push_back(item_container(new terminal(d.add_symbol(w)), true)); }
        for (int i = 0; i < N; ++i) { std::wstring w = L"N"; w += (wchar_t)(L'A' + i); ntItem.push_back(g.get_nonterminal(w)); }
    }
    std::wstring ntName(int i) const { std::wstring w = L"N"; w += (wchar_t)(L'A' + i); return w; }
    struct gi { item_container item; csym s; std::string d; gi(const item_container& i, csym c, const std::string& x) : item(i), s(c), d(x) {} };
    // a sequence of items: appended to the rule, and given in reference form
    std::string sequence(Rng& r, rule& into, crule& ref, int len, int depth, int ebnf, int guards) {
        std::string s; while (len--) { gi x = make(r, depth, ebnf, guards); into << x.item; ref.push_back(x.s); s += x.d + " "; } return s;
    }
    int anonymous(const std::string& d, const item_container& it) {
        std::map<std::string, int>::iterator f = anon.find(d); if (f != anon.end()) return -f->second - 1;
        int id = (int)P.size(); anon[d] = id; P.push_back(std::vector<crule>()); ntItem.push_back(it); return id;
    }
    gi make(Rng& r, int depth, int ebnf, int guards) {
        int c = r.below(100);
        if (depth > 0 && c < ebnf) {
            int kind = r.below(4); rule base(0); crule ref; std::string s = sequence(r, base, ref, r.range(kind == 1 || kind == 2 ? 1 : 0, 2), depth - 1, ebnf, 0); csym out; out.k = 'n';
            ebnf_alternate* alt = 0; contextfree::ebnf* it; std::vector<crule> prods;
            switch (kind) {
                case 0: it = new ebnf_optional(base); s = "(" + s + ")?"; prods.push_back(crule()); prods.push_back(ref); break;
                case 1: it = new ebnf_repeating(base); s = "(" + s + ")+"; prods.push_back(ref); break;
                case 2: it = new ebnf_repeating_optional(base); s = "(" + s + ")*"; prods.push_back(crule()); break;
                default: { it = alt = new ebnf_alternate(base); s = "(" + s; prods.push_back(ref); int n = r.range(1, 2); while (n--) { rule_container y = alt->add_rule(); crule yr; s += "| " + sequence(r, *y, yr, r.below(3), depth - 1, ebnf, 0); prods.push_back(yr); } s += ")"; }
            }
            item_container ic(it, true); int id = anonymous(s, ic);
            if (id < 0) { out.id = -id - 1; return gi(ntItem[out.id], out, s); }
            out.id = id; if (kind == 1 || kind == 2) { crule many; many.push_back(out); many.insert(many.end(), ref.begin(), ref.end()); prods.push_back(many); }
            P[id] = prods; return gi(ic, out, s);
        }
        if (depth > 0 && c < ebnf + guards) {
            rule base(0); crule ref; csym lead; lead.k = 't'; lead.id = r.below(T); base << tItem[lead.id]; ref.push_back(lead);   // (a guard whose language starts with itself is not valid)
            std::string s = "[=> t" + str(lead.id) + " " + sequence(r, base, ref, r.below(2), 0, 0, 0) + "]"; csym out; out.k = 'g';
            std::map<std::string, int>::iterator f = ganon.find(s); if (f != ganon.end()) { out.id = f->second; return gi(gItem[out.id], out, s); }
            out.id = (int)G.size(); ganon[s] = out.id; G.push_back(ref); gItem.push_back(item_container(new contextfree::guard(base), true)); return gi(gItem[out.id], out, s);
        }
        csym out;
        if (r.below(5) < 3) { out.k = 't'; out.id = r.below(T); return gi(tItem[out.id], out, "t" + str(out.id)); }
        if (r.below(20) == 0) { out.k = 'e'; out.id = 0; return gi(item_container(new empty_item(), true), out, "e"); }
        out.k = 'n'; out.id = r.below(N); return gi(ntItem[out.id], out, std::string("N") + (char)('A' + out.id));
    }
    void random_rules(Rng& r, int ebnf, int guards, int maxRules = 3, int maxLen = 3) {
        for (int n = 0; n < N; ++n) { int k = r.range(1, maxRules); while (k--) {
            rule_container rc(new rule(ntItem[n]), true); crule ref; std::string s = sequence(r, *rc, ref, r.below(maxLen + 1), 2, ebnf, guards);
            g.rules_for_nonterminal(ntName(n)).push_back(rc); P[n].push_back(ref); desc += std::string("N") + (char)('A' + n) + " -> " + s + "; ";
        } }
    }
    // nullable nonterminals, and FIRST by the textbook least fixpoint. Guards count as symbols that are not nullable
    std::vector<bool> nullable() const {
        std::vector<bool> e(P.size(), false); bool ch = true;
        while (ch) { ch = false; for (size_t n = 0; n < P.size(); ++n) if (!e[n]) for (const crule& x : P[n]) { bool all = true; for (const csym& s : x) all = all && (s.k == 'e' || (s.k == 'n' && e[s.id])); if (all) { e[n] = true; ch = true; } } }
        return e;
    }
    std::vector<std::set<csym> > first(const std::vector<bool>& e) const {
        std::vector<std::set<csym> > f(P.size()); bool ch = true;
        while (ch) { ch = false; for (size_t n = 0; n < P.size(); ++n) for (const crule& x : P[n]) for (const csym& s : x) { size_t k = f[n].size(); if (s.k == 't' || s.k == 'g') f[n].insert(s); if (s.k == 'n') f[n].insert(f[s.id].begin(), f[s.id].end()); if (f[n].size() != k) ch = true; if (!(s.k == 'e' || (s.k == 'n' && e[s.id]))) break; } }
        return f;
    }
};
}
