// random grammar items and rules with a textual description: equal descriptions mean equal values
#pragma once
#include "vh.h"
#include "TameParse/ContextFree/grammar.h"
#include "TameParse/ContextFree/item.h"
#include "TameParse/ContextFree/guard.h"
#include "TameParse/ContextFree/rule.h"
namespace vh {
using namespace contextfree;
typedef std::pair<item_container, std::string> ditem;
typedef std::pair<rule_container, std::string> drule;
drule grule(Rng& r, int depth, int syms);
// an EBNF item is its rules' items: the nonterminal of a nested rule is not part of its value
inline std::string itemsof(const drule& x) { return x.second.substr(x.second.find("->") + 2); }
inline ditem gitem(Rng& r, int depth, int syms = 3) {
    switch (r.below(depth > 0 ? 10 : 5)) {
        case 0: { int n = r.below(syms); return ditem(item_container(new terminal(n), true), "t" + str(n)); }
        case 1: { int n = r.below(syms); return ditem(item_container(new nonterminal(n), true), "n" + str(n)); }
        case 2: return ditem(item_container(new empty_item(), true), "e");
        case 3: return ditem(item_container(new end_of_input(), true), "$");
        case 4: return ditem(item_container(new end_of_guard(), true), "g");
        case 5: { drule x = grule(r, depth - 1, syms); return ditem(item_container(new ebnf_optional(*x.first), true), "opt(" + itemsof(x) + ")"); }
        case 6: { drule x = grule(r, depth - 1, syms); return ditem(item_container(new ebnf_repeating(*x.first), true), "rep(" + itemsof(x) + ")"); }
        case 7: { drule x = grule(r, depth - 1, syms); return ditem(item_container(new ebnf_repeating_optional(*x.first), true), "ropt(" + itemsof(x) + ")"); }
        case 8: { drule x = grule(r, depth - 1, syms); ebnf_alternate* a = new ebnf_alternate(*x.first); std::string d = "alt(" + itemsof(x); int n = r.below(3); while (n--) { rule_container y = a->add_rule(); d += "|"; int k = r.below(3); while (k--) { ditem i = gitem(r, depth - 1, syms); *y << i.first; d += i.second + " "; } } return ditem(item_container(a, true), d + ")"); }
        default: { drule x = grule(r, depth - 1, syms); int p = r.below(3) - 1; return ditem(item_container(new contextfree::guard(*x.first, p), true), "guard" + str(p) + "(" + itemsof(x) + ")"); }
    }
}
inline drule grule(Rng& r, int depth, int syms = 3) {
    int nt = r.below(syms); rule* x = new rule(nt); std::string d = str(nt) + "->"; int n = r.below(4);
    while (n--) { ditem i = gitem(r, depth, syms); *x << i.first; d += i.second + " "; }
    return drule(rule_container(x, true), d);
}
}
