// sources: TameParse/Dfa/*.cpp TameParse/ContextFree/*.cpp TameParse/Lr/*.cpp TameParse/Util/*.cpp
// bound: random histories of 60 registrations into a symbol map (and a copy of it), 80 into a grammar (items nested to depth 3, rules, nonterminal names; assigned copies), 60 additions and splits in a terminal dictionary; 400 histories of each
#include "vh.h"
#include "gram.h"
#include "TameParse/Dfa/symbol_map.h"
#include "TameParse/ContextFree/terminal_dictionary.h"
using namespace vh;
static void symmaps(Rng& r) {
    dfa::symbol_map* m = new dfa::symbol_map(); std::map<std::vector<int>, int> ref; std::vector<std::vector<int> > byid; std::string hist;
    for (int step = 0; step < 60; ++step) {
        dfa::symbol_set s; std::vector<int> bits(12); int n = r.below(4);
        while (n--) { int a = r.below(12), b = a + 1 + r.below(4); if (b > 12) b = 12; s |= dfa::range<int>(a, b); for (int i = a; i < b; ++i) bits[i] = 1; }
        hist += strv(bits) + " "; begin_case("symbol_map history " + hist, step > 2);
        bool known = ref.count(bits); int f = m->find_identifier_for_symbols(s);
        check(known ? f == ref[bits] : f == -1, "find_identifier_for_symbols");
        if (r.below(4)) {
            int id = m->identifier_for_symbols(s);
            if (known) check(id == ref[bits], "identifier of an equal set changed"); else { check(id == (int)byid.size(), "identifiers are not dense"); ref[bits] = id; byid.push_back(bits); }
        }
        check(m->count_sets() == (int)byid.size(), "count_sets");
        for (size_t i = 0; i < byid.size(); ++i) { dfa::symbol_set t((*m)[i]); for (int k = 0; k < 12; ++k) check(t[k] == (byid[i][k] != 0), "set for identifier " + str(i)); }
        { dfa::symbol_set a((*m)[-1]), b((*m)[byid.size()]); check(a.empty() && b.empty(), "unknown identifiers"); }
        int cnt = 0; for (dfa::symbol_map::iterator it = m->begin(); it != m->end(); ++it) { ++cnt; check(it->second >= 0 && it->second < (int)byid.size() && *it->first == (*m)[it->second], "iteration"); }
        check(cnt == (int)byid.size(), "iteration count");
        if (r.below(15) == 0) { dfa::symbol_map* c = new dfa::symbol_map(*m); delete m; m = c; hist += "copy "; }
    }
    delete m;
}
static void dicts(Rng& r) {
    terminal_dictionary d; std::map<std::wstring, int> byname; std::map<int, std::wstring> names; std::map<int, int> parent; std::set<int> given; int maxs = -1; std::string hist;
    for (int step = 0; step < 60; ++step) {
        int op = r.below(5); begin_case("terminal_dictionary history " + hist, step > 2);
        if (op == 0) { int s = d.add_symbol(); hist += "add=" + str(s) + " "; *g_case = hist; check(s > maxs && !given.count(s) && s >= 0, "symbol number reused"); given.insert(s); maxs = s; }
        else if (op == 1) { std::wstring n(1 + r.below(3), L'a' + r.below(20)); if (byname.count(n)) continue; int s = d.add_symbol(n); hist += "named " + std::string(n.begin(), n.end()) + "=" + str(s) + " "; *g_case = hist; check(s > maxs && !given.count(s), "symbol number reused"); given.insert(s); maxs = s; byname[n] = s; names[s] = n; }
        else if (op == 2) { std::wstring n(1 + r.below(3), L'A' + r.below(20)); int v = r.below(4) ? maxs + 1 + r.below(3) : r.below(maxs + 3); if (byname.count(n) || given.count(v)) continue; d.add_symbol(n, v); hist += "value " + std::string(n.begin(), n.end()) + "=" + str(v) + " "; *g_case = hist; given.insert(v); if (v > maxs) maxs = v; byname[n] = v; names[v] = n; }
        else if (!given.empty()) { int k = r.below((int)given.size()); std::set<int>::iterator it = given.begin(); while (k--) ++it; int of = *it; int s = d.split(of); hist += "split " + str(of) + "=" + str(s) + " "; *g_case = hist; check(s > maxs && !given.count(s), "symbol number reused"); given.insert(s); maxs = s; parent[s] = parent.count(of) ? parent[of] : of; }
        check(d.count_symbols() == (int)names.size(), "count_symbols");
        for (int s = -1; s <= maxs + 1; ++s) {
            check(d.parent_of(s) == (parent.count(s) ? parent[s] : s), "parent of " + str(s));
            std::set<int> ch; for (std::map<int, int>::iterator p = parent.begin(); p != parent.end(); ++p) if (p->second == s) ch.insert(p->first);
            check(d.children_of(s) == ch, "children of " + str(s));
            int ns = names.count(s) ? s : parent.count(s) ? parent[s] : s;
            check(d.name_for_symbol(s) == (names.count(ns) ? names[ns] : L""), "name of " + str(s));
        }
        for (std::map<std::wstring, int>::iterator n = byname.begin(); n != byname.end(); ++n) check(d.symbol_for_name(n->first) == n->second, "symbol for a name");
        check(d.symbol_for_name(L"??") == -1, "unknown name");
        if (r.below(12) == 0) { terminal_dictionary c(d); d = c; hist += "copy "; }
    }
}
// a rule's own idea of its identifier, asked before and after the rule is extended
static void rulecache(Rng& r) {
    grammar g, h; std::string hist; std::vector<rule_container> rs; std::vector<std::string> ds; std::map<std::string, int> ids, hids;
    for (int step = 0; step < 25; ++step) {
        if (rs.empty() || r.below(4) == 0) { drule x = grule(r, 1); rs.push_back(x.first); ds.push_back(x.second); hist += "new " + x.second + "; "; }
        size_t k = r.below((int)rs.size());
        int op = r.below(4);
        if (op == 0) { ditem i = gitem(r, 1); *rs[k] << i.first; ds[k] += i.second + " "; hist += str((int)k) + " << " + i.second + "; "; }
        else if (op == 1) { size_t j = r.below((int)rs.size()); if (j != k) { *rs[k] << *rs[j]; ds[k] += itemsof(drule(rs[j], ds[j])); hist += str((int)k) + " << rule " + str((int)j) + "; "; } }
        else if (op == 2) { size_t j = r.below((int)rs.size()); *rs[k] = *rs[j]; ds[k] = ds[j]; hist += str((int)k) + " = rule " + str((int)j) + "; "; }
        begin_case("rule identifiers " + hist, step > 2);
        bool other = r.coin(); grammar& in = other ? h : g; std::map<std::string, int>& m = other ? hids : ids;
        int id = rs[k]->identifier(in);
        if (m.count(ds[k])) check(id == m[ds[k]], "rule::identifier of an equal rule"); else { check(id == (int)m.size(), "rule::identifier of a new rule"); m[ds[k]] = id; }
        check(in.identifier_for_rule(rs[k]) == id && *in.rule_with_identifier(id) == *rs[k], "rule with its identifier");
        // the grammar keeps the object it was given: register a copy from here on, so that extending the rule does not change the grammar's own
        rs[k] = rule_container(new rule(*rs[k]), true); if (r.coin()) rs[k]->identifier(in);
    }
}
static void grammars(Rng& r) {
    grammar* g = new grammar(); std::map<std::string, int> ids, rids; std::vector<std::string> byid, rbyid; std::map<std::wstring, int> nts; std::string hist;
    std::vector<ditem> items; std::vector<drule> rules;
    // the grammar registers the empty item itself
    { item_container e(new empty_item(), true); begin_case("empty grammar", false); check(g->identifier_for_item(e) == 0 && g->max_item_identifier() == 1, "first identifier"); ids["e"] = 0; byid.push_back("e"); items.push_back(ditem(e, "e")); }
    std::vector<item_container> keep(1, items[0].first); std::vector<rule_container> rkeep;
    for (int step = 0; step < 80; ++step) {
        int op = r.below(6);
        if (op < 2) {
            ditem x = r.coin() && items.size() > 3 ? items[r.below(items.size())] : gitem(r, r.below(4)); while (x.second[0] == 'n') x = gitem(r, 1);
            items.push_back(x); hist += x.second + "; "; begin_case("grammar history " + hist, step > 2);
            int id = g->identifier_for_item(x.first);
            if (ids.count(x.second)) check(id == ids[x.second], "item identifier changed"); else { check(id == (int)byid.size(), "item identifiers are not dense"); ids[x.second] = id; byid.push_back(x.second); keep.push_back(x.first); }
        } else if (op < 4) {
            drule x = r.coin() && rules.size() > 3 ? rules[r.below(rules.size())] : grule(r, r.below(3));
            rules.push_back(x); hist += x.second + "; "; begin_case("grammar history " + hist, step > 2);
            int id = g->identifier_for_rule(x.first);
            if (rids.count(x.second)) check(id == rids[x.second], "rule identifier changed"); else { check(id == (int)rbyid.size(), "rule identifiers are not dense"); rids[x.second] = id; rbyid.push_back(x.second); rkeep.push_back(x.first); }
        } else {
            std::wstring n(1 + r.below(2), L'a' + r.below(9)); hist += "<" + std::string(n.begin(), n.end()) + ">; "; begin_case("grammar history " + hist, step > 2);
            check(g->nonterminal_is_defined(n) == (nts.count(n) > 0), "nonterminal_is_defined");
            item_container c(g->get_nonterminal(n)); int id = g->id_for_nonterminal(n);
            check(c->symbol() == id && c->type() == item::nonterminal, "get_nonterminal");
            if (nts.count(n)) check(nts[n] == id, "nonterminal identifier changed"); else { check(id == (int)byid.size(), "nonterminal identifiers are not dense"); nts[n] = id; ids["n" + str(id)] = id; byid.push_back("n" + str(id)); keep.push_back(c); }
            check(g->name_for_nonterminal(id) == n, "name_for_nonterminal");
        }
        check(g->max_item_identifier() == (int)byid.size() && g->max_rule_identifier() == (int)rbyid.size(), "number of identifiers");
        if (r.below(10) == 0) { grammar* c = new grammar(); *c = *g; delete g; g = c; hist += "assign; "; }
        if (step % 8 == 7) {
            for (size_t i = 0; i < byid.size(); ++i) { check(g->item_with_identifier(i) == keep[i] && *g->item_with_identifier(i) == *keep[i], "item with identifier " + str(i)); check(g->identifier_for_item(keep[i]) == (int)i, "identifier of item " + str(i)); }
            for (size_t i = 0; i < rbyid.size(); ++i) { check(*g->rule_with_identifier(i) == *rkeep[i], "rule with identifier " + str(i)); check(g->identifier_for_rule(rkeep[i]) == (int)i, "identifier of rule " + str(i)); check(rkeep[i]->identifier(*g) == (int)i, "rule::identifier"); }
            check(g->item_with_identifier(byid.size())->type() == item::empty && g->item_with_identifier(-1)->type() == item::empty, "unknown item identifier");
            for (std::map<std::wstring, int>::iterator n = nts.begin(); n != nts.end(); ++n) check(g->id_for_nonterminal(n->first) == n->second && g->name_for_nonterminal(n->second) == n->first, "nonterminal names");
            g->clear_caches();
        }
    }
    delete g;
}
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(g_seed * 77 + 5);
    for (int i = 0; i < 400 * g_scale; ++i) { if (i % 20 == 0) watchdog(); symmaps(r); dicts(r); rulecache(r); grammars(r); }
    return finish();
}
