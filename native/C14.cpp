// sources: TameParse/Dfa/*.cpp TameParse/ContextFree/*.cpp TameParse/Lr/*.cpp TameParse/Util/*.cpp
// bound: random action sets of up to 14 actions over 7 terminals, 3 nonterminals, the end of input and guards, up to 5 rules; random sets of ignored symbols and random maps of strong to weak symbols (shared weak symbols, strong symbols without weak ones); each rewriter and its clone, applied once and twice
#include "vh.h"
#include "TameParse/ContextFree/grammar.h"
#include "TameParse/Lr/ignored_symbols.h"
#include "TameParse/Lr/weak_symbols.h"
#include "TameParse/Lr/lalr_builder.h"
using namespace vh;
using namespace contextfree;
using lr::lr_action; using lr::lr_action_container; using lr::lr_action_set;
struct act { int type, item, next, rule; bool operator<(const act& o) const { return std::tie(item, type, next, rule) < std::tie(o.item, o.type, o.next, o.rule); } bool operator==(const act& o) const { return !(*this < o) && !(o < *this); } };
typedef std::set<act> aset;
static const int T = 7, N = 3;      // items: 0..6 terminals, 10.. nonterminals, 20 end of input, 30.. guards
static std::vector<item_container>* items; static std::vector<int>* itemNo; static std::vector<rule_container>* rules;
static item_container mk(int i) { for (size_t k = 0; k < itemNo->size(); ++k) if ((*itemNo)[k] == i) return (*items)[k]; fail("?"); }
static const char* names[] = { "shift", "shiftstrong", "ignore", "reduce", "weakreduce", "accept", "goto", "divert", "guard" };
static std::string show(const aset& s) { std::string d; for (auto& a : s) d += std::string(names[a.type]) + " on " + str(a.item) + "->" + str(a.next) + (a.rule >= 0 ? "/r" + str(a.rule) : "") + "; "; return d; }
static lr_action_container mkact(const act& a) {
    if (a.rule < 0) return lr_action_container(new lr_action((lr_action::action_type)a.type, mk(a.item), a.next), true);
    return lr_action_container(new lr_action((lr_action::action_type)a.type, mk(a.item), a.next, (*rules)[a.rule]), true);
}
static aset read(const lr_action_set& s) {
    aset r;
    for (lr_action_set::const_iterator i = s.begin(); i != s.end(); ++i) {
        act a; a.type = (*i)->type(); a.next = (*i)->next_state(); a.item = -1; a.rule = -1;
        for (size_t k = 0; k < items->size(); ++k) if ((*i)->item() == (*items)[k]) a.item = (*itemNo)[k];
        check(a.item >= 0, "an action on an item that was not there");
        for (size_t k = 0; k < rules->size(); ++k) if ((*i)->rule() == (*rules)[k]) a.rule = (int)k;
        check(r.insert(a).second, "an action is there twice");
    }
    return r;
}
static bool term(int i) { return i < 10; }
static aset ignored_oracle(const aset& a, const std::set<int>& ign, int state) {
    aset r; std::set<int> used;
    for (act x : a) {
        if (x.type == lr_action::act_reduce && ign.count(x.item)) x.type = lr_action::act_weakreduce;
        if (x.type == lr_action::act_shift || x.type == lr_action::act_ignore) used.insert(x.item);
        r.insert(x);
    }
    for (int i : ign) if (!used.count(i)) r.insert(act{lr_action::act_ignore, i, state, -1});
    return r;
}
static aset weak_oracle(const aset& a, const std::map<int, std::set<int> >& m, const std::set<int>& weak) {
    bool have = false;
    for (auto& x : a) { auto f = m.find(x.item); if (term(x.item) && f != m.end() && !f->second.empty()) have = true; }
    if (!have) return a;
    aset r; std::set<int> own;
    for (act x : a) {
        if (term(x.item) && weak.count(x.item)) { if (x.type != lr_action::act_guard) own.insert(x.item); if (x.type == lr_action::act_reduce) x.type = lr_action::act_weakreduce; }
        r.insert(x);
    }
    for (act x : a) if (term(x.item) && !weak.count(x.item)) {
        auto f = m.find(x.item); if (f == m.end()) continue;
        for (int w : f->second) if (term(w) && !own.count(w)) { act y = x; y.item = w; if (y.type == lr_action::act_shift) y.type = lr_action::act_shiftstrong; r.insert(y); }
    }
    return r;
}
static void apply(const lr::action_rewriter& rw, const aset& in, const aset& want, int state, const lr::lalr_builder& b, const std::string& what) {
    lr_action_set s; for (auto& a : in) s.insert(mkact(a));
    lr_action_set before(s);
    rw.rewrite_actions(state, s, b);
    aset got = read(s);
    for (auto& a : want) if (!got.count(a)) fail(what + ": missing action " + show(aset{a}) + " got " + show(got));
    for (auto& a : got) if (!want.count(a)) fail(what + ": unexpected action " + show(aset{a}) + " wanted " + show(want));
    check(read(before) == in, what + ": the actions of another state changed");
}
int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(g_seed);
    items = new std::vector<item_container>(); itemNo = new std::vector<int>(); rules = new std::vector<rule_container>();
    for (int i = 0; i < T; ++i) { items->push_back(item_container(new terminal(i), true)); itemNo->push_back(i); }
    for (int i = 0; i < N; ++i) { items->push_back(item_container(new nonterminal(i), true)); itemNo->push_back(10 + i); }
    items->push_back(item_container(new end_of_input(), true)); itemNo->push_back(20);
    for (int i = 0; i < 2; ++i) { rule x(1); x << terminal(i); items->push_back(item_container(new contextfree::guard(x), true)); itemNo->push_back(30 + i); }
    for (int i = 0; i < 5; ++i) { rule* x = new rule(i % 3); for (int k = 0; k < i; ++k) *x << terminal(k); rules->push_back(rule_container(x, true)); }
    grammar g; terminal_dictionary d; lr::lalr_builder builder(g, d);
    int cases = 20000 * g_scale;
    for (int c = 0; c < cases; ++c) {
        watchdog(60);
        aset a; int n = r.below(15);
        while (n--) {
            act x; x.next = r.below(4); x.rule = -1;
            int k = r.below(10);
            if (k < 7) { x.item = r.below(T); static const int ty[] = { lr_action::act_shift, lr_action::act_shift, lr_action::act_shift, lr_action::act_reduce, lr_action::act_reduce, lr_action::act_weakreduce, lr_action::act_ignore, lr_action::act_accept, lr_action::act_shiftstrong, lr_action::act_guard }; x.type = ty[r.below(10)]; }
            else if (k == 7) { x.item = 10 + r.below(N); x.type = r.coin() ? lr_action::act_goto : lr_action::act_divert; }
            else if (k == 8) { x.item = 20; x.type = r.coin() ? lr_action::act_reduce : lr_action::act_accept; }
            else { x.item = 30 + r.below(2); x.type = lr_action::act_guard; }
            if (x.type == lr_action::act_reduce || x.type == lr_action::act_weakreduce || x.type == lr_action::act_accept || x.type == lr_action::act_guard) x.rule = r.below(5);
            a.insert(x);
        }
        int state = r.below(6);
        { // ignored symbols
            lr::ignored_symbols ig; std::set<int> ign; int k = r.below(5);
            while (k--) { int i = r.below(12) ? r.below(T) : 10; ign.insert(i); if (i < 10 && r.coin()) ig.add_item(terminal(i)); else ig.add_item(mk(i)); }
            begin_case("ignored " + strv(std::vector<int>(ign.begin(), ign.end())) + " state " + str(state) + " actions " + show(a), a.size() > 2);
            aset want = ignored_oracle(a, ign, state);
            apply(ig, a, want, state, builder, "ignored symbols");
            lr::action_rewriter* cl = ig.clone(); apply(*cl, a, want, state, builder, "clone of ignored symbols"); delete cl;
            apply(ig, want, ignored_oracle(want, ign, state), state, builder, "ignored symbols, twice");
        }
        { // weak symbols: strong ones 0..3, weak ones 3..6
            std::map<int, std::set<int> > m; std::set<int> weak; std::string ms;
            lr::weak_symbols ws(&g);
            int k = r.below(4);
            while (k--) {
                int s = r.below(3); item_set is(&g); int q = r.below(4);
                m[s]; while (q--) { int w = r.range(3, T - 1); is.insert(mk(w)); m[s].insert(w); weak.insert(w); ms += str(s) + "~" + str(w) + " "; }
                ws.add_symbols(mk(s), is);
            }
            begin_case("weak " + ms + " actions " + show(a), a.size() > 2);
            aset want = weak_oracle(a, m, weak);
            apply(ws, a, want, state, builder, "weak symbols");
            lr::action_rewriter* cl = ws.clone(); apply(*cl, a, want, state, builder, "clone of weak symbols"); delete cl;
            for (auto& e : m) { item_set got(ws.weak_for_strong(mk(e.first))); for (int i = 0; i < T; ++i) check(got.contains(mk(i)) == (e.second.count(i) != 0), "weak_for_strong"); }
        }
    }
    return finish();
}
