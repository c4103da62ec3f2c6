// sources: TameParse/Util/container.cpp
// bound: histories of up to 400 random operations (new, copy, assign, push, pop, destroy; deep runs of pushes and pops) on up to 10 stacks from up to 3 stores, depth up to 300, initial store sizes 1, 2, 4 and 64
#include "vh.h"
#include "TameParse/Lr/parser_stack.h"
using namespace vh;
typedef std::vector<std::pair<int, std::string> > content;

template<int D> static void look(lr::parser_stack<std::string, D>& s, const content& c, const std::string& what, int k) {
    const lr::parser_stack<std::string, D>& cs = s;
    for (int i = 0; i < (int)c.size(); ++i) {
        const std::pair<int, std::string>& e = c[c.size() - 1 - i];
        check(s[-i].state == e.first && s[-i].item == e.second, what + ": stack " + str(k) + " shows the wrong entry at depth " + str(i));
        check(cs[-i].state == e.first && cs[-i].item == e.second, what + ": stack " + str(k) + " shows the wrong entry at depth " + str(i));
    }
    if (!c.empty()) check(s->state == c.back().first && (*s).item == c.back().second && cs->state == c.back().first && (*cs).item == c.back().second, what + ": top of stack " + str(k));
}

template<int D> static void history(Rng& r, int len) {
    typedef lr::parser_stack<std::string, D> S;
    std::vector<S*> h; std::vector<content> m;
    std::string d = "initial size " + str(D) + ":";
    int cnt = 0; int deep = r.range(1, 40);
    for (int step = 0; step < len; ++step) {
        int n = (int)h.size(), op = r.below(16); std::string what;
        if (n == 0) op = 0;
        if (n >= 10 && op <= 3) op = 15;
        if (op == 0 && n > 0 && r.coin()) op = 2;
        if (op == 0) { what = "new"; h.push_back(new S()); m.push_back(content()); int st = r.below(9); h.back()->push(st, "b"); m.back().push_back(std::make_pair(st, std::string("b"))); d += " new"; }
        else if (op <= 3) { int a = r.below(n); what = "copy of " + str(a); h.push_back(new S(*h[a])); m.push_back(content(m[a])); d += " copy" + str(a); }
        else if (op <= 5) { int a = r.below(n), b = r.below(n); what = str(a) + " = " + str(b); *h[a] = *h[b]; m[a] = content(m[b]); d += " " + str(a) + "=" + str(b); }
        else if (op <= 10) {
            int a = r.below(n), q = r.below(4) ? 1 : deep; what = "push on " + str(a);
            for (int i = 0; i < q && m[a].size() < 300; ++i) {
                int st = r.below(100); 
                if (r.below(5) == 0 && !m[a].empty()) { std::string v = m[a].back().second; h[a]->push(st, (*h[a])->item); m[a].push_back(std::make_pair(st, v)); }
                else { std::string v = "item" + str(cnt++); h[a]->push(st, v); m[a].push_back(std::make_pair(st, v)); }
            }
            d += " push" + str(a) + (q > 1 ? "x" + str(q) : "");
        }
        else if (op <= 13) { int a = r.below(n), q = r.below(4) ? 1 : deep; what = "pop of " + str(a); for (int i = 0; i < q && m[a].size() > 1; ++i) { check(h[a]->pop(), what + ": pop of a stack with entries fails"); m[a].pop_back(); } d += " pop" + str(a) + (q > 1 ? "x" + str(q) : ""); }
        else if (op == 14) { int a = r.below(n); what = "push and pop on " + str(a); S t(*h[a]); t.push(1, "t"); h[a]->push(2, "u"); check(t->item == "t" && (*h[a])->item == "u", what); check(t.pop() && h[a]->pop(), what); d += " pp" + str(a); }
        else { int a = r.below(n); what = "destruction of " + str(a); delete h[a]; h.erase(h.begin() + a); m.erase(m.begin() + a); d += " ~" + str(a); }
        begin_case(d, step % 16 == 15);
        for (size_t i = 0; i < h.size(); ++i) look<D>(*h[i], m[i], what, (int)i);
    }
    for (size_t i = 0; i < h.size(); ++i) {        // pop everything: the bottom refuses
        for (size_t k = m[i].size(); k > 0; --k) { check((*h[i])->item == m[i][k - 1].second, "final pops"); check(h[i]->pop(), "final pops"); }
        check(!h[i]->pop(), "popping an empty stack");
    }
    while (!h.empty()) { int a = r.below((int)h.size()); delete h[a]; h.erase(h.begin() + a); }
}

int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(g_seed);
    int cases = 250 * g_scale;
    for (int i = 0; i < cases; ++i) {
        watchdog(60);
        history<64>(r, r.range(5, 400)); history<4>(r, r.range(5, 200)); history<2>(r, r.range(5, 100)); history<1>(r, r.range(5, 60));
    }
    return finish();
}
