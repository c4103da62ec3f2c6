// sources: TameParse/Util/stringreader.cpp
// bound: histories of up to 120 random operations (create owned/unowned/cloned, copy, assign between any two handles including self and handles stored inside objects, destroy) over at most 12 outer handles; both pointer types
// Objects count their constructions and destructions. A plain model keeps, for every object, the set of
// handles that refer to it, and predicts after every operation exactly which objects are alive.
#include "vh.h"
#include "TameParse/Util/container.h"
#include "TameParse/Util/syntax_ptr.h"
using namespace vh;

static std::vector<int> g_made, g_killed;      // by object number
static int new_id() { g_made.push_back(1); g_killed.push_back(0); return (int)g_made.size() - 1; }

struct cnode {
    int id; util::container<cnode> next;
    explicit cnode(bool) : id(new_id()), next((cnode*)NULL, false) { }
    cnode() : id(new_id()), next((cnode*)NULL, false) { }
    cnode(const cnode& o) : id(new_id()), next(o.next) { }
    ~cnode() { ++g_killed[id]; }
    cnode* clone() const { return new cnode(*this); }
    static bool compare(const cnode* a, const cnode* b) { return a < b; }
    bool operator==(const cnode& o) const { return id == o.id; }
};
struct snode {
    int id; util::syntax_ptr<snode> next;
    snode() : id(new_id()) { }
    virtual ~snode() { ++g_killed[id]; }
};
struct sub_snode : public snode { int extra; };

// the model: handles (outer slots and the 'next' of each object) refer to objects
struct model {
    struct obj { bool owned, alive; int next; int refs; };      // refs: handles that refer to it
    std::vector<obj> o;                                          // by object id
    void retain(int x) { if (x >= 0) ++o[x].refs; }
    void release(int x) {
        if (x < 0) return;
        if (--o[x].refs == 0 && o[x].owned) { o[x].alive = false; int n = o[x].next; o[x].next = -1; release(n); }
    }
    bool reaches(int from, int to) { for (; from >= 0; from = o[from].next) if (from == to) return true; return false; }
};

static void check_all(model& m, const char* what) {
    for (size_t i = 0; i < m.o.size(); ++i) {
        if (g_killed[i] > 1) fail(std::string(what) + ": object " + str(i) + " destroyed " + str(g_killed[i]) + " times");
        if (m.o[i].alive && g_killed[i]) fail(std::string(what) + ": object " + str(i) + " destroyed while " + (m.o[i].owned ? "a handle refers to it" : "the handles do not own it"));
        if (!m.o[i].alive && !g_killed[i]) fail(std::string(what) + ": object " + str(i) + " not destroyed although its last handle is gone");
    }
    check(g_made.size() == m.o.size(), std::string(what) + ": number of objects");
}

// one history with containers
static void container_history(Rng& r, int len) {
    typedef util::container<cnode> C;
    g_made.clear(); g_killed.clear();
    std::string desc = "container:";
    model m; std::vector<C*> h; std::vector<int> ref; std::vector<cnode*> raw;   // raw: unowned objects, we delete them at the end
    // unowned objects: several handle groups may refer to one, none destroys it
    begin_case(desc, false);
    for (int s = 0; s < len; ++s) {
        int op = r.below(12), n = (int)h.size();
        if (n == 0 && op > 2) op = r.below(3);
        if (n >= 12 && op <= 5) op = 6 + r.below(6);
        const char* what = "?";
        switch (op) {
            case 0: { what = "create owned"; cnode* p = new cnode(true); m.o.push_back({true, true, -1, 1}); h.push_back(new C(p, true)); ref.push_back(p->id); desc += " new" + str(p->id); break; }
            case 1: { what = "create unowned"; cnode* p;
                if (!raw.empty() && r.coin()) p = raw[r.below((int)raw.size())];
                else { p = new cnode(true); raw.push_back(p); m.o.push_back({false, true, -1, 0}); }
                ++m.o[p->id].refs;
                h.push_back(r.coin() ? new C(p) : new C(p, false)); ref.push_back(p->id); desc += " unowned" + str(p->id); break; }
            case 2: { what = "create default"; C* c = new C(); m.o.push_back({true, true, -1, 1}); h.push_back(c); ref.push_back((*c)->id); desc += " def"; break; }
            case 3: { what = "create by cloning"; int a = r.below(n); if (ref[a] < 0) { h.push_back(new C((const cnode*)NULL)); ref.push_back(-1); desc += " null"; break; }
                const cnode* src = h[a]->item();
                C* c = r.coin() ? new C(*src) : new C(src);
                m.o.push_back({true, true, m.o[ref[a]].next, 1}); m.retain(m.o[ref[a]].next);
                h.push_back(c); ref.push_back((*c)->id); desc += " clone" + str(ref[a]); break; }
            case 4: case 5: { what = "copy"; int a = r.below(n); h.push_back(new C(*h[a])); ref.push_back(ref[a]); m.retain(ref[a]); desc += " copy" + str(a); break; }
            case 6: case 7: { what = "assign"; int a = r.below(n), b = r.below(n); *h[a] = *h[b]; m.retain(ref[b]); int old = ref[a]; ref[a] = ref[b]; m.release(old); desc += " " + str(a) + "=" + str(b); break; }
            case 8: { what = "assign from inside the object"; int a = r.below(n); if (ref[a] < 0) break;
                int nx = m.o[ref[a]].next; desc += " " + str(a) + "=" + str(a) + "->next"; begin_case(desc, false);
                *h[a] = (*h[a])->next; m.retain(nx); int old = ref[a]; ref[a] = nx; m.release(old); break; }
            case 9: { what = "assign into an object"; int a = r.below(n), b = r.below(n); if (ref[a] < 0 || (ref[b] >= 0 && m.reaches(ref[b], ref[a]))) break;
                desc += " " + str(a) + "->next=" + str(b); begin_case(desc, false);
                (*h[a])->next = *h[b]; m.retain(ref[b]); int old = m.o[ref[a]].next; m.o[ref[a]].next = ref[b]; m.release(old); break; }
            case 10: { what = "self assign"; int a = r.below(n); *h[a] = *(C*)h[a]; C t(*h[a]); *h[a] = t; t = *h[a]; desc += " " + str(a) + "=self"; break; }
            default: { what = "destroy"; int a = r.below(n); delete h[a]; int old = ref[a]; h.erase(h.begin() + a); ref.erase(ref.begin() + a); m.release(old); desc += " ~" + str(a); break; }
        }
        begin_case(desc, s % 8 == 7);
        check_all(m, what);
        for (size_t i = 0; i < h.size(); ++i) {
            if (ref[i] < 0) check(h[i]->item() == NULL, std::string(what) + ": a null handle refers to an object");
            else check((*h[i])->id == ref[i] && (**h[i]).id == ref[i], std::string(what) + ": handle " + str(i) + " refers to the wrong object");
            for (size_t j = 0; j < h.size(); ++j) check((*h[i] == *h[j]) == (ref[i] == ref[j]) && (*h[i] != *h[j]) == (ref[i] != ref[j]), std::string(what) + ": handle equality");
        }
    }
    while (!h.empty()) { int a = r.below((int)h.size()); delete h[a]; int old = ref[a]; h.erase(h.begin() + a); ref.erase(ref.begin() + a); m.release(old); begin_case(desc + " end", false); check_all(m, "final destroy"); }
    for (size_t i = 0; i < raw.size(); ++i) { int id = raw[i]->id; delete raw[i]; m.o[id].alive = false; int n = m.o[id].next; m.o[id].next = -1; m.release(n); }
    check_all(m, "end of history");
}

static void syntax_history(Rng& r, int len) {
    typedef util::syntax_ptr<snode> S;
    g_made.clear(); g_killed.clear();
    std::string desc = "syntax_ptr:";
    model m; std::vector<S*> h; std::vector<int> ref;
    begin_case(desc, false);
    for (int s = 0; s < len; ++s) {
        int op = r.below(12), n = (int)h.size();
        if (n == 0 && op > 1) op = r.below(2);
        if (n >= 12 && op <= 5) op = 6 + r.below(6);
        const char* what = "?";
        switch (op) {
            case 0: { what = "create"; snode* p = r.coin() ? new snode() : new sub_snode(); m.o.push_back({true, true, -1, 1}); h.push_back(new S(p)); ref.push_back(p->id); desc += " new" + str(p->id); break; }
            case 1: { what = "create null"; h.push_back(new S()); ref.push_back(-1); desc += " null"; break; }
            case 2: { what = "cast"; int a = r.below(n); util::syntax_ptr<sub_snode> c = h[a]->cast_to<sub_snode>(); h.push_back(new S(c.cast_to<snode>())); ref.push_back(ref[a]); m.retain(ref[a]); desc += " cast" + str(a); break; }
            case 3: case 4: case 5: { what = "copy"; int a = r.below(n); h.push_back(new S(*h[a])); ref.push_back(ref[a]); m.retain(ref[a]); desc += " copy" + str(a); break; }
            case 6: case 7: { what = "assign"; int a = r.below(n), b = r.below(n); *h[a] = *h[b]; m.retain(ref[b]); int old = ref[a]; ref[a] = ref[b]; m.release(old); desc += " " + str(a) + "=" + str(b); break; }
            case 8: { what = "assign from inside the object"; int a = r.below(n); if (ref[a] < 0) break;
                int nx = m.o[ref[a]].next; desc += " " + str(a) + "=" + str(a) + "->next"; begin_case(desc, false);
                *h[a] = (*h[a])->next; m.retain(nx); int old = ref[a]; ref[a] = nx; m.release(old); break; }
            case 9: { what = "assign into an object"; int a = r.below(n), b = r.below(n); if (ref[a] < 0 || (ref[b] >= 0 && m.reaches(ref[b], ref[a]))) break;
                desc += " " + str(a) + "->next=" + str(b); begin_case(desc, false);
                const_cast<snode*>(h[a]->item())->next = *h[b]; m.retain(ref[b]); int old = m.o[ref[a]].next; m.o[ref[a]].next = ref[b]; m.release(old); break; }
            case 10: { what = "self assign"; int a = r.below(n); *h[a] = *(S*)h[a]; S t(*h[a]); *h[a] = t; t = *h[a]; desc += " " + str(a) + "=self"; break; }
            default: { what = "destroy"; int a = r.below(n); delete h[a]; int old = ref[a]; h.erase(h.begin() + a); ref.erase(ref.begin() + a); m.release(old); desc += " ~" + str(a); break; }
        }
        begin_case(desc, s % 8 == 7);
        check_all(m, what);
        for (size_t i = 0; i < h.size(); ++i) {
            if (ref[i] < 0) check(h[i]->item() == NULL && !(bool)*h[i], std::string(what) + ": a null handle refers to an object");
            else check(h[i]->item() != NULL && (*h[i])->id == ref[i] && (**h[i]).id == ref[i], std::string(what) + ": handle " + str(i) + " refers to the wrong object");
        }
    }
    while (!h.empty()) { int a = r.below((int)h.size()); delete h[a]; int old = ref[a]; h.erase(h.begin() + a); ref.erase(ref.begin() + a); m.release(old); begin_case(desc + " end", false); check_all(m, "final destroy"); }
    check_all(m, "end of history");
}

int main(int argc, char** argv) {
    init(argc, argv);
    Rng r(g_seed);
    int n = 3000 * g_scale;
    for (int i = 0; i < n; ++i) { watchdog(60); container_history(r, r.range(2, 120)); syntax_history(r, r.range(2, 120)); }
    return finish();
}
