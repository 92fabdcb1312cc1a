// Executes scripts of smart pointer operations. Every object has a number; the harness reports
// which of them have not been destroyed after every step.
#include "harness.h"
#include <ply-runtime/container/Owned.h>
#include <ply-runtime/container/Reference.h>
#include <ply-runtime/container/WeakRef.h>
#include <ply-runtime/container/Functor.h>
#include <ply-runtime/container/Switch.h>
#include <set>
using namespace ply;

static std::set<int> g_alive, g_strong;
static int g_twice = 0, g_next = 1;
static int born() {
    g_alive.insert(g_next);
    g_strong.insert(g_next);
    return g_next++;
}
static void died(int id) {
    if (!g_alive.erase(id))
        g_twice++;
    g_strong.erase(id);
}
struct ONode {
    int id = born();
    Owned<ONode> next;
    virtual ~ONode() {
        died(this->id);
    }
};
struct ODerived : ONode {
    int* extra = new int(5);
    ~ODerived() {
        delete this->extra;
    }
};
struct RNode : RefCounted<RNode> {
    int id = born();
    Reference<RNode> next;
    void onRefCountZero() {
        delete this;
    }
    ~RNode() {
        died(this->id);
    }
};
struct DNode : DualRefCounted<DNode> {
    int id = born();
    WeakRef<DNode> kept;
    void onPartialRefCountZero() {
        if (!g_strong.erase(this->id))
            g_twice++;
        if (this->kept == this)
            this->kept = (DNode*) nullptr; // this may be gone now
    }
    void onFullRefCountZero() {
        delete this;
    }
    ~DNode() {
        died(this->id);
    }
};
// A value that owns a number; copies share it.
struct Tok {
    std::shared_ptr<int> p;
    Tok() = default;
    explicit Tok(int id) : p{new int(id), [](int* q) {
                                 died(*q);
                                 delete q;
                             }} {
    }
    int id() const {
        return p ? *p : 0;
    }
};
struct Sw {
    struct None {};
    struct One {
        Tok tok;
    };
    struct Two {
        int pad[8] = {1, 2, 3, 4, 5, 6, 7, 8};
        Tok tok;
        Two() = default;
        Two(Tok&& t) : tok{std::move(t)} {
        }
    };
    enum class ID : u16 { None, One, Two, Count };
    union Storage_ {
        None none;
        One one;
        Two two;
        Storage_() {
        }
        ~Storage_() {
        }
    };
    SWITCH_FOOTER(Sw, None)
    SWITCH_ACCESSOR(None, none)
    SWITCH_ACCESSOR(One, one)
    SWITCH_ACCESSOR(Two, two)
};
SWITCH_TABLE_BEGIN(Sw)
SWITCH_TABLE_STATE(Sw, None)
SWITCH_TABLE_STATE(Sw, One)
SWITCH_TABLE_STATE(Sw, Two)
SWITCH_TABLE_END(Sw)

using Fn = Functor<int(int)>;
struct State {
    Owned<ONode> o[3];
    Reference<RNode> r[3];
    Reference<DNode> d[3];
    WeakRef<DNode> w[3];
    std::unique_ptr<Fn> f[3];
    int fadd[3];
    std::unique_ptr<Sw> s[3];
    OptionallyOwned<ONode> p[3];
    State() {
        for (int k = 0; k < 3; k++) {
            f[k].reset(new Fn);
            s[k].reset(new Sw);
        }
    }
};
static std::unique_ptr<State> g;

static int swTok(Sw& s, int& st) {
    st = (bool) s.one() ? 1 : (bool) s.two() ? 2 : (bool) s.none() ? 0 : -1;
    if ((int) s.id != st)
        st = -2;
    if (st == 1)
        return s.one()->tok.id();
    if (st == 2) {
        for (int j = 0; j < 8; j++)
            if (s.two()->pad[j] != j + 1)
                return -3;
        return ((const Sw&) s).two()->tok.id();
    }
    return 0;
}
static int callF(int k) {
    Fn& f = *g->f[k];
    if (!f)
        return f.isValid() ? -1 : 0;
    return f(1000) - 1000;
}
static void look(Ev& e) {
    std::vector<int> o, r, d, w, f, st, s, p, rc, dc, wc;
    std::string po = "[";
    for (int k = 0; k < 3; k++) {
        o.push_back(g->o[k] ? g->o[k]->id : 0);
        r.push_back(g->r[k] ? g->r[k]->id : 0);
        rc.push_back(g->r[k] ? g->r[k]->getRefCount() : 0);
        d.push_back(g->d[k] ? g->d[k]->id : 0);
        dc.push_back(g->d[k] ? (int) g->d[k]->getRefCount() : 0);
        wc.push_back(g->d[k] ? (int) g->d[k]->getWeakRefCount() : 0);
        w.push_back(g->w[k] ? g->w[k]->id : 0);
        f.push_back(callF(k));
        int t;
        s.push_back(swTok(*g->s[k], t));
        st.push_back(t);
        p.push_back(g->p[k].get() ? g->p[k]->id : 0);
        po += std::string(k ? "," : "") + (g->p[k].isOwned() ? "true" : "false");
    }
    e.a("alive", g_alive).a("strong", g_strong).i("twice", g_twice);
    e.a("o", o).a("r", r).a("d", d).a("w", w).a("f", f).a("st", st).a("s", s).a("p", p);
    e.raw("po", po + "]").a("rc", rc).a("dc", dc).a("wc", wc).out();
}
static void reset() {
    g.reset();
    Ev("reset").i("live", (long long) g_alive.size() + g_twice).out();
    g_alive.clear();
    g_strong.clear();
    g_twice = 0;
    g_next = 1;
}
template <typename T>
static void re(T& x) { // destroys and default-constructs
    x.~T();
    new (&x) T;
}
template <typename T, typename U>
static void re(T& x, U&& v) { // destroys and constructs from v
    x.~T();
    new (&x) T{std::forward<U>(v)};
}
static ONode* newO(int how) {
    return how % 2 ? new ODerived : new ONode;
}
void runCommand(const Cmd& c) {
    const std::string& op = c.op();
    if (op == "reset") {
        reset();
        g.reset(new State);
        return;
    }
    int k = (int) c.i(0), j = (int) c.i(1), how = (int) c.i(2);
    State& t = *g;
    Ev e{op.c_str()};
    e.i("k", k);
    if (op == "onew") {
        if (how == 0)
            t.o[k] = new ONode;
        else if (how == 1)
            t.o[k] = Owned<ONode>::create();
        else if (how == 2)
            t.o[k] = Owned<ODerived>::create();
        else
            re(t.o[k], Owned<ODerived>{new ODerived});
    } else if (op == "omove") {
        if (k == j)
            return;
        if (how == 0)
            t.o[k] = std::move(t.o[j]);
        else if (how == 1)
            re(t.o[k], std::move(t.o[j]));
        else
            t.o[k] = t.o[j].release();
        e.i("j", j);
    } else if (op == "opush") {
        Owned<ONode> n = newO(how);
        n->next = std::move(t.o[k]);
        t.o[k] = std::move(n);
    } else if (op == "opop") {
        if (!t.o[k])
            return;
        if (how == 0)
            t.o[k] = std::move(t.o[k]->next);
        else if (how == 1)
            t.o[k] = t.o[k]->next.release();
        else {
            Owned<ONode> n = std::move(t.o[k]->next);
            t.o[k] = std::move(n);
        }
    } else if (op == "oclear") {
        if (how == 0)
            t.o[k].clear();
        else if (how == 1)
            t.o[k] = nullptr;
        else if (how == 2)
            re(t.o[k]);
        else
            subst::destroyByMember(t.o[k].release());
    } else if (op == "borrow") {
        Borrowed<ONode> b = t.o[k].borrow();
        OptionallyOwned<ONode> q{b};
        OptionallyOwned<ONode> q2{std::move(q)};
        e.i("x", q2.get() ? q2->id : 0).t("own", q2.isOwned());
    } else if (op == "rnew") {
        if (how == 0)
            t.r[k] = new RNode;
        else if (how == 1)
            t.r[k] = Reference<RNode>{new RNode};
        else
            re(t.r[k], Reference<RNode>{new RNode});
    } else if (op == "rcopy") {
        if (how == 0)
            t.r[k] = t.r[j];
        else if (how == 1)
            t.r[k] = t.r[j].get();
        else if (k != j)
            re(t.r[k], (const Reference<RNode>&) t.r[j]);
        else {
            Reference<RNode> x{t.r[j]};
            t.r[k] = x;
        }
        e.i("j", j);
    } else if (op == "rmove") {
        if (k == j)
            return;
        if (how == 0)
            t.r[k] = std::move(t.r[j]);
        else if (how == 1)
            re(t.r[k], std::move(t.r[j]));
        else { // the count travels with the raw pointer
            RNode* raw = t.r[j].release();
            t.r[k] = raw;
            if (raw)
                raw->decRef();
        }
        e.i("j", j);
    } else if (op == "rclear") {
        if (how == 0)
            t.r[k].clear();
        else if (how == 1)
            t.r[k] = nullptr;
        else
            re(t.r[k]);
        if (!t.r[k].isEmpty() || (bool) t.r[k])
            g_twice += 100;
    } else if (op == "rlink") {
        if (!t.r[k])
            return;
        for (RNode* n = t.r[j]; n; n = n->next)
            if (n == t.r[k].get())
                return;
        t.r[k]->next = t.r[j];
        e.i("j", j);
    } else if (op == "rpopc") {
        if (!t.r[k])
            return;
        if (how == 0)
            t.r[k] = t.r[k]->next;
        else
            t.r[k] = t.r[k]->next.get();
    } else if (op == "rpopm") {
        if (!t.r[k])
            return;
        t.r[k] = std::move(t.r[k]->next);
    } else if (op == "dnew") {
        t.d[k] = new DNode;
    } else if (op == "dcopy") {
        t.d[k] = t.d[j];
        e.i("j", j);
    } else if (op == "dmove") {
        if (k == j)
            return;
        t.d[k] = std::move(t.d[j]);
        e.i("j", j);
    } else if (op == "wtake") {
        if (how == 0)
            t.w[k] = t.d[j].get();
        else if (how == 1 || !t.d[j])
            re(t.w[k], t.d[j].get());
        else {
            re(t.w[k]);
            t.w[k].setFromNull(t.d[j].get());
        }
        e.i("j", j);
    } else if (op == "wcopy") {
        if (t.w[j] && !g_strong.count(t.w[j]->id))
            return;
        if (how == 0 || k == j)
            t.w[k] = t.w[j];
        else
            re(t.w[k], (const WeakRef<DNode>&) t.w[j]);
        e.i("j", j);
    } else if (op == "wmove") {
        if (k == j)
            return;
        if (how == 0)
            t.w[k] = std::move(t.w[j]);
        else
            re(t.w[k], std::move(t.w[j]));
        e.i("j", j);
    } else if (op == "dkeep") {
        if (!t.d[k] || !t.d[j] || t.d[j]->id > t.d[k]->id)
            return;
        if (how == 0)
            t.d[k]->kept = t.d[j].get();
        else
            t.d[k]->kept = WeakRef<DNode>{t.d[j].get()};
        e.i("j", j);
    } else if (op == "wpopm") {
        if (!t.w[k])
            return;
        t.w[k] = std::move(t.w[k]->kept);
    } else if (op == "wclear") {
        if (how == 0)
            t.w[k] = (DNode*) nullptr;
        else
            re(t.w[k]);
    } else if (op == "fnew") {
        int id = born();
        Tok tok{id};
        if (how == 0) {
            Fn fn{[tok](int x) { return x + tok.id(); }};
            tok = Tok{};
            *t.f[k] = std::move(fn);
        } else if (how == 1) {
            t.f[k].reset(new Fn{[tok = std::move(tok)](int x) { return x + tok.id(); }});
        } else {
            struct Big {
                Tok t;
                int pad[60];
                int operator()(int x) {
                    return x + t.id() + pad[59] - 59;
                }
            };
            Big big;
            big.t = std::move(tok);
            for (int q = 0; q < 60; q++)
                big.pad[q] = q;
            *t.f[k] = Fn{big}; // copies an lvalue callable
        }
    } else if (op == "fmove") {
        if (k == j)
            return;
        if (how == 0)
            *t.f[k] = std::move(*t.f[j]);
        else
            t.f[k].reset(new Fn{std::move(*t.f[j])});
        e.i("j", j);
    } else if (op == "fclear") {
        if (how == 0)
            *t.f[k] = Fn{};
        else
            t.f[k].reset(new Fn);
    } else if (op == "snew") { // j: state
        Sw& s = *t.s[k];
        Tok tok;
        if (j)
            tok = Tok{born()};
        if (how == 0) {
            if (j == 0)
                s.none().switchTo();
            else if (j == 1)
                s.one().switchTo(std::move(tok));
            else
                s.two().switchTo(std::move(tok));
        } else if (how == 1) {
            s.switchTo((Sw::ID) j);
            if (j == 1)
                s.one()->tok = std::move(tok);
            else if (j == 2)
                s.two()->tok = std::move(tok);
        } else if (how == 2) {
            if (j == 0)
                s = Sw{};
            else if (j == 1)
                s = Sw::One{std::move(tok)};
            else
                s = Sw::Two{std::move(tok)};
        } else {
            s.switchTo((Sw::ID) j);
            if (j == 1)
                s.one() = Sw::One{tok};
            else if (j == 2) {
                Sw::Two x{std::move(tok)};
                s.two() = x;
            }
        }
        tok = Tok{};
        e.i("t", j);
    } else if (op == "scopy") {
        if (k == j && how != 0)
            return;
        if (how == 0)
            *t.s[k] = (const Sw&) *t.s[j];
        else
            t.s[k].reset(new Sw{(const Sw&) *t.s[j]});
        e.i("j", j);
    } else if (op == "smove") {
        if (k == j)
            return;
        if (how == 0)
            *t.s[k] = std::move(*t.s[j]);
        else
            t.s[k].reset(new Sw{std::move(*t.s[j])});
        e.i("j", j);
    } else if (op == "pown") {
        if (how == 0)
            t.p[k] = OptionallyOwned<ONode>{Owned<ONode>::create()};
        else
            re(t.p[k], Owned<ODerived>::create());
    } else if (op == "pmove") {
        if (k == j)
            return;
        if (how == 0)
            t.p[k] = std::move(t.p[j]);
        else
            re(t.p[k], std::move(t.p[j]));
        e.i("j", j);
    } else if (op == "ptake") {
        if (!t.o[j])
            return;
        t.p[k] = std::move(t.o[j]);
        e.i("j", j);
    } else if (op == "pclear") {
        if (how == 0)
            t.p[k] = OptionallyOwned<ONode>{};
        else if (how == 1 && t.p[k].isOwned())
            delete t.p[k].release();
        else
            re(t.p[k]);
    } else
        toolError(("unknown " + op).c_str());
    look(e);
}
void finishRun() {
    reset();
}
