// Executes scripts of Sequence operations for several item sizes.
#include "harness.h"
#include <ply-runtime/container/Sequence.h>
using namespace ply;

static long long g_live = 0;
template <u32 Pad>
struct Item {
    int* p;
    char pad[Pad];
    void fill() {
        for (u32 i = 0; i < Pad; i++)
            pad[i] = (char) (*p + i * 7);
    }
    Item(int v) : p{new int(v)} {
        fill();
        g_live++;
    }
    Item(const Item& o) : p{new int(*o.p)} {
        fill();
        g_live++;
    }
    Item(Item&& o) : p{new int(*o.p)} {
        fill();
        *o.p = -1;
        g_live++;
    }
    ~Item() {
        delete p;
        p = (int*) (uintptr_t) 0xdead;
        g_live--;
    }
    int v() const {
        for (u32 i = 0; i < Pad; i++)
            if (pad[i] != (char) (*p + i * 7))
                return -88;
        return *p;
    }
};
struct Base {
    virtual ~Base() {
    }
    virtual void run(const Cmd& c) = 0;
};
template <u32 Pad>
struct Impl : Base {
    using It = Item<Pad>;
    using Seq = Sequence<It>;
    std::unique_ptr<Seq> s{new Seq};
    std::vector<const It*> where; // address of every item when it was appended
    WeakSequenceRef<It> cur[3];
    bool set[3] = {false, false, false};
    void unset() {
        set[0] = set[1] = set[2] = false;
    }
    void fin(Ev& e) {
        e.i("n", s->numItems()).t("empty", s->isEmpty()).i("live", g_live).out();
    }
    bool atEnd(int k) {
        return !(cur[k].normalized() != s->end());
    }
    void run(const Cmd& c) override {
        const std::string& op = c.op();
        Ev e{op.c_str()};
        if (op == "app") { // how v...
            std::vector<int> v;
            for (size_t j = 1; j < c.n(); j++)
                v.push_back((int) c.i(j));
            size_t done = 0;
            while (done < v.size()) {
                if (c.i(0) == 0) {
                    Item<Pad> it{v[done]};
                    where.push_back(&s->append((const It&) it));
                    done++;
                } else if (c.i(0) == 1) {
                    Item<Pad> it{v[done]};
                    where.push_back(&s->append(std::move(it)));
                    done++;
                } else if (c.i(0) == 2) {
                    where.push_back(&s->append(v[done]));
                    done++;
                } else if (c.i(0) == 3) {
                    It* p = s->beginWriteNoConstruct();
                    new (p) It{v[done++]};
                    where.push_back(p);
                    s->endWrite();
                } else {
                    ArrayView<It> w = s->beginWriteViewNoConstruct();
                    if (w.numItems == 0)
                        endless("no room");
                    u32 k = 0;
                    for (; k < w.numItems && done < v.size(); k++) {
                        where.push_back(&w[k]);
                        new (&w[k]) It{v[done++]};
                    }
                    s->endWrite(k);
                }
            }
            e.a("v", v);
        } else if (op == "pop") {
            u32 k = std::min<u32>((u32) c.i(0), s->numItems());
            if (k == 1 && c.i(1))
                s->popTail();
            else
                s->popTail(k);
            where.resize(where.size() - std::min<size_t>(k, where.size()));
            unset();
            e.i("k", k);
        } else if (op == "trunc") {
            u32 p = (u32) c.i(0) % (s->numItems() + 1);
            auto it = s->begin();
            for (u32 j = 0; j < p; j++)
                ++it;
            s->truncate(it);
            where.resize(std::min<size_t>(p, where.size()));
            unset();
            e.i("p", p);
        } else if (op == "clear") {
            s->clear();
            where.clear();
            unset();
        } else if (op == "move") {
            if (c.i(0)) {
                std::unique_ptr<Seq> t{new Seq{std::move(*s)}};
                s = std::move(t);
            } else {
                std::unique_ptr<Seq> t{new Seq};
                t->append(77);
                *t = std::move(*s);
                s = std::move(t);
            }
        } else if (op == "toarr") {
            std::vector<int> v;
            long long alive;
            {
                Array<It> a = s->moveToArray();
                alive = g_live;
                for (It& x : a)
                    v.push_back(x.v());
            }
            s.reset(new Seq);
            where.clear();
            unset();
            e.a("v", v).i("alive", alive);
        } else if (op == "ends") {
            if (s->isEmpty())
                return;
            e.i("h", s->head().v()).i("t", s->tail().v()).out();
            return;
        } else if (op == "iter") {
            std::vector<int> f, b, cc;
            bool same = true;
            size_t limit = where.size() + 5;
            for (It& it : *s) {
                same = same && f.size() < where.size() && &it == where[f.size()];
                f.push_back(it.v());
                if (f.size() > limit)
                    endless("iteration");
            }
            for (const It& it : *(const Seq*) s.get())
                cc.push_back(it.v());
            auto it = s->end();
            while (it != s->begin()) {
                if (b.size() == f.size())
                    break;
                --it;
                b.push_back(it->v());
            }
            e.a("f", f).a("c", cc).a("b", b).t("same", same);
        } else if (op == "mark") { // k end
            int k = (int) c.i(0);
            cur[k] = c.i(1) ? s->end() : s->begin();
            set[k] = true;
            e.i("k", k).t("end", c.i(1)).out();
            return;
        } else if (op == "read") { // k n
            int k = (int) c.i(0);
            if (!set[k])
                return;
            std::vector<int> v;
            for (int j = 0; j < c.i(1) && !atEnd(k); j++) {
                cur[k] = cur[k].normalized();
                if (c.i(2) == 0)
                    v.push_back(cur[k].read().v());
                else {
                    v.push_back((*cur[k]).v());
                    ++cur[k];
                }
            }
            e.i("k", k).a("v", v).out();
            return;
        } else if (op == "view") { // k most
            int k = (int) c.i(0);
            if (!set[k])
                return;
            std::vector<int> v;
            ArrayView<It> w = cur[k].beginRead();
            u32 n = std::min<u32>(w.numItems, (u32) c.i(1));
            for (u32 j = 0; j < n; j++)
                v.push_back(w[j].v());
            cur[k].endRead(n);
            e.i("k", k).a("v", v).t("none", w.numItems == 0).out();
            return;
        } else if (op == "back") {
            int k = (int) c.i(0);
            if (!set[k] || !(cur[k] != s->begin()))
                return;
            --cur[k];
            e.i("k", k).i("v", cur[k]->v()).out();
            return;
        } else
            toolError(("unknown " + op).c_str());
        fin(e);
    }
};
static std::unique_ptr<Base> g;
void runCommand(const Cmd& c) {
    if (c.op() == "reset") {
        g.reset();
        Ev("reset").i("live", g_live).out();
        g_live = 0;
        switch (c.i(0)) {
            case 0: g.reset(new Impl<1>); break;
            case 1: g.reset(new Impl<24>); break;
            case 2: g.reset(new Impl<700>); break;
            default: g.reset(new Impl<3000>); break;
        }
    } else
        g->run(c);
}
void finishRun() {
    g.reset();
    Ev("reset").i("live", g_live).out();
}
