// Executes scripts of Pool, OwnPoolHandle and BigPool operations.
#include "harness.h"
#include <ply-runtime/container/Pool.h>
#include <ply-runtime/container/BigPool.h>
using namespace ply;

static long long g_live = 0;
template <u32 Pad>
struct Item {
    int* p;
    char pad[Pad];
    Item(int v) : p{new int(v)} {
        g_live++;
    }
    Item(const Item&) = delete;
    ~Item() {
        delete p;
        g_live--;
    }
    int v() const {
        return *p;
    }
    void set(int v) {
        *p = v;
    }
};
struct Small { // exactly as large as a free-list link
    int val;
    Small(int v) : val{v} {
        g_live++;
    }
    ~Small() {
        val = -77;
        g_live--;
    }
    int v() const {
        return val;
    }
    void set(int v) {
        val = v;
    }
};
struct Base {
    virtual ~Base() {
    }
    virtual void run(const Cmd& c) = 0;
};
template <typename It, typename Ix>
struct Impl : Base {
    static Pool<It>* pool;
    struct Traits {
        using T = It;
        using Index = Ix;
        static Pool<It>& getPool() {
            return *pool;
        }
    };
    using Handle = OwnPoolHandle<Traits>;
    using PIx = PoolIndex<It, Ix>;
    std::unique_ptr<Handle> h[3];
    std::vector<bool> alive; // by index
    Impl() {
        pool = new Pool<It>;
        for (auto& x : h)
            x.reset(new Handle);
    }
    ~Impl() {
        for (auto& x : h)
            x.reset();
        delete pool;
        pool = nullptr;
    }
    void gone(long long x) {
        if (x >= 0 && x < (long long) alive.size())
            alive[x] = false;
    }
    bool owned(u32 x) {
        for (auto& y : h)
            if (y->isValid() && y->idx == x)
                return true;
        return false;
    }
    long long pick(long long n) { // the n-th live slot that no handle owns
        std::vector<u32> c;
        for (u32 j = 0; j < alive.size(); j++)
            if (alive[j] && !owned(j))
                c.push_back(j);
        return c.empty() ? -1 : (long long) c[n % c.size()];
    }
    void run(const Cmd& c) override {
        const std::string& op = c.op();
        Ev e{op.c_str()};
        if (op == "new") {
            int v = (int) c.i(0);
            PIx ix = pool->template newItem<Ix>(v);
            if (ix.idx >= alive.size() && ix.idx < 100000)
                alive.resize(ix.idx + 1);
            alive[ix.idx] = true;
            PoolPtr<It> ptr = pool->get(ix);
            PoolPtr<It> ptr2{ptr};
            e.i("x", ix.idx).i("v", v).i("got", ptr2->v()).i("back", pool->indexOf(ptr.get()));
        } else if (op == "del") {
            long long x = pick(c.i(0));
            if (x < 0)
                return;
            pool->delItem(PIx{(u32) x});
            gone(x);
            e.i("x", x);
        } else if (op == "clear") {
            for (auto& y : h)
                if (y->isValid())
                    return;
            pool->clear();
            alive.clear();
        } else if (op == "set") {
            long long x = pick(c.i(0));
            if (x < 0)
                return;
            pool->get(PIx{(u32) x})->set((int) c.i(1));
            e.i("x", x).i("v", c.i(1));
        } else if (op == "get") {
            long long x = pick(c.i(0));
            if (x < 0)
                return;
            PoolPtr<It> p;
            p = pool->get(PIx{(u32) x});
            e.i("x", x).i("v", p->v());
        } else if (op == "iter") {
            std::vector<int> xs, vs;
            if (c.i(0)) {
                for (auto it = pool->begin(); it != pool->end(); ++it) {
                    xs.push_back((int) it.template getIndex<Ix>().idx);
                    vs.push_back((*it)->v());
                    if (xs.size() > alive.size())
                        endless("iteration");
                }
            } else {
                const Pool<It>& cp = *pool;
                for (PoolPtr<const It> p : cp) {
                    xs.push_back((int) cp.indexOf(p.get()));
                    vs.push_back(p->v());
                    if (xs.size() > alive.size())
                        endless("iteration");
                }
            }
            e.a("x", xs).a("v", vs);
        } else if (op == "assign") { // h n  (n < 0: nothing)
            long long x = c.i(1) < 0 ? -1 : pick(c.i(1));
            Handle& y = *h[c.i(0)];
            if (y.isValid())
                gone(y.idx);
            if (x < 0) {
                if (c.i(1) == -1)
                    y.clear();
                else if (c.i(1) == -2)
                    y.assign(PIx{});
                else {
                    h[c.i(0)].reset();
                    h[c.i(0)].reset(new Handle);
                }
            } else
                y.assign(PIx{(u32) x});
            e.i("h", c.i(0)).i("x", x);
        } else if (op == "moveh") { // h <- g
            if (c.i(0) == c.i(1))
                return;
            if (h[c.i(0)]->isValid())
                gone(h[c.i(0)]->idx);
            h[c.i(0)].reset();
            h[c.i(0)].reset(new Handle{std::move(*h[c.i(1)])});
            e.i("h", c.i(0)).i("g", c.i(1));
        } else if (op == "hget") {
            Handle& y = *h[c.i(0)];
            e.i("h", c.i(0)).i("x", y.isValid() ? (long long) y.idx : -1);
            e.i("v", y.isValid() ? y.get()->v() : 0).out();
            return;
        } else
            toolError(("unknown " + op).c_str());
        e.i("live", g_live).out();
    }
};
template <typename It, typename Ix>
Pool<It>* Impl<It, Ix>::pool = nullptr;

static std::unique_ptr<Base> g;
struct Wide {
    int v;
    char pad[1020];
};
static std::unique_ptr<BigPool<int>> g_small;
static std::unique_ptr<BigPool<Wide>> g_wide;
static std::vector<const void*> g_where;

static void reset() {
    g.reset();
    g_small.reset();
    g_wide.reset();
    g_where.clear();
    Ev("reset").i("live", g_live).out();
    g_live = 0;
}
template <typename T, typename Make, typename Get>
static void big(BigPool<T>& p, const Cmd& c, Make make, Get get) {
    if (c.op() == "bapp") { // how n v0
        std::vector<int> v;
        u32 n = (u32) c.i(1);
        for (u32 j = 0; j < n; j++)
            v.push_back((int) (c.i(2) + j) % 251);
        long long at = -1;
        if (c.i(0) == 0) {
            for (u32 j = 0; j < n; j++) {
                T item = make(v[j]);
                T* r = j % 2 ? &p.append(item) : &p.append(std::move(item));
                if (at < 0)
                    at = r - &p[0];
                g_where.push_back(r);
            }
        } else if (c.i(0) == 1) {
            T* r = p.alloc(n);
            at = n ? r - &p[0] : (long long) p.numItems();
            for (u32 j = 0; j < n; j++) {
                r[j] = make(v[j]);
                g_where.push_back(&r[j]);
            }
        } else {
            u32 room = n + (u32) c.i(3);
            T* r = p.beginWrite(room);
            for (u32 j = 0; j < room; j++)
                r[j] = make(j < n ? v[j] : 3); // all of the room can be written
            p.endWrite(n);
            at = n ? r - &p[0] : (long long) p.numItems();
            for (u32 j = 0; j < n; j++)
                g_where.push_back(&r[j]);
        }
        if (n == 0)
            at = (long long) p.numItems();
        Ev("bapp").a("v", v).i("at", at).i("n", p.numItems()).out();
    } else {
        std::vector<int> i, v, w;
        bool same = p.numItems() == g_where.size();
        for (uptr j = 0; j < p.numItems() && j < g_where.size(); j++)
            same = same && &p[j] == g_where[j] && p.get(j) == g_where[j];
        if (p.numItems())
            same = same && p.end() == &p[p.numItems() - 1] + 1;
        for (size_t k = 0; k < c.n() && p.numItems(); k++) {
            uptr j = c.i(k) % p.numItems();
            i.push_back((int) j);
            v.push_back(get(p[j]));
            w.push_back(get(p.back(-(sptr) j - 1)));
        }
        Ev("blook").t("same", same).i("n", p.numItems()).a("i", i).a("v", v).a("w", w).out();
    }
}
void runCommand(const Cmd& c) {
    if (c.op() == "reset") {
        reset();
        switch (c.i(0)) {
            case 0: g.reset(new Impl<Small, u32>); break;
            case 1: g.reset(new Impl<Item<1>, u8>); break;
            case 2: g.reset(new Impl<Item<90>, u16>); break;
            case 3: g_small.reset(new BigPool<int>{(uptr) c.i(1)}); break;
            default: g_wide.reset(new BigPool<Wide>{(uptr) c.i(1)}); break;
        }
    } else if (g)
        g->run(c);
    else if (g_small)
        big(*g_small, c, [](int v) { return v; }, [](int v) { return v; });
    else
        big(*g_wide, c,
            [](int v) {
                Wide w;
                w.v = v;
                memset(w.pad, v, sizeof(w.pad));
                return w;
            },
            [](const Wide& w) {
                for (char ch : w.pad)
                    if (ch != (char) w.v)
                        return -5;
                return w.v;
            });
}
void finishRun() {
    reset();
}
