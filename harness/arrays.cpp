// Executes scripts of Array operations on items whose every construction and destruction counts.
#include "harness.h"
#include <ply-runtime/container/Array.h>
#include <ply-runtime/container/FixedArray.h>
#include <ply-runtime/algorithm/Find.h>
#include <ply-runtime/algorithm/Sort.h>
#include <set>
using namespace ply;

static long long g_live = 0;
#ifndef ITEM_BYTES
struct Item {
    int* p;
    Item() : p{new int(0)} {
        g_live++;
    }
    Item(int v) : p{new int(v)} {
        g_live++;
    }
    Item(const Item& o) : p{o.p ? new int(*o.p) : nullptr} {
        g_live++;
    }
    Item(Item&& o) : p{o.p} {
        o.p = nullptr;
        g_live++;
    }
    ~Item() {
        delete p;
        p = (int*) (uintptr_t) 0xdead; // a second destruction is fatal
        g_live--;
    }
    void operator=(const Item& o) {
        int* q = o.p ? new int(*o.p) : nullptr;
        delete p;
        p = q;
    }
    void operator=(Item&& o) {
        int* q = o.p;
        o.p = nullptr;
        delete p;
        p = q;
    }
    int v() const {
        return p ? *p : -1;
    }
    bool operator==(const Item& o) const {
        return v() == o.v();
    }
    bool operator<(const Item& o) const {
        return v() < o.v();
    }
};
#else
// small items without a heap block of their own: other paths through relocation and copying
struct Item {
    u8 x[ITEM_BYTES];
    void put(int v) {
        for (u32 i = 0; i < ITEM_BYTES; i++)
            x[i] = (u8) (v + 3 * i);
    }
    Item() {
        put(0);
        g_live++;
    }
    Item(int v) {
        put(v);
        g_live++;
    }
    Item(const Item& o) {
        memcpy(x, o.x, ITEM_BYTES);
        g_live++;
    }
    Item(Item&& o) {
        memcpy(x, o.x, ITEM_BYTES);
        o.put(255);
        g_live++;
    }
    ~Item() {
        put(254);
        g_live--;
    }
    void operator=(const Item& o) {
        memmove(x, o.x, ITEM_BYTES);
    }
    void operator=(Item&& o) {
        if (this != &o) {
            memcpy(x, o.x, ITEM_BYTES);
            o.put(255);
        }
    }
    int v() const {
        for (u32 i = 1; i < ITEM_BYTES; i++)
            if (x[i] != (u8) (x[0] + 3 * i))
                return -88;
        return x[0] == 255 ? -1 : x[0];
    }
    bool operator==(const Item& o) const {
        return v() == o.v();
    }
    bool operator<(const Item& o) const {
        return v() < o.v();
    }
};
#endif

static Array<Item>* A = nullptr;
static Ev& snap(Ev& e) {
    std::string s = "[";
    for (int k = 0; k < 3; k++) {
        s += k ? ",[" : "[";
        bool first = true;
        u32 n = 0;
        for (const Item& it : (const Array<Item>&) A[k]) {
            s += (first ? "" : ",") + std::to_string(it.v());
            first = false;
            n++;
        }
        if (n != A[k].numItems() || A[k].isEmpty() != (n == 0) || (bool) A[k] != (n > 0) || A[k].sizeBytes() != n * sizeof(Item))
            s += ",-77";
        s += "]";
    }
    return e.raw("s", s + "]").i("live", g_live);
}
static std::vector<int> vals(const ArrayView<const Item> v) {
    std::vector<int> r;
    for (const Item& i : v)
        r.push_back(i.v());
    return r;
}

void runCommand(const Cmd& c) {
    const std::string& op = c.op();
    auto R = [&](int k) -> Array<Item>& { return A[c.i(k) - 1]; };
    if (op == "reset") {
        delete[] A;
        Ev e{"reset"};
        e.i("live", g_live).out();
        g_live = 0;
        A = new Array<Item>[3];
        return;
    }
    Ev e{op.c_str()};
    if (op == "init") { // d how v...
        std::vector<int> v;
        for (size_t k = 2; k < c.n(); k++)
            v.push_back((int) c.i(k));
        Array<Item>& d = R(0);
        if (c.i(1) == 0) {
            switch (v.size()) {
                case 0: d = Array<Item>{}; break;
                case 1: d = Array<Item>(InitList<Item>{Item{v[0]}}); break;
                case 2: d = Array<Item>(InitList<Item>{Item{v[0]}, Item{v[1]}}); break;
                default: v.resize(3, 7); d = Array<Item>(InitList<Item>{Item{v[0]}, Item{v[1]}, Item{v[2]}}); break;
            }
        } else {
            switch (v.size()) {
                case 0: d = std::initializer_list<Item>{}; break;
                case 1: d = std::initializer_list<Item>{Item{v[0]}}; break;
                case 2: d = std::initializer_list<Item>{Item{v[0]}, Item{v[1]}}; break;
                default: v.resize(3, 7); d = std::initializer_list<Item>{Item{v[0]}, Item{v[1]}, Item{v[2]}}; break;
            }
        }
        e.i("d", c.i(0)).a("v", v);
    } else if (op == "copy") { // d a how
        if (c.i(2) == 0)
            R(0) = (const Array<Item>&) R(1);
        else if (c.i(2) == 1)
            R(0) = Array<Item>{(const Array<Item>&) R(1)};
        else
            R(0) = R(1).view();
        e.i("d", c.i(0)).i("a", c.i(1));
    } else if (op == "move") {
        if (c.i(2) && c.i(0) != c.i(1)) {
            u32 n = R(1).numItems();
            Item* p = R(1).release();
            R(0) = Array<Item>::adopt(p, n);
        } else
            R(0) = std::move(R(1));
        e.i("d", c.i(0)).i("a", c.i(1));
    } else if (op == "view") { // d a from n
        u32 L = R(1).numItems(), from = std::min<u32>(c.i(2), L), n = std::min<u32>(c.i(3), L - from);
        const Array<Item>& src = R(1);
        if (from + n == L)
            R(0) = src.subView(from);
        else if (from == 0)
            R(0) = src.view().shortenedBy(L - n);
        else
            R(0) = src.subView(from, n);
        e.i("d", c.i(0)).i("a", c.i(1)).i("from", from).i("n", n);
    } else if (op == "append") { // d v how
        Item it{(int) c.i(1)};
        int got;
        if (c.i(2) == 0)
            got = R(0).append((const Item&) it).v();
        else if (c.i(2) == 1)
            got = R(0).append(std::move(it)).v();
        else
            got = R(0).append((int) c.i(1)).v();
        if (got != c.i(1))
            g_live += 1000;
        it.~Item();
        new (&it) Item{0};
        g_live--;
        e.i("d", c.i(0)).i("v", c.i(1));
        snap(e).out();
        g_live++;
        return;
    } else if (op == "extend") { // d a from n
        if (c.i(0) == c.i(1))
            return;
        u32 L = R(1).numItems(), from = std::min<u32>(c.i(2), L), n = std::min<u32>(c.i(3), L - from);
        if (from == 0 && n == L)
            R(0).extend(R(1));
        else
            R(0).extend(R(1).subView(from, n));
        e.i("d", c.i(0)).i("a", c.i(1)).i("from", from).i("n", n);
    } else if (op == "extlist") { // d how a b c
        int x = (int) c.i(2), y = (int) c.i(3), z = (int) c.i(4);
        if (c.i(1) == 0)
            R(0).extend(InitList<Item>{Item{x}, Item{y}, Item{z}});
        else
            R(0).extend(FixedArray<Item, 3>{x, y, z});
        e.i("d", c.i(0)).a("v", std::vector<int>{x, y, z});
    } else if (op == "extmove") {
        if (c.i(0) == c.i(1))
            return;
        if (c.i(2))
            R(0).moveExtend(R(1).view());
        else
            R(0).extend(std::move(R(1)));
        e.i("d", c.i(0)).i("a", c.i(1));
    } else if (op == "concat") { // d a b ma mb
        bool ma = c.i(3), mb = c.i(4);
        if (c.i(1) == c.i(2))
            ma = mb = false;
        if (ma && mb)
            R(0) = std::move(R(1)) + std::move(R(2));
        else if (ma)
            R(0) = std::move(R(1)) + R(2);
        else if (mb)
            R(0) = R(1) + std::move(R(2));
        else
            R(0) = R(1) + R(2);
        e.i("d", c.i(0)).i("a", c.i(1)).i("b", c.i(2)).t("ma", ma).t("mb", mb);
    } else if (op == "insert") {
        u32 pos = c.i(1) % (R(0).numItems() + 1);
        int first = &R(0).insert(pos, (u32) c.i(2)) == R(0).begin() + pos ? 0 : 1000;
        e.i("d", c.i(0)).i("pos", pos).i("n", c.i(2) + first);
    } else if (op == "erase" || op == "quick") {
        u32 L = R(0).numItems(), pos = c.i(1) % (L + 1), n = std::min<u32>(c.i(2), L - pos);
        if (op == "erase") {
            if (n == 1)
                R(0).erase(pos);
            else
                R(0).erase(pos, n);
        } else {
            if (n == 1 && c.i(3))
                R(0).eraseQuick(pos);
            else
                R(0).eraseQuick(pos, n);
        }
        e.i("d", c.i(0)).i("pos", pos).i("n", n);
    } else if (op == "resize") {
        R(0).resize((u32) c.i(1));
        e.i("d", c.i(0)).i("n", c.i(1));
    } else if (op == "pop") {
        u32 n = std::min<u32>(c.i(1), R(0).numItems());
        R(0).pop(n);
        e.i("d", c.i(0)).i("n", n);
    } else if (op == "clear") {
        R(0).clear();
        e.i("d", c.i(0));
    } else if (op == "room") { // d n: reserve n, or truncate
        if (c.i(1))
            R(0).reserve((u32) c.i(1));
        else
            R(0).truncate();
        e.i("d", c.i(0));
    } else if (op == "set") {
        if (!R(0).numItems())
            return;
        u32 i = c.i(1) % R(0).numItems();
        if (c.i(2) & 1)
            R(0)[i] = Item{(int) c.i(2)};
        else
            R(0).view().back((s32) i - (s32) R(0).numItems()) = Item{(int) c.i(2)};
        e.i("d", c.i(0)).i("i", i).i("v", c.i(2));
    } else if (op == "sort") {
        if (c.i(1))
            sort(R(0), [](const Item& a, const Item& b) { return b < a; });
        else
            sort(R(0));
        e.i("d", c.i(0)).t("desc", c.i(1));
    } else if (op == "find") {
        int v = (int) c.i(1);
        s32 f = c.i(2) ? find(R(0), [&](const Item& x) { return x.v() == v; }) : find(R(0), Item{v});
        s32 r = c.i(2) ? rfind(R(0), [&](const Item& x) { return x.v() == v; }) : rfind(R(0), Item{v});
        e.i("a", c.i(0)).i("v", v).i("f", f).i("r", r).out();
        return;
    } else if (op == "at") {
        if (!R(0).numItems())
            return;
        u32 i = c.i(1) % R(0).numItems();
        e.i("a", c.i(0)).i("i", i).i("o", ((const Array<Item>&) R(0))[i].v()).i("b", R(0).back(-(s32) i - 1).v()).out();
        return;
    } else if (op == "eq") {
        e.i("a", c.i(0)).i("b", c.i(1)).t("o", R(0) == R(1)).out();
        return;
    } else if (op == "fixed") {
        int x = (int) c.i(0), y = (int) c.i(1);
        FixedArray<Item, 2> f{x, y};
        FixedArray<Item, 2> g = (const FixedArray<Item, 2>&) f;
        sort(g);
        std::vector<int> o = vals(((const FixedArray<Item, 2>&) f).view()), q = vals(((const FixedArray<Item, 2>&) g).view());
        o.insert(o.end(), q.begin(), q.end());
        e.a("v", std::vector<int>{x, y, std::min(x, y), std::max(x, y)}).a("o", o).i("live", g_live).out();
        return;
    } else
        toolError(("unknown " + op).c_str());
    snap(e).out();
}
void finishRun() {
    delete[] A;
    A = nullptr;
    Ev("reset").i("live", g_live).out();
}
