// Executes scripts of BTree operations. The index of an item is a view of text the item owns.
#include "harness.h"
#include <ply-runtime/container/BTree.h>
#include <ply-runtime/string/String.h>
using namespace ply;

static long long g_live = 0;
static std::map<int, void*> g_where; // item id -> node it was last moved to

struct Item {
    String key;
    int id = -1;
    Item() {
        g_live++;
    }
    Item(const Item& o) : key{o.key}, id{o.id} {
        g_live++;
    }
    Item(Item&& o) : key{std::move(o.key)}, id{o.id} {
        o.id = -2;
        g_live++;
    }
    ~Item() {
        g_live--;
    }
    void operator=(const Item& o) {
        key = o.key;
        id = o.id;
    }
    void operator=(Item&& o) {
        key = std::move(o.key);
        id = o.id;
        o.id = -2;
    }
};
template <u32 Cap>
struct TraitsN {
    using Item = ::Item;
    using Index = StringView;
    static constexpr u32 NodeCapacity = Cap;
    static StringView getIndex(const Item& i) {
        return i.key;
    }
    static bool less(StringView a, StringView b) {
        return a < b;
    }
    static bool equal(const Item& a, int id) {
        return a.id == id;
    }
    static void onItemMoved(const Item& i, void* node) {
        g_where[i.id] = node;
    }
};
static String keyOf(int k) {
    char b[32];
    snprintf(b, sizeof b, "key-%06d", k);
    return b;
}
struct Base {
    virtual ~Base() {
    }
    virtual void run(const Cmd& c) = 0;
};
template <u32 Cap>
struct Impl : Base {
    using Tree = BTree<TraitsN<Cap>>;
    std::unique_ptr<Tree> t{new Tree};
    void run(const Cmd& c) override {
        const std::string& op = c.op();
        if (op == "ins") { // k id how
            Item it;
            it.key = keyOf((int) c.i(0));
            it.id = (int) c.i(1);
            if (c.i(2))
                t->insert(std::move(it));
            else
                t->insert(it);
            Ev("ins").i("k", c.i(0)).i("id", c.i(1)).out();
        } else if (op == "rem") { // p: counted modulo the number of items
            int n = 0;
            for (auto it = t->begin(); it.isValid(); it.next())
                n++;
            if (!n)
                return;
            int p = (int) c.i(0) % n;
            auto it = t->begin();
            for (int j = 0; j < p; j++)
                it.next();
            Item r = t->remove(it);
            Ev("rem").i("p", p).i("id", r.id).out();
        } else if (op == "remid") {
            // the item is found through the node it was last moved to
            bool present = false;
            for (auto it = t->begin(); it.isValid(); it.next())
                present = present || it->id == c.i(0);
            if (!present)
                return;
            auto it = t->locate(g_where[(int) c.i(0)], (int) c.i(0));
            bool ok = it.isValid() && it->id == c.i(0);
            Item r = t->remove(it);
            Ev("remid").i("id", r.id).t("found", ok).out();
        } else if (op == "last" || op == "first") {
            String k = keyOf((int) c.i(0));
            auto it = op == "last" ? t->findLastLessThan(k) : t->findFirstGreaterOrEqualTo(k);
            Ev(op.c_str()).i("k", c.i(0)).i("id", it.isValid() ? (*it).id : -1).out();
        } else if (op == "front") {
            if (t->isEmpty())
                return;
            Ev("front").i("id", t->front().id).out();
        } else if (op == "pop") {
            if (t->isEmpty())
                return;
            Ev("pop").i("id", t->popFront().id).out();
        } else if (op == "clear") {
            t->clear();
            Ev("clear").out();
        } else if (op == "move") {
            std::unique_ptr<Tree> u{new Tree{std::move(*t)}};
            bool e = t->isEmpty();
            if (!e)
                endless("moved-from tree not empty");
            t = std::move(u);
            Ev("move").out();
        } else if (op == "iter") {
            std::vector<int> f, b;
            for (Item& it : *t)
                f.push_back(it.id);
            auto it = t->begin();
            if (it.isValid()) {
                for (;;) {
                    auto nx = it;
                    nx.next();
                    if (!nx.isValid())
                        break;
                    it = nx;
                }
                for (size_t j = 0; j < f.size(); j++) {
                    b.push_back(it->id);
                    if (j + 1 < f.size())
                        it.prev();
                }
            }
            Ev("iter").a("f", f).a("b", b).t("empty", t->isEmpty()).i("live", g_live).out();
        } else
            toolError(("unknown " + op).c_str());
    }
};
static std::unique_ptr<Base> g;
void runCommand(const Cmd& c) {
    if (c.op() == "reset") {
        g.reset();
        Ev("reset").i("live", g_live).out();
        g_live = 0;
        g_where.clear();
        switch (c.i(0)) {
            case 2: g.reset(new Impl<2>); break;
            case 4: g.reset(new Impl<4>); break;
            case 8: g.reset(new Impl<8>); break;
            default: g.reset(new Impl<16>); break;
        }
    } else
        g->run(c);
}
void finishRun() {
    g.reset();
    Ev("reset").i("live", g_live).out();
}
