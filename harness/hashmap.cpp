// Executes scripts of HashMap operations for several kinds of keys, items and hash functions.
#include "harness.h"
#include <ply-runtime/container/HashMap.h>
#include <ply-runtime/container/Array.h>
#include <ply-runtime/string/String.h>
using namespace ply;

static long long g_live = 0;
struct Val { // counts its constructions and destructions
    int* p;
    Val() : p{new int(0)} {
        g_live++;
    }
    Val(Val&& o) : p{o.p} {
        o.p = nullptr;
        g_live++;
    }
    ~Val() {
        delete p;
        p = (int*) (uintptr_t) 0xdead;
        g_live--;
    }
    void operator=(Val&& o) {
        delete p;
        p = o.p;
        o.p = nullptr;
    }
};

static std::string keyText(int k) {
    std::string s = "k" + std::to_string(k);
    return s + std::string((size_t) (k * 7 % 23), (char) ('a' + k % 26));
}

// kind 0: identity hash, kind 1: weak hash
template <u32 Mod>
struct IntTraits {
    using Key = u32;
    struct Item {
        u32 key;
        Val val;
        Item(u32 k) : key{k} {
        }
    };
    static u32 hash(u32 k) {
        return Mod ? k % Mod : k;
    }
    static bool match(const Item& item, u32 k) {
        return item.key == k;
    }
};
// kind 2: strings with the default hash
struct StrTraits {
    using Key = StringView;
    struct Item {
        String key;
        Val val;
        Item(StringView k) : key{k} {
        }
    };
    static bool match(const Item& item, StringView k) {
        return item.key == k;
    }
};
// kind 3: default hash of integers; kind 4: an index into an array given as context
struct DefTraits {
    using Key = u32;
    struct Item {
        u32 key = 0;
        Val val;
    };
    static void construct(Item* item, u32 k) {
        new (item) Item{};
        item->key = k;
    }
    static bool match(const Item& item, u32 k) {
        return item.key == k;
    }
};
struct Entry {
    String key;
    int value;
};
struct IdxTraits {
    using Key = StringView;
    using Item = s32;
    using Context = Array<Entry>;
    static bool match(const Item& item, StringView k, const Context& ctx) {
        return ctx[(u32) item].key == k;
    }
};

struct Base {
    virtual ~Base() {
    }
    virtual void renew(int m, int size) = 0;
    virtual bool insert(int m, int k, int v, int& old) = 0;
    virtual bool find(int m, int k, int& v, bool cnst) = 0;
    virtual bool erase(int m, int k, bool viaInsert) = 0;
    virtual void move(int d, int s, bool ctor) = 0;
    virtual void iter(int m, std::vector<int>& k, std::vector<int>& v, int& n, bool& empty, bool cnst) = 0;
};
template <class T>
struct KeyOf {
    static u32 make(int k, std::string&) {
        return (u32) k;
    }
    template <class I>
    static int back(const I& i) {
        return (int) i.key;
    }
};
template <>
struct KeyOf<StrTraits> {
    static StringView make(int k, std::string& s) {
        s = keyText(k);
        return {s.data(), (u32) s.size()};
    }
    static int back(const StrTraits::Item& i) {
        return atoi(std::string(i.key.bytes + 1, i.key.numBytes - 1).c_str());
    }
};
template <class T>
struct Impl : Base {
    std::unique_ptr<HashMap<T>> m[2];
    void renew(int k, int size) override {
        m[k].reset(size ? new HashMap<T>{(u32) size} : new HashMap<T>{});
    }
    bool insert(int i, int k, int v, int& old) override {
        std::string s;
        auto cur = m[i]->insertOrFind(KeyOf<T>::make(k, s));
        bool f = cur.wasFound();
        if (!cur.isValid())
            old = -99;
        old = f ? *cur->val.p : 0;
        *(*cur).val.p = v;
        if (!f && KeyOf<T>::back(*cur) != k)
            g_live += 1000;
        return f;
    }
    bool find(int i, int k, int& v, bool cnst) override {
        std::string s;
        if (cnst) {
            auto cur = ((const HashMap<T>&) *m[i]).find(KeyOf<T>::make(k, s));
            v = cur.wasFound() ? *cur->val.p : 0;
            return cur.wasFound() && cur.isValid();
        }
        auto cur = m[i]->find(KeyOf<T>::make(k, s));
        v = cur.wasFound() ? *cur->val.p : 0;
        return cur.wasFound() && cur.isValid();
    }
    bool erase(int i, int k, bool viaInsert) override {
        std::string s;
        if (viaInsert) {
            auto cur = m[i]->insertOrFind(KeyOf<T>::make(k, s));
            bool f = cur.wasFound();
            cur.erase();
            return f && !cur.isValid();
        }
        auto cur = m[i]->find(KeyOf<T>::make(k, s));
        bool f = cur.wasFound();
        if (f)
            cur.erase();
        return f;
    }
    void move(int d, int s, bool ctor) override {
        if (ctor)
            m[d].reset(new HashMap<T>{std::move(*m[s])});
        else
            *m[d] = std::move(*m[s]);
        *m[s] = HashMap<T>{}; // valid again only after assignment
    }
    void iter(int i, std::vector<int>& k, std::vector<int>& v, int& n, bool& empty, bool cnst) override {
        if (cnst) {
            for (const auto& it : (const HashMap<T>&) *m[i]) {
                k.push_back(KeyOf<T>::back(it));
                v.push_back(*it.val.p);
            }
        } else {
            for (auto it = m[i]->begin(); it.isValid(); it.next()) {
                k.push_back(KeyOf<T>::back(*it));
                v.push_back(*it->val.p);
            }
        }
        n = (int) m[i]->numItems();
        empty = m[i]->isEmpty();
    }
};
struct IdxImpl : Base {
    std::unique_ptr<HashMap<IdxTraits>> m[2];
    Array<Entry> ctx;
    void renew(int k, int size) override {
        g_live -= m[k] ? m[k]->numItems() : 0;
        m[k].reset(size ? new HashMap<IdxTraits>{(u32) size} : new HashMap<IdxTraits>{});
    }
    ~IdxImpl() {
        for (int k = 0; k < 2; k++)
            g_live -= m[k] ? m[k]->numItems() : 0;
    }
    bool insert(int i, int k, int v, int& old) override {
        std::string s = keyText(k);
        auto cur = m[i]->insertOrFind(StringView{s.data(), (u32) s.size()}, &ctx);
        bool f = cur.wasFound();
        old = f ? ctx[(u32) *cur].value : 0;
        if (!f) {
            *cur = (s32) ctx.numItems();
            ctx.append(Entry{StringView{s.data(), (u32) s.size()}, v});
            g_live++;
        } else
            ctx[(u32) *cur].value = v;
        return f;
    }
    bool find(int i, int k, int& v, bool cnst) override {
        std::string s = keyText(k);
        StringView key{s.data(), (u32) s.size()};
        s32 idx = -1;
        if (cnst) {
            auto cur = ((const HashMap<IdxTraits>&) *m[i]).find(key, &ctx);
            if (cur.wasFound())
                idx = *cur;
        } else {
            auto cur = m[i]->find(key, &ctx);
            if (cur.wasFound())
                idx = *cur;
        }
        v = idx >= 0 ? ctx[(u32) idx].value : 0;
        return idx >= 0;
    }
    bool erase(int i, int k, bool) override {
        std::string s = keyText(k);
        auto cur = m[i]->find(StringView{s.data(), (u32) s.size()}, &ctx);
        bool f = cur.wasFound();
        if (f) {
            cur.erase();
            g_live--;
        }
        return f;
    }
    void move(int d, int s, bool ctor) override {
        g_live -= m[d]->numItems();
        if (ctor)
            m[d].reset(new HashMap<IdxTraits>{std::move(*m[s])});
        else
            *m[d] = std::move(*m[s]);
        *m[s] = HashMap<IdxTraits>{};
    }
    void iter(int i, std::vector<int>& k, std::vector<int>& v, int& n, bool& empty, bool) override {
        for (s32 idx : *m[i]) {
            const String& key = ctx[(u32) idx].key;
            k.push_back(atoi(std::string(key.bytes + 1, key.numBytes - 1).c_str()));
            v.push_back(ctx[(u32) idx].value);
        }
        n = (int) m[i]->numItems();
        empty = m[i]->isEmpty();
    }
};

static std::unique_ptr<Base> g;

void runCommand(const Cmd& c) {
    const std::string& op = c.op();
    if (op == "reset") { // kind size
        g.reset();
        Ev("reset").i("live", g_live).out();
        g_live = 0;
        switch (c.i(0)) {
            case 0: g.reset(new Impl<IntTraits<0>>); break;
            case 1: g.reset(new Impl<IntTraits<5>>); break;
            case 2: g.reset(new Impl<StrTraits>); break;
            case 3: g.reset(new Impl<DefTraits>); break;
            default: g.reset(new IdxImpl); break;
        }
        g->renew(0, (int) c.i(1));
        g->renew(1, (int) c.i(1));
        return;
    }
    int m = (int) c.i(0) - 1;
    if (op == "ins") {
        int old;
        bool f = g->insert(m, (int) c.i(1), (int) c.i(2), old);
        Ev("ins").i("m", m + 1).i("k", c.i(1)).i("v", c.i(2)).t("found", f).i("old", old).out();
    } else if (op == "find") {
        int v;
        bool f = g->find(m, (int) c.i(1), v, c.i(2));
        Ev("find").i("m", m + 1).i("k", c.i(1)).t("found", f).i("v", v).out();
    } else if (op == "erase") {
        bool f = g->erase(m, (int) c.i(1), c.i(2));
        Ev("erase").i("m", m + 1).i("k", c.i(1)).t("found", f).out();
    } else if (op == "renew") {
        g->renew(m, (int) c.i(1));
        Ev("renew").i("m", m + 1).out();
    } else if (op == "move") {
        g->move(m, 1 - m, c.i(1));
        Ev("move").i("d", m + 1).i("a", 2 - m).out();
    } else if (op == "iter") {
        std::vector<int> k, v;
        int n;
        bool empty;
        g->iter(m, k, v, n, empty, c.i(1));
        Ev("iter").i("m", m + 1).a("k", k).a("v", v).i("n", n).t("empty", empty).i("live", g_live).out();
    } else
        toolError(("unknown " + op).c_str());
}
void finishRun() {
    g.reset();
    Ev("reset").i("live", g_live).out();
}
