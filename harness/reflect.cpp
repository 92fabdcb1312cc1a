// Executes scripts that describe types, make objects of them, save and load them.
#include "harness.h"
#include <ply-runtime/Base.h>
#include <ply-reflect/Base.h>
#include <ply-reflect/Asset.h>
#include <ply-reflect/TypedArray.h>
#include <ply-reflect/AnySavedObject.h>
#include <ply-reflect/TypeKey.h>
#include <pylon/Parse.h>
#include <pylon-reflect/Export.h>
#include <pylon-reflect/Import.h>
using namespace ply;

// dummies for the constructors of descriptors that are templates
struct DummySwitch {
    u16 id;
    alignas(8) char storage[8];
    static TypeDescriptor* bindTypeDescriptor();
};
static TypeDescriptor* g_dummy;
TypeDescriptor* DummySwitch::bindTypeDescriptor() {
    return g_dummy;
}
enum class DummyEnum1 : u8 { A, Count };
enum class DummyEnum2 : u16 { A };
enum class DummyEnum4 : u32 { A };
namespace ply {
template <>
struct TypeDescriptorSpecializer<DummyEnum1> {
    static TypeDescriptor* get() {
        static TypeDescriptor_Enum e{(DummyEnum1*) nullptr, "d", {{"A", 0}}};
        return &e;
    }
};
}

struct Ty {
    std::string kind, name;
    int t = 0, n = 0, e = 0;
    std::vector<std::pair<std::string, int>> m;
    TypeDescriptor* desc = nullptr;
};
static std::vector<Ty> g_ty; // [0] unused
static std::vector<std::shared_ptr<void>> g_keep;
static AnyObject g_cur;
static int g_curType;
static String g_saved;
static bool g_hasSaved;
static Owned<pylon::Node> g_node;

static void switchConstruct(AnyObject obj) {
    auto* sw = obj.type->cast<TypeDescriptor_Switch>();
    *(u16*) obj.data = 0;
    AnyObject{PLY_PTR_OFFSET(obj.data, sw->storageOffset), sw->states[0].structType}.construct();
}
static void switchDestruct(AnyObject obj) {
    auto* sw = obj.type->cast<TypeDescriptor_Switch>();
    u16 id = *(u16*) obj.data;
    AnyObject{PLY_PTR_OFFSET(obj.data, sw->storageOffset), sw->states[id].structType}.destruct();
}
template <class T>
static T* keep(T* p) {
    g_keep.push_back(std::shared_ptr<T>(p));
    return p;
}
static TypeDescriptor* desc(int i);
static void fill(int i) { // struct: after everything it refers to has an address
    Ty& y = g_ty[i];
    auto* st = y.desc->cast<TypeDescriptor_Struct>();
    u32 ofs = 0, al = 1;
    for (auto& m : y.m) {
        TypeDescriptor* mt = desc(m.second);
        ofs = (ofs + mt->alignment - 1) / mt->alignment * mt->alignment;
        st->members.append({sv(m.first), ofs, mt});
        ofs += mt->fixedSize;
        al = max(al, mt->alignment);
    }
    st->fixedSize = (ofs + al - 1) / al * al;
    st->alignment = al;
    if (y.n)
        st->templateParams.append({"T", desc(y.n)});
}
static TypeDescriptor* desc(int i) {
    Ty& y = g_ty[i];
    if (y.desc)
        return y.desc;
    const std::string& k = y.kind;
    if (k == "bool") return y.desc = getTypeDescriptor<bool>();
    if (k == "s8") return y.desc = getTypeDescriptor<s8>();
    if (k == "s16") return y.desc = getTypeDescriptor<s16>();
    if (k == "s32") return y.desc = getTypeDescriptor<s32>();
    if (k == "s64") return y.desc = getTypeDescriptor<s64>();
    if (k == "u8") return y.desc = getTypeDescriptor<u8>();
    if (k == "u16") return y.desc = getTypeDescriptor<u16>();
    if (k == "u32") return y.desc = getTypeDescriptor<u32>();
    if (k == "u64") return y.desc = getTypeDescriptor<u64>();
    if (k == "float") return y.desc = getTypeDescriptor<float>();
    if (k == "double") return y.desc = getTypeDescriptor<double>();
    if (k == "string") return y.desc = getTypeDescriptor<String>();
    if (k == "typed") return y.desc = getTypeDescriptor<TypedArray>();
    if (k == "any") return y.desc = getTypeDescriptor<AnySavedObject>();
    if (k == "struct") {
        y.desc = keep(new TypeDescriptor_Struct{0, 1, sv(y.name)});
        fill(i);
        return y.desc;
    }
    if (k == "array") {
        // an array type can be met again below itself
        auto* d = keep(new TypeDescriptor_Array{getTypeDescriptor<u8>()});
        y.desc = d;
        d->itemType = desc(y.t);
        return d;
    }
    if (k == "owned") {
        auto* d = keep(new TypeDescriptor_Owned{(u8*) nullptr});
        y.desc = d;
        d->targetType = desc(y.t);
        return d;
    }
    if (k == "raw") {
        auto* d = keep(new TypeDescriptor_RawPtr{getTypeDescriptor<u8>()});
        y.desc = d;
        d->targetType = desc(y.t);
        return d;
    }
    if (k == "fixed")
        return y.desc = keep(new TypeDescriptor_FixedArray{desc(y.t), (u32) y.n});
    if (k == "enum") {
        TypeDescriptor_Enum* d;
        if (y.n == 1)
            d = new TypeDescriptor_Enum{(DummyEnum1*) nullptr, "", {}};
        else if (y.n == 2)
            d = new TypeDescriptor_Enum{(DummyEnum2*) nullptr, "", {}};
        else
            d = new TypeDescriptor_Enum{(DummyEnum4*) nullptr, "", {}};
        d->name = sv(y.name);
        for (auto& m : y.m)
            d->identifiers.append({sv(m.first), (u32) m.second});
        return y.desc = keep(d);
    }
    if (k == "eia") {
        auto* d = keep(new TypeDescriptor_EnumIndexedArray{(u8*) nullptr, (DummyEnum1*) nullptr});
        d->itemType = desc(y.t);
        d->enumType = desc(y.e)->cast<TypeDescriptor_Enum>();
        d->fixedSize = d->itemType->fixedSize * d->enumType->identifiers.numItems();
        d->alignment = d->itemType->alignment;
        return y.desc = d;
    }
    if (k == "switch") {
        auto* d = keep(new TypeDescriptor_Switch{(DummySwitch*) nullptr, sv(y.name)});
        y.desc = d;
        d->bindings.construct = switchConstruct;
        d->bindings.destruct = switchDestruct;
        u32 size = 0;
        u16 id = 0;
        for (auto& m : y.m) {
            auto* st = desc(m.second)->cast<TypeDescriptor_Struct>();
            TypeDescriptor_Switch::State s;
            s.name = sv(m.first);
#if PLY_WITH_ASSERTS
            s.id = id;
#endif
            id++;
            s.structType = st;
            d->states.append(std::move(s));
            size = max(size, st->fixedSize);
        }
        d->alignment = 8;
        d->fixedSize = (d->storageOffset + size + 7) / 8 * 8;
        return d;
    }
    toolError("kind of type");
}

// ---- seeing an object through its type ----
struct See {
    std::vector<void*> owned;
    bool savable = true;
    void collect(int t, void* p) {
        Ty& y = g_ty[t];
        if (y.kind == "owned") {
            void* q = *(void**) p;
            if (q) {
                owned.push_back(q);
                collect(y.t, q);
            }
        } else
            children(t, p, [&](int ct, void* cp) { collect(ct, cp); });
    }
    template <class F>
    void children(int t, void* p, F f) {
        Ty& y = g_ty[t];
        if (y.kind == "struct") {
            auto* st = y.desc->cast<TypeDescriptor_Struct>();
            for (size_t i = 0; i < y.m.size(); i++)
                f(y.m[i].second, PLY_PTR_OFFSET(p, st->members[(u32) i].offset));
        } else if (y.kind == "fixed" || y.kind == "eia") {
            u32 n = y.kind == "fixed" ? y.n : (u32) g_ty[y.e].m.size();
            for (u32 i = 0; i < n; i++)
                f(y.t, PLY_PTR_OFFSET(p, g_ty[y.t].desc->fixedSize * i));
        } else if (y.kind == "array") {
            auto* arr = (details::BaseArray*) p;
            for (u32 i = 0; i < arr->m_numItems; i++)
                f(y.t, PLY_PTR_OFFSET(arr->m_items, g_ty[y.t].desc->fixedSize * i));
        } else if (y.kind == "switch") {
            auto* sw = y.desc->cast<TypeDescriptor_Switch>();
            u16 id = *(u16*) p;
            if (id < y.m.size())
                f(y.m[id].second, PLY_PTR_OFFSET(p, sw->storageOffset));
        }
    }
    std::string val(int t, void* p) {
        Ty& y = g_ty[t];
        const std::string& k = y.kind;
        if (k == "struct" || k == "fixed" || k == "eia" || k == "array") {
            std::string s;
            children(t, p, [&](int ct, void* cp) { s += (s.empty() ? "" : ",") + val(ct, cp); });
            return "{\"k\":\"seq\",\"s\":[" + s + "]}";
        }
        if (k == "owned" || k == "raw") {
            void* q = *(void**) p;
            if (!q) {
                savable = false;
                return "{\"k\":\"null\"}";
            }
            size_t j = 0;
            while (j < owned.size() && owned[j] != q)
                j++;
            std::string id = std::to_string(j < owned.size() ? j + 1 : 0);
            if (k == "raw")
                return "{\"k\":\"raw\",\"id\":" + id + "}";
            return "{\"k\":\"owned\",\"id\":" + id + ",\"v\":" + val(y.t, q) + "}";
        }
        if (k == "enum") {
            u32 x = y.n == 1 ? *(u8*) p : y.n == 2 ? *(u16*) p : *(u32*) p;
            bool named = false;
            for (auto& m : y.m)
                named |= (u32) m.second == x;
            savable &= named;
            return "{\"k\":\"enum\",\"x\":" + std::to_string(x > 2147483646u ? 2147483646u : x) + "}";
        }
        if (k == "switch") {
            u16 id = *(u16*) p;
            std::string v = "{\"k\":\"null\"}";
            children(t, p, [&](int ct, void* cp) { v = val(ct, cp); });
            return "{\"k\":\"switch\",\"x\":" + std::to_string(id) + ",\"v\":" + v + "}";
        }
        return leaf(y.desc, p);
    }
    static std::string words(unsigned long long v) {
        std::string s = "{\"k\":\"int\",\"w\":[";
        for (int j = 0; j < 4; j++)
            s += (j ? "," : "") + std::to_string((v >> (16 * j)) & 0xffff);
        return s + "]}";
    }
    static std::string flt(double d) {
        double e = d * 8;
        long long n = e > 2e9 || e < -2e9 || e != e ? 2000000000 : (long long) e;
        if ((double) n != e)
            n = 2000000001;
        return "{\"k\":\"flt\",\"e\":" + std::to_string(n) + "}";
    }
    static std::string str(StringView v) {
        std::string s;
        for (u32 i = 0; i < v.numBytes; i++) {
            char c = v.bytes[i];
            s += (c >= 32 && c < 127 && c != '"' && c != '\\') ? c : '?';
        }
        return "\"" + s + "\"";
    }
    // whatever needs no position in the type table; also used for synthesized types
    static std::string leaf(TypeDescriptor* d, void* p) {
        TypeKey* k = d->typeKey;
        if (k == &TypeKey_Bool) return words(*(u8*) p);
        if (k == &TypeKey_S8) return words((long long) *(s8*) p);
        if (k == &TypeKey_S16) return words((long long) *(s16*) p);
        if (k == &TypeKey_S32) return words((long long) *(s32*) p);
        if (k == &TypeKey_S64) return words((long long) *(s64*) p);
        if (k == &TypeKey_U8) return words(*(u8*) p);
        if (k == &TypeKey_U16) return words(*(u16*) p);
        if (k == &TypeKey_U32) return words(*(u32*) p);
        if (k == &TypeKey_U64) return words(*(u64*) p);
        if (k == &TypeKey_Float) return flt(*(float*) p);
        if (k == &TypeKey_Double) return flt(*(double*) p);
        if (k == &TypeKey_String) return "{\"k\":\"str\",\"s\":" + str(*(String*) p) + "}";
        std::string s;
        if (k == &TypeKey_Struct) {
            for (auto& m : d->cast<TypeDescriptor_Struct>()->members)
                s += (s.empty() ? "" : ",") + leaf(m.type, PLY_PTR_OFFSET(p, m.offset));
            return "{\"k\":\"seq\",\"s\":[" + s + "]}";
        }
        if (k == &TypeKey_FixedArray || k == &TypeKey_Array || k == &TypeKey_TypedArray) {
            TypeDescriptor* it;
            u32 n;
            void* items = p;
            if (k == &TypeKey_FixedArray) {
                it = d->cast<TypeDescriptor_FixedArray>()->itemType;
                n = d->cast<TypeDescriptor_FixedArray>()->numItems;
            } else if (k == &TypeKey_Array) {
                it = d->cast<TypeDescriptor_Array>()->itemType;
                n = ((details::BaseArray*) p)->m_numItems;
                items = ((details::BaseArray*) p)->m_items;
            } else {
                auto* ta = (TypedArray*) p;
                it = ta->getItemType();
                n = ta->m_array.m_numItems;
                items = ta->m_array.m_items;
            }
            for (u32 i = 0; i < n; i++)
                s += (i ? "," : "") + leaf(it, PLY_PTR_OFFSET(items, it->fixedSize * i));
            if (k == &TypeKey_TypedArray)
                return "{\"k\":\"typed\",\"ty\":" + shape(it) + ",\"s\":[" + s + "]}";
            return "{\"k\":\"seq\",\"s\":[" + s + "]}";
        }
        if (k == &TypeKey_AnySavedObject) {
            auto* a = (AnySavedObject*) p;
            if (!a->typeOwner || a->owned.type != a->typeOwner->getRootType())
                return "{\"k\":\"detached\"}";
            return "{\"k\":\"any\",\"ty\":" + shape(a->owned.type) +
                   ",\"v\":" + (a->owned.data ? leaf(a->owned.type, a->owned.data) : "{\"k\":\"null\"}") + "}";
        }
        toolError("leaf type");
    }
    static std::string shape(TypeDescriptor* d) {
        TypeKey* k = d->typeKey;
        std::string s;
        if (k == &TypeKey_Struct) {
            auto* st = d->cast<TypeDescriptor_Struct>();
            for (auto& m : st->members)
                s += (s.empty() ? "" : ",") + ("{\"n\":" + str(m.name) + ",\"t\":" + shape(m.type) + "}");
            return "{\"k\":\"struct\",\"c\":" + std::to_string(st->members.numItems()) + ",\"m\":[" + s + "]}";
        }
        if (k == &TypeKey_Array)
            return "{\"k\":\"array\",\"c\":0,\"m\":[{\"n\":\"\",\"t\":" + shape(d->cast<TypeDescriptor_Array>()->itemType) + "}]}";
        if (k == &TypeKey_FixedArray) {
            auto* f = d->cast<TypeDescriptor_FixedArray>();
            return "{\"k\":\"fixed\",\"c\":" + std::to_string(f->numItems) + ",\"m\":[{\"n\":\"\",\"t\":" + shape(f->itemType) + "}]}";
        }
        const char* n = k == &TypeKey_Bool ? "bool" : k == &TypeKey_S8 ? "s8" : k == &TypeKey_S16 ? "s16" : k == &TypeKey_S32 ? "s32" : k == &TypeKey_S64 ? "s64"
            : k == &TypeKey_U8 ? "u8" : k == &TypeKey_U16 ? "u16" : k == &TypeKey_U32 ? "u32" : k == &TypeKey_U64 ? "u64" : k == &TypeKey_Float ? "float"
            : k == &TypeKey_Double ? "double" : k == &TypeKey_String ? "string" : k == &TypeKey_TypedArray ? "typed" : k == &TypeKey_AnySavedObject ? "any" : "?";
        return std::string("{\"k\":\"") + n + "\",\"c\":0,\"m\":[]}";
    }
};
static std::string see(bool* savable = nullptr) {
    See v;
    v.collect(g_curType, g_cur.data);
    std::string s = v.val(g_curType, g_cur.data);
    if (savable)
        *savable = v.savable;
    return s;
}
static std::string dump(const pylon::Node* n) {
    std::string s;
    if (n->isText())
        return "{\"k\":\"t\",\"v\":" + See::str(n->text()) + "}";
    if (n->isArray()) {
        for (const pylon::Node* c : n->arrayView())
            s += (s.empty() ? "" : ",") + dump(c);
        return "{\"k\":\"a\",\"v\":[" + s + "]}";
    }
    if (n->isObject()) {
        for (auto& it : n->object().items)
            s += (s.empty() ? "" : ",") + ("{\"n\":" + See::str(it.key) + ",\"c\":" + dump(it.value) + "}");
        return "{\"k\":\"o\",\"v\":[" + s + "]}";
    }
    return "{\"k\":\"i\"}";
}

// ---- making an object from the tokens of a script ----
struct Build {
    const Cmd& c;
    size_t at;
    std::vector<std::pair<void*, int>> owned; // and its type
    struct Raw { void** p; int pick, type; };
    std::vector<Raw> raws;
    long long num() {
        return c.i(at++);
    }
    void make(int t, void* p) { // p: constructed
        Ty& y = g_ty[t];
        const std::string& k = y.kind;
        if (k == "bool") *(bool*) p = num() != 0;
        else if (k == "s8" || k == "u8") *(u8*) p = (u8) num();
        else if (k == "s16" || k == "u16") *(u16*) p = (u16) num();
        else if (k == "s32" || k == "u32") *(u32*) p = (u32) num();
        else if (k == "s64" || k == "u64") *(u64*) p = (u64) num();
        else if (k == "float") *(float*) p = (float) num() / 8;
        else if (k == "double") *(double*) p = (double) num() / 8;
        else if (k == "string") *(String*) p = sv(c.b(at++));
        else if (k == "enum") {
            u32 x = (u32) num();
            if (y.n == 1) *(u8*) p = (u8) x;
            else if (y.n == 2) *(u16*) p = (u16) x;
            else *(u32*) p = x;
        } else if (k == "array") {
            auto* arr = (details::BaseArray*) p;
            u32 n = (u32) num();
            TypeDescriptor* it = g_ty[y.t].desc;
            arr->realloc(n, it->fixedSize);
            for (u32 i = 0; i < n; i++) {
                void* q = PLY_PTR_OFFSET(arr->m_items, it->fixedSize * i);
                AnyObject{q, it}.construct();
                make(y.t, q);
            }
        } else if (k == "owned") {
            AnyObject o = AnyObject::create(g_ty[y.t].desc);
            *(void**) p = o.data;
            owned.push_back({o.data, y.t});
            make(y.t, o.data);
        } else if (k == "raw") {
            raws.push_back({(void**) p, (int) num(), y.t});
        } else if (k == "switch") {
            u16 id = (u16) num();
            y.desc->cast<TypeDescriptor_Switch>()->ensureStateIs({p, y.desc}, id);
            See{}.children(t, p, [&](int ct, void* cp) { make(ct, cp); });
        } else if (k == "typed") {
            int it = (int) num();
            u32 n = (u32) num();
            Reference<TypeDescriptorOwner> owner = new TypeDescriptorOwner;
            owner->setRootType(desc(it));
            auto* ta = (TypedArray*) p;
            ta->create(owner, n);
            for (u32 i = 0; i < n; i++)
                make(it, ta->getItem(i).data);
        } else if (k == "any") {
            int it = (int) num();
            Reference<TypeDescriptorOwner> owner = new TypeDescriptorOwner;
            owner->setRootType(desc(it));
            auto* a = (AnySavedObject*) p;
            a->owned = AnyObject::create(desc(it));
            a->typeOwner = owner;
            make(it, a->owned.data);
        } else
            See{}.children(t, p, [&](int ct, void* cp) { make(ct, cp); });
    }
};
static void drop() {
    if (g_cur.data)
        g_cur.destroy();
    g_cur = {};
}

void runCommand(const Cmd& c) {
    const std::string& op = c.op();
    if (!g_dummy) {
        static TypeDescriptor_Struct d{0, 1, "dummy"};
        g_dummy = &d;
    }
    if (op == "reset") {
        drop();
        g_saved = {};
        g_hasSaved = false;
        g_node.clear();
        g_ty.clear();
        g_ty.resize(1);
        Ev{"reset"}.out(); // descriptors stay: the process keeps synthesized types as well
        return;
    }
    if (op == "type") { // kind name t n e [member value]...
        Ty y;
        y.kind = c.s(0);
        y.name = c.s(1);
        y.t = (int) c.i(2);
        y.n = (int) c.i(3);
        y.e = (int) c.i(4);
        for (size_t k = 5; k + 1 < c.n(); k += 2)
            y.m.push_back({c.s(k), (int) c.i(k + 1)});
        g_ty.push_back(y);
        return;
    }
    if (op == "types") {
        std::string s;
        for (size_t i = 1; i < g_ty.size(); i++) {
            Ty& y = g_ty[i];
            desc((int) i);
            std::string m;
            for (auto& e : y.m)
                m += (m.empty() ? "" : ",") + ("{\"n\":\"" + e.first + "\",\"v\":" + std::to_string(e.second) + "}");
            s += (s.empty() ? "" : ",") + ("{\"k\":\"" + y.kind + "\",\"s\":\"" + y.name + "\",\"t\":" + std::to_string(y.t) +
                  ",\"n\":" + std::to_string(y.n) + ",\"e\":" + std::to_string(y.e) + ",\"m\":[" + m + "]}");
        }
        Ev{"types"}.raw("ty", "[" + s + "]").out();
        return;
    }
    if (op == "make" || op == "fresh") {
        drop();
        g_curType = (int) c.i(0);
        g_cur = AnyObject::create(desc(g_curType));
        if (op == "make") {
            Build b{c, 1, {}, {}};
            b.make(g_curType, g_cur.data);
            for (auto& r : b.raws) {
                std::vector<void*> fit;
                for (auto& o : b.owned)
                    if (o.second == r.type)
                        fit.push_back(o.first);
                *r.p = fit.empty() ? nullptr : fit[(r.pick - 1) % fit.size()];
            }
        }
        Ev{op.c_str()}.i("t", g_curType).raw("v", see()).out();
        return;
    }
    if (op == "save") {
        if (!g_cur.data)
            return;
        bool ok = true;
        see(&ok);
        if (ok) {
            MemOutStream outs;
            writeAsset(&outs, g_cur);
            g_saved = outs.moveToString();
            g_hasSaved = true;
        }
        Ev{"save"}.t("ok", ok).out();
        return;
    }
    if (op == "load") {
        if (!g_hasSaved)
            return;
        drop();
        g_curType = (int) c.i(0);
        {
            ViewInStream ins{g_saved};
            ExpectedTypeResolver resolver{desc(g_curType)};
            g_cur = readAsset(&ins, &resolver);
            if (!g_cur.data) {
                Ev{"nothing"}.out();
                return;
            }
            Ev{"load"}.i("t", g_curType).raw("v", see()).out();
            Ev{"rest"}.i("left", (long long) g_saved.numBytes - (long long) ins.getSeekPos()).out();
        }
        return;
    }
    if (op == "export") {
        bool ok = true;
        if (!g_cur.data)
            return;
        see(&ok);
        if (!ok)
            return;
        auto made = pylon::exportObj(g_cur);
        Ev{"export"}.raw("node", dump(made)).out();
        g_node = made->copy(); // the texts of the exported node are views of the object's strings
        return;
    }
    if (op == "import") {
        if (!g_node)
            return;
        drop();
        g_curType = (int) c.i(0);
        AnyOwnedObject o = pylon::import(desc(g_curType), g_node);
        g_cur = o;
        o.data = nullptr;
        Ev{"import"}.i("t", g_curType).raw("v", see()).out();
        return;
    }
    if (op == "patch") {
        if (!g_cur.data)
            return;
        Bytes src = c.b(0);
        pylon::Parser parser;
        auto r = parser.parse(sv(src));
        if (!r.root->isValid())
            toolError("patch text");
        pylon::importInto(g_cur, r.root);
        Ev{"patch"}.raw("node", dump(r.root)).raw("v", see()).out();
        return;
    }
    toolError(("unknown op " + op).c_str());
}

void finishRun() {
    drop();
    g_node.clear();
}
