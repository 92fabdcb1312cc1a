// Executes scripts of pylon operations: parsing, tree edits, writing.
#include "harness.h"
#include <ply-runtime/Base.h>
#include <pylon/Parse.h>
#include <pylon/Write.h>
using namespace ply;
using namespace pylon;

typedef std::shared_ptr<std::unique_ptr<char[]>> Source;
struct Slot {
    Owned<Node> node;
    std::vector<Source> sources; // texts that nodes may still refer to
};
static std::map<long long, Slot> g_slot;
static std::unique_ptr<Parser> g_parser;

static std::string bytesJson(StringView v) {
    std::string s = "[";
    for (u32 i = 0; i < v.numBytes; i++)
        s += (i ? "," : "") + std::to_string((int) (u8) v.bytes[i]);
    return s + "]";
}
static std::string dump(const Node* n) {
    std::string s;
    if (n->isText())
        return "{\"k\":\"t\",\"o\":" + std::to_string((long long) n->fileOfs) + ",\"v\":" + bytesJson(n->text()) + "}";
    if (n->isArray()) {
        for (const Node* c : n->arrayView())
            s += (s.empty() ? "" : ",") + dump(c);
        return "{\"k\":\"a\",\"o\":" + std::to_string((long long) n->fileOfs) + ",\"v\":[" + s + "]}";
    }
    if (n->isObject()) {
        for (const Node::Object::Item& it : n->object().items)
            s += (s.empty() ? "" : ",") + ("{\"n\":" + bytesJson(it.key) + ",\"c\":" + dump(it.value) + "}");
        return "{\"k\":\"o\",\"o\":" + std::to_string((long long) n->fileOfs) + ",\"v\":[" + s + "]}";
    }
    if (n->isValid())
        return "{\"k\":\"?\",\"o\":0,\"v\":[]}";
    return "{\"k\":\"i\",\"o\":0,\"v\":[]}";
}
static Node* sub(Node* n, const std::vector<int>& path) {
    for (int i : path)
        n = n->isArray() ? n->array()[i].get() : n->object().items[i].value.get();
    return n;
}
static std::vector<int> path(const Cmd& c, size_t k) {
    std::vector<int> r;
    for (; k < c.n(); k++)
        r.push_back((int) c.i(k));
    return r;
}
static StringView own(const Bytes& b, std::vector<Source>& srcs) {
    Source s = std::make_shared<std::unique_ptr<char[]>>(new char[b.size()]);
    memcpy(s->get(), b.data(), b.size());
    srcs.push_back(s);
    return {s->get(), (u32) b.size()};
}

void runCommand(const Cmd& c) {
    const std::string& op = c.op();
    if (op == "reset") {
        g_slot.clear();
        g_parser.reset();
        Ev{"reset"}.out();
        return;
    }
    if (op == "parse" || op == "parseagain") { // the second uses the same parser object again
        Bytes s = c.b(1);
        if (op == "parse" || !g_parser)
            g_parser.reset(new Parser);
        Slot slot;
        int errors = 0;
        long long at = -1;
        std::string ctx;
        Parser* parser = g_parser.get();
        parser->setErrorCallback([&](const ParseError& e) {
            errors++;
            at = e.fileOfs;
            ctx.clear();
            for (const ParseError::Scope& sc : e.context) {
                bool prop = sc.type == ParseError::Scope::Property, arr = sc.type == ParseError::Scope::Array;
                ctx += std::string(ctx.empty() ? "" : ",") + "{\"t\":" + std::to_string((int) sc.type) + ",\"o\":" +
                       std::to_string(sc.fileOfs) + ",\"n\":" + (prop ? bytesJson(sc.name) : "[]") +
                       ",\"i\":" + std::to_string(arr ? sc.index : 0) + "}";
            }
            MemOutStream mout;
            parser->dumpError(e, mout);
            mout.moveToString();
        });
        Parser::Result r = parser->parse(own(s, slot.sources));
        parser->setErrorCallback({});
        Ev e{"parse"};
        bool ok = r.root->isValid();
        e.i("j", c.i(0)).b("s", s).t("ok", ok && !parser->anyError()).i("errors", errors).i("at", at);
        e.raw("ctx", "[" + ctx + "]").raw("tree", dump(r.root));
        if (ok) {
            Slot& dst = g_slot[c.i(0)];
            dst.node = std::move(r.root);
            dst.sources = slot.sources;
        }
        e.out();
        return;
    }
    if (op == "text" || op == "array" || op == "object") {
        Slot slot;
        Bytes b = op == "text" ? c.b(2) : Bytes();
        u64 o = (u64) c.i(1);
        if (op == "text" && c.i(1) % 2)
            slot.node = Node::createText(String{sv(b)}, o); // owns its bytes
        else if (op == "text")
            slot.node = Node::createText(own(b, slot.sources), o);
        else
            slot.node = op == "array" ? Node::createArray(o) : Node::createObject(o);
        Ev e{op.c_str()};
        e.i("j", c.i(0)).i("o", c.i(1)).b("b", b).raw("tree", dump(slot.node));
        g_slot[c.i(0)].node = std::move(slot.node);
        g_slot[c.i(0)].sources = slot.sources;
        e.out();
        return;
    }
    if (op == "drop") {
        g_slot.erase(c.i(0));
        Ev{"drop"}.i("j", c.i(0)).out();
        return;
    }
    if (op == "copy") { // from, to
        if (!g_slot.count(c.i(0)) || c.i(0) == c.i(1))
            return;
        Owned<Node> n = g_slot[c.i(0)].node->copy();
        g_slot[c.i(1)].node = std::move(n);
        g_slot[c.i(1)].sources.clear(); // a copy stands on its own
        Ev{"copy"}.i("from", c.i(0)).i("j", c.i(1)).raw("tree", dump(g_slot[c.i(1)].node)).out();
        return;
    }
    if (!g_slot.count(c.i(0)))
        return;
    Slot& s = g_slot[c.i(0)];
    Ev e{op.c_str()};
    e.i("j", c.i(0));
    if (op == "write") {
        String r = toString(s.node);
        MemOutStream mout;
        pylon::write(&mout, s.node);
        Bytes two = bytes(mout.moveToString());
        e.b("r", two == bytes(r) ? two : Bytes("?"));
        e.out();
        return;
    }
    // a path in the script is reduced to one that exists
    std::vector<int> want, pth;
    size_t fixed = op == "set" ? 3 : op == "push" ? 2 : op == "settext" ? 2 : op == "remove" ? 3 : 2;
    want = path(c, fixed);
    Node* n = s.node.get();
    for (int i : want) {
        u32 k = n->isArray() ? n->array().numItems() : n->isObject() ? n->object().items.numItems() : 0;
        if (k == 0)
            break;
        pth.push_back(i % (int) k);
        n = sub(n, {pth.back()});
    }
    e.a("path", pth);
    if (op == "set" || op == "push") { // j c key path / j c path
        if (c.i(1) == c.i(0) || !g_slot.count(c.i(1)) || (op == "push" ? !n->isArray() : !n->isObject()))
            return;
        Slot& from = g_slot[c.i(1)];
        Node* raw = from.node.get();
        e.i("c", c.i(1));
        if (op == "set") {
            Bytes key = c.b(2);
            e.b("key", key);
            bool existed = false;
            if (key.size() % 2) {
                existed = n->set(String{sv(key)}, std::move(from.node)) == raw;
            } else {
                existed = n->set(own(key, s.sources), std::move(from.node)) == raw;
            }
            e.t("same", existed);
        } else
            n->array().append(std::move(from.node));
        s.sources.insert(s.sources.end(), from.sources.begin(), from.sources.end());
        g_slot.erase(c.i(1));
        e.raw("tree", dump(s.node));
    } else if (op == "settext") {
        Bytes b = c.b(1);
        if (b.size() % 2)
            n->setText(String{sv(b)});
        else
            n->setText(own(b, s.sources));
        e.b("b", b).raw("tree", dump(s.node));
    } else if (op == "remove") { // j c key path
        if (c.i(1) == c.i(0))
            return;
        Bytes key = c.b(2);
        Owned<Node> r = n->remove(sv(key));
        e.i("c", c.i(1)).b("key", key).t("found", r != nullptr).raw("tree", dump(s.node));
        if (r) {
            e.raw("r", dump(r));
            Slot t;
            t.node = std::move(r);
            g_slot[c.i(1)].sources = s.sources;
            g_slot[c.i(1)].node = std::move(t.node);
        }
    } else if (op == "get") {
        Bytes key = c.b(1);
        const Node* cn = n;
        Node* r = n->get(sv(key));
        if (cn->get(sv(key)) != r)
            toolError("get");
        const char* is = r->isText() ? "t" : r->isArray() ? "a" : r->isObject() ? "o" : "i";
        e.b("key", key).raw("r", dump(r)).str("is", r->isValid() == (is[0] != 'i') ? is : "?");
    } else if (op == "at") {
        Node* r = n->get((u32) c.i(1));
        const Node* cn = n;
        e.i("i", c.i(1)).raw("r", dump(r)).i("n", n->arrayView().numItems).i("m", cn->object().items.numItems()).b("t", bytes(n->text()));
    } else
        toolError(("unknown " + op).c_str());
    e.out();
}
void finishRun() {
    g_slot.clear();
    g_parser.reset();
}
