// Executes scripts of LabelMap operations. Strings are described by length and first byte.
#include "harness.h"
#include <ply-runtime/string/Label.h>
using namespace ply;

static std::unique_ptr<LabelMap> g;
static std::vector<Label> g_labels;
static char byteAt(u32 seed, u32 j) {
    return (char) (seed + j * 31 + (j >> 8) * 7);
}
static Bytes make(u32 len, u32 seed) {
    Bytes b;
    for (u32 j = 0; j < len; j++)
        b.push_back(byteAt(seed, j));
    return b;
}
static std::vector<int> describe(StringView v) {
    if (v.numBytes == 0)
        return {0, 0};
    u32 seed = (u8) v.bytes[0];
    for (u32 j = 0; j < v.numBytes; j++)
        if (v.bytes[j] != byteAt(seed, j))
            return {-1, (int) j};
    return {(int) v.numBytes, (int) seed};
}
static const char* g_base;
void runCommand(const Cmd& c) {
    const std::string& op = c.op();
    if (op == "reset") {
        g.reset(new LabelMap);
        g_labels.clear();
        g_labels.push_back(Label{});
        g_base = nullptr;
        Ev("reset").out();
        return;
    }
    if (op == "ins" || op == "find") {
        u32 len = (u32) c.i(0), seed = len ? (u32) c.i(1) & 255 : 0;
        Label x;
        {
            Bytes b = make(len, seed);
            // an exact-size buffer that is gone afterwards
            std::unique_ptr<char[]> buf{new char[len]};
            memcpy(buf.get(), b.data(), len);
            x = op == "ins" ? g->insertOrFind({buf.get(), len}) : ((const LabelMap&) *g).find({buf.get(), len});
            memset(buf.get(), 0x5a, len);
        }
        if (op == "ins")
            g_labels.push_back(x);
        Ev(op.c_str()).a("s", std::vector<int>{(int) len, (int) seed}).i("x", x.idx).out();
    } else if (op == "view") {
        Label x = g_labels[c.i(0) % g_labels.size()];
        StringView v = g->view(x);
        if (!g_base)
            g_base = v.bytes;
        Ev("view").i("x", x.idx).a("s", describe(v)).i("at", v.bytes - g_base).out();
    } else if (op == "eq") {
        Label x = g_labels[c.i(0) % g_labels.size()], y = g_labels[c.i(1) % g_labels.size()];
        Ev("eq").i("x", x.idx).i("y", y.idx).t("same", x == y).t("valid", x.isValid()).out();
    } else
        toolError(("unknown " + op).c_str());
}
void finishRun() {
}
