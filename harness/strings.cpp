// Executes scripts of string operations on String, StringView and HybridString.
#include "harness.h"
#include <ply-runtime/string/String.h>
#include <ply-runtime/container/Array.h>
#include <list>
using namespace ply;

static String* S = nullptr;
static HybridString* H = nullptr;
static std::list<Bytes> g_lits; // memory that stays valid for views

static void freeAll() {
    delete[] S;
    delete[] H;
    S = nullptr;
    H = nullptr;
    g_lits.clear();
}
static Ev& snap(Ev& e) {
    std::vector<Bytes> s, h;
    for (int i = 0; i < 4; i++)
        s.push_back(bytes(S[i].view()));
    for (int i = 0; i < 2; i++)
        h.push_back(bytes(H[i].view()));
    return e.bs("s", s).bs("h", h);
}
static bool isDig(char c) {
    return isDecimalDigit(c);
}
static bool isLet(char c) {
    return isAsciiLetter(c);
}
typedef bool (*PredFn)(char);
static PredFn pred(const std::string& p) {
    return p == "white" ? (PredFn) isWhite : p == "digit" ? isDig : isLet;
}
static char swapB(char c) {
    return c == 'a' ? 'b' : c == 'b' ? 'a' : c;
}
static int sgn(s32 v) {
    return v < 0 ? -1 : v > 0 ? 1 : 0;
}

void runCommand(const Cmd& c) {
    const std::string& op = c.op();
    auto R = [&](int k) -> String& { return S[c.i(k) - 1]; };
    auto HR = [&](int k) -> HybridString& { return H[c.i(k) - 1]; };
    if (op == "reset") {
        freeAll();
        S = new String[4];
        H = new HybridString[2];
        Ev("reset").out();
        return;
    }
    Ev e{op.c_str()};
    if (op == "set") { // d v how
        Bytes v = c.b(1);
        g_lits.push_back(v);
        if (c.i(2) == 0)
            R(0) = String{sv(v)};
        else if (c.i(2) == 1)
            R(0) = sv(v);
        else {
            char* p = (char*) PLY_HEAP.alloc(v.size());
            memcpy(p, v.data(), v.size());
            R(0) = String::adopt(p, (u32) v.size());
        }
        e.i("d", c.i(0)).b("v", v);
    } else if (op == "copy") {
        if (c.i(2))
            R(0) = R(1).view();
        else
            R(0) = (const String&) R(1);
        e.i("d", c.i(0)).i("a", c.i(1));
    } else if (op == "move") {
        if (c.i(2)) {
            u32 n = R(1).numBytes;
            char* p = R(1).release();
            R(0) = String::adopt(p, n);
        } else
            R(0) = std::move(R(1));
        e.i("d", c.i(0)).i("a", c.i(1));
    } else if (op == "part") { // d a from n
        u32 L = R(1).numBytes, from = std::min<u32>(c.i(2), L), n = std::min<u32>(c.i(3), L - from);
        if (from + n == L)
            R(0) = R(1).subStr(from);
        else if (from == 0)
            R(0) = R(1).left(n);
        else
            R(0) = R(1).subStr(from, n);
        e.i("d", c.i(0)).i("a", c.i(1)).i("from", from).i("n", n);
    } else if (op == "right" || op == "short") {
        u32 n = std::min<u32>(c.i(2), R(1).numBytes);
        R(0) = op == "right" ? R(1).right(n) : R(1).shortenedBy(n);
        e.i("d", c.i(0)).i("a", c.i(1)).i("n", n);
    } else if (op == "concat") {
        R(0) = R(1) + R(2);
        e.i("d", c.i(0)).i("a", c.i(1)).i("b", c.i(2));
    } else if (op == "append") {
        R(0) += R(1);
        e.i("d", c.i(0)).i("a", c.i(1));
    } else if (op == "repeat") {
        R(0) = R(1) * (u32) c.i(2);
        e.i("d", c.i(0)).i("a", c.i(1)).i("n", c.i(2));
    } else if (op == "resize") {
        u32 L = R(0).numBytes, n = (u32) c.i(1);
        R(0).resize(n);
        for (u32 i = L; i < n; i++)
            R(0).bytes[i] = '.';
        e.i("d", c.i(0)).i("n", n);
    } else if (op == "clear") {
        R(0).clear();
        e.i("d", c.i(0));
    } else if (op == "poke") {
        if (R(0).numBytes == 0)
            return;
        u32 i = c.i(1) % R(0).numBytes;
        if (c.i(2) & 1)
            R(0)[i] = (char) c.i(2);
        else
            R(0).back((s32) i - (s32) R(0).numBytes) = (char) c.i(2);
        e.i("d", c.i(0)).i("i", i).i("b", c.i(2) & 255);
    } else if (op == "derive") { // op d a
        const std::string& k = c.s(0);
        String& d = R(1);
        String& a = R(2);
        if (k == "upper")
            d = a.upperAsc();
        else if (k == "lower")
            d = a.lowerAsc();
        else if (k == "rev")
            d = a.reversedBytes();
        else if (k == "filter")
            d = a.filterBytes(swapB);
        else if (k == "withnul")
            d = String{a.withNullTerminator()};
        else if (k == "withoutnul")
            d = a.withoutNullTerminator();
        else if (k == "revutf8")
            d = a.reversedUTF8();
        e.str("op", k).i("d", c.i(1)).i("a", c.i(2));
    } else if (op == "trim") { // d a p l r
        PredFn p = pred(c.s(2));
        bool l = c.i(3), r = c.i(4);
        if (l && !r)
            R(0) = R(1).ltrim(p);
        else if (r && !l)
            R(0) = R(1).rtrim(p);
        else
            R(0) = R(1).trim(p, l, r);
        e.i("d", c.i(0)).i("a", c.i(1)).str("p", c.s(2)).t("l", l).t("r", r);
    } else if (op == "join") { // d sep comps...
        Array<StringView> q;
        std::vector<int> idx;
        for (size_t k = 2; k < c.n(); k++) {
            q.append(R(k).view());
            idx.push_back((int) c.i(k));
        }
        R(0) = R(1).join(q);
        e.i("d", c.i(0)).i("sep", c.i(1)).a("q", idx);
    } else if (op == "split") {
        std::vector<Bytes> o;
        for (StringView v : R(0).splitByte((char) c.i(1)))
            o.push_back(bytes(v));
        e.i("a", c.i(0)).i("b", c.i(1)).bs("o", o).out();
        return;
    } else if (op == "find") {
        e.i("a", c.i(0)).i("b", c.i(1)).i("from", c.i(2)).i("o", c.i(2) ? R(0).findByte((char) c.i(1), (u32) c.i(2)) : R(0).view().findByte((char) c.i(1))).out();
        return;
    } else if (op == "rfind") {
        s32 L = (s32) R(0).numBytes, from = std::min<s32>((s32) c.i(2), L - 1);
        s32 o = from == L - 1 ? R(0).rfindByte((char) c.i(1)) : R(0).rfindByte((char) c.i(1), (u32) from);
        e.i("a", c.i(0)).i("b", c.i(1)).i("from", from).i("o", o).out();
        return;
    } else if (op == "findp") {
        e.i("a", c.i(0)).str("p", c.s(1)).i("from", c.i(2)).i("o", R(0).findByte(pred(c.s(1)), (u32) c.i(2))).out();
        return;
    } else if (op == "rfindp") {
        s32 L = (s32) R(0).numBytes, from = std::min<s32>((s32) c.i(2), L - 1);
        s32 o = from == L - 1 ? R(0).rfindByte(pred(c.s(1))) : R(0).rfindByte(pred(c.s(1)), (u32) from);
        e.i("a", c.i(0)).str("p", c.s(1)).i("from", from).i("o", o).out();
        return;
    } else if (op == "cmp") {
        String &a = R(0), &b = R(1);
        std::vector<int> o = {sgn(compare(a, b)), a == b, a != b, a < b, a <= b, a > b, a >= b};
        e.i("a", c.i(0)).i("b", c.i(1)).a("o", o).t("starts", a.startsWith(b)).t("ends", a.endsWith(b)).t("empty", a.isEmpty() && !(bool) a).t("nul", a.includesNullTerminator()).out();
        return;
    } else if (op == "view") { // a x y: drop x in front, y behind
        StringView v = R(0).view();
        u32 x = std::min<u32>(c.i(1), v.numBytes), y = std::min<u32>(c.i(2), v.numBytes - x);
        v.offsetHead(x);
        if (y)
            v.offsetBack(-(s32) y);
        bool in = R(0).numBytes == 0 || (R(0).view().contains(v.bytes) && v.end() == v.bytes + v.numBytes && StringView::fromRange(v.bytes, v.end()) == v);
        e.i("a", c.i(0)).i("x", x).i("y", y).b("o", bytes(v)).t("in", in).out();
        return;
    } else if (op == "at") {
        if (R(0).numBytes == 0)
            return;
        u32 i = c.i(1) % R(0).numBytes;
        e.i("a", c.i(0)).i("i", i).i("o", (u8) R(0)[i]).i("b", (u8) R(0).back(-(s32) i - 1)).i("l", (u8) R(0).back()).i("m", (u8) ((const String&) R(0)).back()).i("n", (u8) R(0).view().back()).out();
        return;
    } else if (op == "hset") { // k v
        g_lits.push_back(c.b(1));
        HR(0) = HybridString{sv(g_lits.back())};
        e.i("k", c.i(0)).b("v", c.b(1));
    } else if (op == "htake") {
        HR(0) = HybridString{std::move(R(1))};
        e.i("k", c.i(0)).i("a", c.i(1));
    } else if (op == "hcopy") {
        HR(0) = (const HybridString&) HR(1);
        e.i("k", c.i(0)).i("j", c.i(1));
    } else if (op == "hmove") {
        HR(0) = std::move(HR(1));
        e.i("k", c.i(0)).i("j", c.i(1));
    } else if (op == "hgive") {
        R(0) = String{std::move(HR(1))};
        e.i("d", c.i(0)).i("k", c.i(1));
    } else
        toolError(("unknown " + op).c_str());
    snap(e).out();
}
void finishRun() {
    freeAll();
}
