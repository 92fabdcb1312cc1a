// Number, string, identifier and line parsers on input streams; the matching printers.
#include "harness.h"
#include "pipes.h"
#include <math.h>
using namespace ply;

static ScriptPipe* pipe_ = nullptr;
static Bytes* text_ = nullptr;
static InStream* ins = nullptr;
static Bytes whole;

static void cleanup() {
    delete ins;
    delete pipe_;
    delete text_;
    ins = nullptr;
    pipe_ = nullptr;
    text_ = nullptr;
}
void finishRun() {
    cleanup();
}

static u64 wordOf(const Cmd& c, size_t k) {
    return (u64) strtoull(c.s(k).c_str(), nullptr, 16);
}
template <typename T>
static void intOp(const std::string& ty, u32 radix) {
    u64 p0 = ins->getSeekPos();
    ins->status.parseError = 0;
    T v = ins->parse<T>(fmt::Radix{radix});
    Ev("int").str("ty", ty).i("radix", radix).i("n", (long long) (ins->getSeekPos() - p0)).t("err", ins->anyParseError()).w("w", (u64) (s64) v).out();
}
template <typename T>
static void printOp(const std::string& ty, u64 w, u32 radix, bool cap) {
    T v = (T) w;
    String o = radix == 0 ? String::from(v) : radix == 16 ? String::from(fmt::Hex{v, cap}) : String::from(fmt::WithRadix{v, radix, cap});
    if (radix == 0)
        radix = 10;
    Ev("print").str("ty", ty).w("w", (u64) (s64) v).i("radix", radix).t("cap", cap).b("o", bytes(o)).out();
}
template <typename T>
static void toOp(const std::string& ty, const Bytes& b, u64 def) {
    std::unique_ptr<char[]> buf{new char[b.size()]};
    memcpy(buf.get(), b.data(), b.size());
    T d = (T) def;
    T v = StringView{buf.get(), (u32) b.size()}.to<T>(d);
    Ev("to").str("ty", ty).b("b", b).w("def", (u64) (s64) d).w("w", (u64) (s64) v).out();
}
#define DISPATCH(fn, ...) \
    do { \
        if (ty == "u8") fn<u8>(ty, __VA_ARGS__); \
        else if (ty == "u16") fn<u16>(ty, __VA_ARGS__); \
        else if (ty == "u32") fn<u32>(ty, __VA_ARGS__); \
        else if (ty == "u64") fn<u64>(ty, __VA_ARGS__); \
        else if (ty == "s8") fn<s8>(ty, __VA_ARGS__); \
        else if (ty == "s16") fn<s16>(ty, __VA_ARGS__); \
        else if (ty == "s32") fn<s32>(ty, __VA_ARGS__); \
        else fn<s64>(ty, __VA_ARGS__); \
    } while (0)

static Bytes take(u64 p0) { // what an operation consumed
    return whole.substr(p0, ins->getSeekPos() - p0);
}

void runCommand(const Cmd& c) {
    const std::string& op = c.op();
    if (op == "reset") {
        cleanup();
        Ev("reset").out();
    } else if (op == "open") { // bytes blockExp(0 = view) sched...
        cleanup();
        whole = c.b(0);
        text_ = new Bytes(whole.data(), whole.size());
        if (c.i(1) == 0) {
            text_->shrink_to_fit();
            ins = new ViewInStream{sv(*text_)};
        } else {
            pipe_ = new ScriptPipe;
            pipe_->data = whole;
            pipe_->sched = ints(c, 2);
            ins = new InStream{borrow((InPipe*) pipe_), (u32) c.i(1)};
        }
        Ev("open").b("b", whole).out();
    } else if (op == "int") { // type radix
        const std::string& ty = c.s(0);
        DISPATCH(intOp, (u32) c.i(1));
    } else if (op == "real") { // radix places float?
        u32 radix = (u32) c.i(0);
        int places = (int) c.i(1);
        u64 p0 = ins->getSeekPos();
        ins->status.parseError = 0;
        double v = c.i(2) ? (double) ins->parse<float>(fmt::Radix{radix}) : ins->parse<double>(fmt::Radix{radix});
        double q = v * pow(radix, places);
        long long qi = isnan(q) ? 77 : q > 2e9 ? 2000000000 : q < -2e9 ? -2000000000 : llround(q);
        Ev("real").i("radix", radix).i("places", places).i("n", (long long) (ins->getSeekPos() - p0)).t("err", ins->anyParseError()).i("q", qi).out();
    } else if (op == "quoted") { // single
        u64 p0 = ins->getSeekPos();
        ins->status.parseError = 0;
        std::string codes = "[";
        fmt::QuotedString q;
        q.flags = (c.i(0) ? fmt::AllowSingleQuote : 0) | fmt::EscapeWithBackslash | fmt::AllowMultilineWithTriple;
        q.errorCallback = {[](std::string* pc, InStream*, fmt::QuotedString::ErrorCode e) {
                               const char* n[] = {"ok", "noquote", "eol", "eof", "escape"};
                               *pc += std::string(pc->size() > 1 ? "," : "") + "\"" + n[(int) e] + "\"";
                           },
                           &codes};
        String o = ins->parse(q);
        Ev("quoted").t("single", c.i(0)).i("n", (long long) (ins->getSeekPos() - p0)).t("err", ins->anyParseError()).raw("codes", codes + "]").b("o", bytes(o)).out();
    } else if (op == "ident") { // dollar dash how
        u64 p0 = ins->getSeekPos();
        ins->status.parseError = 0;
        bool ok = ins->parse(fmt::Identifier{(c.i(0) ? fmt::WithDollarSign : 0) | (c.i(1) ? fmt::WithDash : 0)});
        Ev("ident").t("dollar", c.i(0)).t("dash", c.i(1)).i("n", (long long) (ins->getSeekPos() - p0)).t("ok", ok).t("err", ins->anyParseError()).out();
    } else if (op == "white") { // yes
        u64 p0 = ins->getSeekPos();
        if (c.i(0))
            ins->parse<fmt::Whitespace>();
        else
            ins->parse<fmt::NonWhitespace>();
        Ev("white").t("yes", c.i(0)).i("n", (long long) (ins->getSeekPos() - p0)).b("o", take(p0)).out();
    } else if (op == "line") { // how: 0 parse, 1 readString/readView
        u64 p0 = ins->getSeekPos();
        ins->status.parseError = 0;
        Bytes o;
        if (c.i(0) == 0) {
            ins->parse<fmt::Line>();
            o = take(p0);
        } else if (ins->isView()) {
            o = bytes(ins->asViewInStream()->readView<fmt::Line>());
        } else {
            o = bytes(ins->readString<fmt::Line>());
        }
        Ev("line").i("n", (long long) (ins->getSeekPos() - p0)).t("err", ins->anyParseError()).b("o", o).out();
    } else if (op == "print") { // type hexvalue radix cap
        const std::string& ty = c.s(0);
        DISPATCH(printOp, wordOf(c, 1), (u32) c.i(2), c.i(3));
    } else if (op == "to") { // type bytes hexdefault
        const std::string& ty = c.s(0);
        DISPATCH(toOp, c.b(1), wordOf(c, 2));
    } else if (op == "eighths") {
        double v = (double) c.i(0) / 8;
        Ev("eighths").i("k", c.i(0)).b("o", bytes(String::from(v))).out();
    } else if (op == "printreal") { // neg m x
        double v = strtod((std::to_string(c.i(1)) + "e" + std::to_string(c.i(2))).c_str(), nullptr);
        String o = c.i(3) ? String::from((float) (c.i(0) ? -v : v)) : String::from(c.i(0) ? -v : v);
        Ev("printreal").t("neg", c.i(0)).i("m", c.i(1)).i("x", c.i(2)).b("o", bytes(o)).out();
    } else if (op == "escape") { // kind bytes max
        Bytes b = c.b(1);
        std::unique_ptr<char[]> buf{new char[b.size()]};
        memcpy(buf.get(), b.data(), b.size());
        StringView v{buf.get(), (u32) b.size()};
        String o = c.s(0) == "string" ? String::from(fmt::EscapedString{v, (u32) c.i(2)}) : String::from(fmt::XMLEscape{v, (u32) c.i(2)});
        Ev("escape").str("kind", c.s(0)).b("b", b).i("max", c.i(2)).b("o", bytes(o)).out();
    } else if (op == "crtarg") {
        Bytes b = c.b(0);
        Ev("crtarg").b("b", b).b("o", bytes(String::from(fmt::CmdLineArg_WinCrt{sv(b)}))).out();
    } else if (op == "format") { // format arg arg arg
        Bytes f = c.b(0);
        std::vector<Bytes> a;
        for (size_t k = 1; k < c.n(); k++)
            a.push_back(c.b(k));
        MemOutStream mem;
        if (a.size() == 0)
            mem.format(sv(f));
        else if (a.size() == 1)
            mem.format(sv(f), sv(a[0]));
        else if (a.size() == 2)
            mem.format(sv(f), sv(a[0]), sv(a[1]));
        else
            mem.format(sv(f), sv(a[0]), sv(a[1]), sv(a[2]));
        Ev("format").b("f", f).bs("args", a).b("o", bytes(mem.moveToString())).out();
    } else {
        toolError("unknown command");
    }
}
