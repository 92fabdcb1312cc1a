// Text converters, file format importers/exporters and format detection.
#include "harness.h"
#include <ply-runtime/io/text/TextConverter.h>
#include <ply-runtime/io/text/TextFormat.h>
#include <ply-runtime/io/text/NewLineFilter.h>
#include <ply-runtime/io/text/FileLocationMap.h>
#include <ply-runtime/filesystem/FileSystem.h>
#include <unistd.h>
#include <fcntl.h>
using namespace ply;

struct SrcPipe : InPipe {
    static Funcs Funcs_;
    Bytes data;
    size_t pos = 0;
    std::vector<int> sched;
    size_t step = 0;
    SrcPipe() : InPipe{&Funcs_} {
    }
    static void destroyFn(InPipe*) {
    }
    static u32 readSomeFn(InPipe* p_, MutableStringView buf) {
        SrcPipe* p = (SrcPipe*) p_;
        size_t n = p->data.size() - p->pos;
        if (!p->sched.empty())
            n = std::min(n, (size_t) p->sched[p->step++ % p->sched.size()]);
        n = std::min(n, (size_t) buf.numBytes);
        memcpy(buf.bytes, p->data.data() + p->pos, n);
        p->pos += n;
        return (u32) n;
    }
    static u64 sizeFn(const InPipe*) {
        return 0;
    }
};
InPipe::Funcs SrcPipe::Funcs_ = {SrcPipe::destroyFn, SrcPipe::readSomeFn, SrcPipe::sizeFn};

struct SinkPipe : OutPipe {
    static Funcs Funcs_;
    Bytes got;
    size_t seen = 0;
    SinkPipe() : OutPipe{&Funcs_} {
    }
    static void destroyFn(OutPipe*) {
    }
    static bool writeFn(OutPipe* p, StringView v) {
        ((SinkPipe*) p)->got.append(v.bytes, v.numBytes);
        return true;
    }
    static bool flushFn(OutPipe*, bool) {
        return true;
    }
    static u64 seekFn(OutPipe*, s64, SeekDir) {
        return 0;
    }
    Bytes delta() {
        Bytes d = got.substr(seen);
        seen = got.size();
        return d;
    }
};
OutPipe::Funcs SinkPipe::Funcs_ = {SinkPipe::destroyFn, SinkPipe::writeFn, SinkPipe::flushFn, SinkPipe::seekFn};

static const TextEncoding* enc(const std::string& s) {
    if (s == "utf8")
        return TextEncoding::get<UTF8>();
    if (s == "utf16le")
        return TextEncoding::get<UTF16_LE>();
    if (s == "utf16be")
        return TextEncoding::get<UTF16_BE>();
    return TextEncoding::get<Enc_Bytes>();
}
static TextFormat fmtOf(const Cmd& c, size_t k) { // enc crlf bom
    TextFormat f;
    std::string e = c.s(k);
    f.encoding = e == "utf8" ? TextFormat::Encoding::UTF8
                             : e == "utf16le" ? TextFormat::Encoding::UTF16_le
                                              : e == "utf16be" ? TextFormat::Encoding::UTF16_be : TextFormat::Encoding::Bytes;
    f.newLine = c.i(k + 1) ? TextFormat::NewLine::CRLF : TextFormat::NewLine::LF;
    f.bom = c.i(k + 2);
    return f;
}
static void putFmt(Ev& e, const TextFormat& f) {
    const char* n[] = {"bytes", "utf8", "utf16be", "utf16le"};
    e.str("enc", n[(int) f.encoding]).t("crlf", f.newLine == TextFormat::NewLine::CRLF).t("bom", f.bom);
}
static std::vector<int> ints(const Cmd& c, size_t k) {
    std::vector<int> r;
    for (; k < c.n(); k++)
        r.push_back((int) c.i(k));
    return r;
}
static Bytes readAll(InStream* ins, const std::vector<int>& sizes) {
    Bytes out;
    size_t step = 0;
    for (;;) {
        u32 n = sizes.empty() ? 1 : (u32) sizes[step++ % sizes.size()];
        u32 r = ins->tryMakeBytesAvailable(n);
        if (r == 0)
            break;
        u32 k = std::min<u32>((u32) ins->numBytesAvailable(), n);
        out.append(ins->curByte, k);
        ins->advanceByte(k);
        if (out.size() > 5000000)
            endless("endless stream");
    }
    return out;
}

static std::unique_ptr<TextConverter> conv;
static SinkPipe* sink;
static OutPipe* convPipe;
static Owned<OutStream> exporter;
static void cleanup() {
    conv.reset();
    exporter.clear();
    delete sink;
    sink = nullptr;
}
void finishRun() {
    cleanup();
}

void runCommand(const Cmd& c) {
    const std::string& op = c.op();
    if (op == "reset") {
        cleanup();
        Ev("reset").out();
    } else if (op == "conv") { // src dst
        conv.reset(new TextConverter{enc(c.s(1)), enc(c.s(0))});
        Ev("conv").str("src", c.s(0)).str("dst", c.s(1)).out();
    } else if (op == "feed") { // bytes cap flush : repeated until the bytes are taken
        Bytes b = c.b(0);
        u32 cap = (u32) c.i(1);
        bool flush = c.i(2);
        for (int guard = 0; guard < 100000; guard++) {
            std::unique_ptr<char[]> buf{new char[cap]};
            std::unique_ptr<char[]> in{new char[b.size()]};
            memcpy(in.get(), b.data(), b.size());
            MutableStringView dst{buf.get(), cap};
            StringView src{in.get(), (u32) b.size()};
            conv->convert(&dst, &src, flush);
            u32 n = (u32) b.size() - src.numBytes, m = cap - dst.numBytes;
            Ev e("feed");
            e.b("b", b).i("cap", cap).t("flush", flush).i("n", n).b("o", Bytes(buf.get(), m)).out();
            b = b.substr(n);
            if (m < cap || cap == 0)
                break;
        }
    } else if (op == "once") { // src dst bytes
        Bytes b = c.b(2);
        String r = TextConverter::convertInternal(enc(c.s(1)), enc(c.s(0)), sv(b));
        Ev("once").str("src", c.s(0)).str("dst", c.s(1)).b("b", b).b("o", bytes(r)).out();
    } else if (op == "expopen") { // enc crlf bom blockExp
        exporter.clear();
        delete sink;
        sink = new SinkPipe;
        TextFormat f = fmtOf(c, 0);
        exporter = f.createExporter(Owned<OutStream>::create(borrow((OutPipe*) sink), (u32) c.i(3)));
        Ev e("expopen");
        putFmt(e, f);
        e.b("d", sink->delta()).out();
    } else if (op == "expwrite") {
        Bytes b = c.b(0);
        exporter->write(sv(b));
        Ev("expwrite").b("b", b).b("d", sink->delta()).out();
    } else if (op == "expflush") {
        exporter->flush(c.i(0));
        Ev("expflush").b("d", sink->delta()).out();
    } else if (op == "expclose") {
        exporter.clear();
        Ev("expflush").b("d", sink->delta()).out();
    } else if (op == "import") { // enc crlf bom blockExp raw nsched sched... sizes...
        SrcPipe p;
        p.data = c.b(4);
        size_t ns = (size_t) c.i(5);
        std::vector<int> rest = ints(c, 6);
        p.sched.assign(rest.begin(), rest.begin() + ns);
        std::vector<int> sizes(rest.begin() + ns, rest.end());
        TextFormat f = fmtOf(c, 0);
        Bytes out;
        {
            InStream base{borrow((InPipe*) &p), (u32) c.i(3)};
            Owned<InStream> ins = f.createImporter(borrow(&base));
            out = readAll(ins, sizes);
        }
        Ev e("import");
        putFmt(e, f);
        e.b("raw", p.data).b("o", out).out();
    } else if (op == "detect") { // blockExp raw sched...
        SrcPipe p;
        p.data = c.b(1);
        p.sched = ints(c, 2);
        InStream base{borrow((InPipe*) &p), (u32) c.i(0)};
        TextFormat f = TextFormat::autodetect(&base);
        Ev e("detect");
        putFmt(e, f);
        e.b("raw", p.data).b("rest", readAll(&base, {})).out();
    } else if (op == "loc") { // text offsets...
        Bytes t = c.b(0);
        std::unique_ptr<char[]> copy{new char[t.size()]};
        memcpy(copy.get(), t.data(), t.size());
        FileLocationMap map = FileLocationMap::fromView({copy.get(), (u32) t.size()});
        std::string q;
        for (int ofs : ints(c, 1)) {
            FileLocation f = map.getFileLocation((u32) ofs);
            String s = map.formatFileLocation((u32) ofs);
            q += std::string(q.empty() ? "[" : ",[") + std::to_string(ofs) + "," + std::to_string(f.lineNumber) + "," +
                 std::to_string(f.numBytesIntoLine) + "," + std::to_string((u32) f.columnNumber) + "," +
                 std::to_string((u32) f.numBytesIntoColumn) + ",\"" + bytes(s) + "\"]";
        }
        Ev("loc").b("b", t).raw("q", "[" + q + "]").out();
    } else if (op == "savetext") { // enc crlf bom text
        TextFormat f = fmtOf(c, 0);
        Bytes t = c.b(3);
        unlink("f.txt");
        FileSystem::native()->makeDirsAndSaveTextIfDifferent("f.txt", sv(t), f);
        String raw = FileSystem::native()->loadBinary("f.txt");
        Ev e("export");
        putFmt(e, f);
        e.b("b", t).b("raw", bytes(raw)).out();
        String back = FileSystem::native()->loadText("f.txt", f);
        Ev e2("import");
        putFmt(e2, f);
        e2.b("raw", bytes(raw)).b("o", bytes(back)).out();
        auto tup = FileSystem::native()->loadTextAutodetect("f.txt");
        Ev e3("auto");
        putFmt(e3, tup.second);
        e3.b("raw", bytes(raw)).b("o", bytes(tup.first)).out();
        unlink("f.txt");
    } else {
        toolError("unknown command");
    }
}
