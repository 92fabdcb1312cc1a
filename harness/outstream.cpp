// Executes scripts of OutStream operations on the real class, over several destinations.
#include "harness.h"
#include <ply-runtime/io/OutStream.h>
#include <ply-runtime/io/impl/Pipe_FD.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
using namespace ply;

// Short writes: the kernel may accept only part of what it is given.
static int g_shortFd = -1;
static std::vector<int> g_shortSched;
static size_t g_shortStep = 0;
extern "C" ssize_t write(int fd, const void* p, size_t n) {
    if (fd == g_shortFd && !g_shortSched.empty()) {
        size_t k = (size_t) g_shortSched[g_shortStep++ % g_shortSched.size()];
        if (n > k)
            n = k;
    }
    return syscall(SYS_write, fd, p, n);
}

struct ScriptOut : OutPipe {
    static Funcs Funcs_;
    Bytes got;
    long long limit = -1; // total number of bytes accepted before failing
    int fails = 0, flushes = 0, devFlushes = 0;
    bool flushOk = true;
    bool* destroyed = nullptr;
    ScriptOut() : OutPipe{&Funcs_} {
    }
    static void destroyFn(OutPipe* p) {
        if (((ScriptOut*) p)->destroyed)
            *((ScriptOut*) p)->destroyed = true;
    }
    static bool writeFn(OutPipe* p_, StringView v) {
        ScriptOut* p = (ScriptOut*) p_;
        size_t n = v.numBytes;
        if (p->limit >= 0 && p->got.size() + n > (size_t) p->limit) {
            p->got.append(v.bytes, (size_t) p->limit - p->got.size());
            p->fails++;
            return false;
        }
        p->got.append(v.bytes, n);
        return true;
    }
    static bool flushFn(OutPipe* p_, bool dev) {
        ScriptOut* p = (ScriptOut*) p_;
        p->flushes++;
        if (dev)
            p->devFlushes++;
        return p->flushOk;
    }
    static u64 seekFn(OutPipe*, s64, SeekDir) {
        return 0;
    }
};
OutPipe::Funcs ScriptOut::Funcs_ = {ScriptOut::destroyFn, ScriptOut::writeFn, ScriptOut::flushFn, ScriptOut::seekFn};

static std::string kind;
static OutStream* outs;
static ScriptOut* pipe_;   // null when owned and destroyed
static bool pipeDestroyed, pipeOwned;
static Bytes lastGot;      // what the pipe held when it was destroyed
static int fileFd = -1;
static size_t seen;
static int seenFails;
static char* viewBuf;
static u32 viewCap;

static void cleanup() {
    if (outs) {
        delete outs;
        outs = nullptr;
    }
    if (pipe_ && !pipeOwned)
        delete pipe_;
    pipe_ = nullptr;
    if (fileFd >= 0)
        close(fileFd);
    fileFd = -1;
    g_shortFd = -1;
    delete[] viewBuf;
    viewBuf = nullptr;
}
void finishRun() {
    cleanup();
}
static Bytes delta(int* pf) {
    *pf = 0;
    if (kind == "pipe") {
        if (pipeDestroyed)
            return "";
        Bytes d = pipe_->got.substr(seen);
        seen = pipe_->got.size();
        *pf = pipe_->fails - seenFails;
        seenFails = pipe_->fails;
        return d;
    }
    if (kind == "file") {
        struct stat st;
        if (fstat(fileFd, &st))
            toolError("fstat");
        Bytes d((size_t) st.st_size - seen, 0);
        if (pread(fileFd, &d[0], d.size(), (off_t) seen) != (ssize_t) d.size())
            toolError("pread");
        seen = (size_t) st.st_size;
        return d;
    }
    return "";
}
static void fin(Ev& e) {
    int pf;
    Bytes d = delta(&pf);
    e.b("d", d).i("pf", pf).t("eof", outs ? outs->atEOF() : false).out();
}
// A pipe that outlives its stream so that destruction can be observed.
struct Keeper : ScriptOut {};

void runCommand(const Cmd& c) {
    const std::string& op = c.op();
    if (op == "reset") { // reset kind blockExp limit owned flushok [short writes...]
        cleanup();
        kind = c.s(0);
        seen = 0;
        seenFails = 0;
        pipeDestroyed = false;
        pipeOwned = false;
        long long cap = c.i(2);
        u32 exp = (u32) c.i(1);
        if (kind == "pipe") {
            pipe_ = new ScriptOut;
            pipe_->limit = cap;
            pipe_->flushOk = c.i(4);
            pipe_->destroyed = &pipeDestroyed;
            pipeOwned = c.i(3);
            if (pipeOwned)
                outs = new OutStream{Owned<OutPipe>{pipe_}, exp};
            else
                outs = new OutStream{borrow((OutPipe*) pipe_), exp};
        } else if (kind == "file") {
            unlink("out.bin");
            int fd = open("out.bin", O_RDWR | O_CREAT | O_TRUNC, 0600);
            fileFd = open("out.bin", O_RDONLY);
            if (fd < 0 || fileFd < 0)
                toolError("scratch file");
            g_shortFd = fd;
            g_shortStep = 0;
            g_shortSched.clear();
            for (size_t k = 5; k < c.n(); k++)
                g_shortSched.push_back((int) c.i(k));
            outs = new OutStream{Owned<OutPipe>{new OutPipe_FD{fd}}, exp};
            cap = -1;
            pipeOwned = true;
        } else if (kind == "mem") {
            outs = new MemOutStream{exp};
            cap = -1;
        } else {
            viewCap = (u32) cap;
            viewBuf = new char[viewCap];
            outs = new ViewOutStream{{viewBuf, viewCap}};
        }
        Ev("reset").str("kind", kind).i("cap", cap).t("owned", pipeOwned).t("flushok", kind != "pipe" || c.i(4)).out();
        return;
    }
    if (!outs)
        return;
    if (op == "write") {
        Bytes b = c.b(0);
        Ev e("write");
        bool ok = outs->write(sv(b));
        e.b("b", b).t("ok", ok);
        fin(e);
    } else if (op == "fillwrite") { // n seed: a long write
        Bytes b;
        for (long long k = 0; k < c.i(0); k++)
            b.push_back((char) (c.i(1) + k * 7));
        Ev e("write");
        bool ok = outs->write(sv(b));
        e.b("b", b).t("ok", ok);
        fin(e);
    } else if (op == "byte") {
        Ev e("write");
        bool ok = outs->writeByte((u8) c.i(0));
        e.b("b", Bytes(1, (char) c.i(0))).t("ok", ok);
        fin(e);
    } else if (op == "print") { // through the formatting layer
        Bytes b = c.b(0);
        Ev e("write");
        outs->format("{}", sv(b));
        e.b("b", b).t("ok", !outs->atEOF());
        fin(e);
    } else if (op == "try" || op == "make") { // n k: ask for n, write k of them in place
        u32 n = (u32) c.i(0);
        if (op == "make" && kind == "view")
            return;
        Ev e(op.c_str());
        u32 r;
        if (op == "try")
            r = outs->tryMakeBytesAvailable(n);
        else {
            outs->makeBytesAvailable(n);
            r = (u32) outs->numBytesAvailable();
        }
        u32 av = outs->numBytesAvailable();
        u32 k = std::min((u32) c.i(1), std::min(r, av));
        Bytes b;
        for (u32 j = 0; j < k; j++) {
            char ch = (char) (j * 11 + n);
            *outs->curByte++ = ch;
            b.push_back(ch);
        }
        e.i("n", n).i("r", std::min(r, 1000000u)).i("av", av).b("b", b);
        fin(e);
    } else if (op == "flush") {
        Ev e("flush");
        bool dev = c.i(0);
        int f0 = pipe_ ? pipe_->flushes : 0, d0 = pipe_ ? pipe_->devFlushes : 0;
        bool rc = outs->flush(dev);
        e.t("dev", dev).t("ok", rc).i("fl", pipe_ ? pipe_->flushes - f0 : -1).i("dfl", pipe_ ? pipe_->devFlushes - d0 : -1);
        fin(e);
    } else if (op == "pos") {
        Ev e("pos");
        e.i("v", (long long) outs->getSeekPos());
        fin(e);
    } else if (op == "move" || op == "massign") {
        if (kind == "view")
            return;
        OutStream* n;
        if (op == "move") {
            n = new OutStream{std::move(*outs)};
        } else {
            n = new OutStream{Owned<OutPipe>{new ScriptOut}};
            *n = std::move(*outs);
        }
        bool dead = outs->numBytesAvailable() == 0 && !outs->tryMakeBytesAvailable();
        delete outs;
        outs = n;
        Ev e("move");
        e.t("dead", dead);
        fin(e);
    } else if (op == "head") { // everything written so far, read through the block list
        if (kind != "mem")
            return;
        outs->flushMem();
        Bytes all;
        for (StringView v : BlockList::iterateOverViews(((MemOutStream*) outs)->getHeadRef()))
            all += bytes(v);
        Ev e("head");
        e.b("v", all);
        fin(e);
    } else if (op == "str") {
        if (kind != "mem")
            return;
        String s = ((MemOutStream*) outs)->moveToString();
        bool dead = !outs->tryMakeBytesAvailable();
        Bytes v = bytes(s);
        delete outs;
        outs = nullptr;
        Ev e("str");
        e.b("v", v).t("dead", dead);
        fin(e);
    } else if (op == "view") {
        if (kind != "view")
            return;
        Ev e("contents");
        e.b("v", Bytes(viewBuf, (size_t) (outs->curByte - viewBuf)));
        fin(e);
    } else if (op == "close") {
        // keep what the pipe got visible after its destruction
        struct Copy {};
        Bytes before = kind == "pipe" ? pipe_->got : "";
        static Bytes sink;
        sink.clear();
        if (kind == "pipe" && pipeOwned) {
            // the destructor of the pipe runs inside; its bytes are recorded just before
            struct Hook {
                static void destroyAndKeep(OutPipe* p) {
                    sink = ((ScriptOut*) p)->got;
                    pipeDestroyed = true;
                    seenFails = -1 - ((ScriptOut*) p)->fails;
                }
            };
            static OutPipe::Funcs funcs;
            funcs = ScriptOut::Funcs_;
            funcs.destroy = Hook::destroyAndKeep;
            int f0 = seenFails;
            pipe_->funcs = &funcs;
            delete outs;
            outs = nullptr;
            Ev e("close");
            e.t("destroyed", pipeDestroyed);
            int pf = pipeDestroyed ? (-1 - seenFails) - f0 : 0;
            e.b("d", sink.substr(std::min(seen, sink.size()))).i("pf", pf).t("eof", false).out();
            pipe_ = nullptr;
            return;
        }
        delete outs;
        outs = nullptr;
        Ev e("close");
        e.t("destroyed", kind == "file" ? true : pipeDestroyed);
        fin(e);
    } else {
        toolError("unknown command");
    }
}
