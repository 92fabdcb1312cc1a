// Executes scripts of InStream operations on the real class, over several kinds of source.
#include "harness.h"
#include <ply-runtime/io/InStream.h>
#include <ply-runtime/io/impl/Pipe_FD.h>
#include <unistd.h>
#include <fcntl.h>
using namespace ply;

// An InPipe that delivers `data` in chunks whose sizes follow a repeating schedule.
struct ScriptPipe : InPipe {
    static Funcs Funcs_;
    Bytes data;
    size_t pos = 0;
    std::vector<int> sched;
    size_t step = 0;
    ScriptPipe() : InPipe{&Funcs_} {
    }
    static void destroyFn(InPipe*) {
    }
    static u32 readSomeFn(InPipe* p_, MutableStringView buf) {
        ScriptPipe* p = (ScriptPipe*) p_;
        if (buf.numBytes == 0)
            return 0;
        size_t n = p->data.size() - p->pos;
        if (!p->sched.empty())
            n = std::min(n, (size_t) p->sched[p->step++ % p->sched.size()]);
        n = std::min(n, (size_t) buf.numBytes);
        memcpy(buf.bytes, p->data.data() + p->pos, n);
        p->pos += n;
        return (u32) n;
    }
    static u64 sizeFn(const InPipe* p) {
        return ((const ScriptPipe*) p)->data.size();
    }
};
InPipe::Funcs ScriptPipe::Funcs_ = {ScriptPipe::destroyFn, ScriptPipe::readSomeFn, ScriptPipe::sizeFn};

struct State {
    Bytes data;
    Bytes* heapCopy = nullptr;
    ScriptPipe* pipe = nullptr;
    InStream* ins = nullptr;
    bool isView = false;
    BlockList::Ref saves[4];
    u64 savedAt[4] = {};
    const char* viewSaves[4] = {};
};
static State* g;

static void cleanup() {
    if (g) {
        delete g->ins;
        for (auto& r : g->saves)
            r = BlockList::Ref{};
        delete g->pipe;
        delete g->heapCopy;
        delete g;
        g = nullptr;
    }
}
void finishRun() {
    cleanup();
}

void runCommand(const Cmd& c) {
    const std::string& op = c.op();
    if (op == "reset") { // reset kind blockExp data sched...
        cleanup();
        g = new State;
        g->data = c.b(2);
        std::string kind = c.s(0);
        if (kind == "view") {
            g->isView = true;
            g->heapCopy = new Bytes(g->data);
            g->heapCopy->shrink_to_fit();
            g->ins = new ViewInStream{sv(*g->heapCopy)};
        } else if (kind == "fd") {
            int fd = open("data.bin", O_RDWR | O_CREAT | O_TRUNC, 0600);
            if (fd < 0 || write(fd, g->data.data(), g->data.size()) != (ssize_t) g->data.size())
                toolError("scratch file");
            lseek(fd, 0, SEEK_SET);
            g->ins = new InStream{Owned<InPipe>{new InPipe_FD{fd}}, (u32) c.i(1)};
        } else {
            g->pipe = new ScriptPipe;
            g->pipe->data = g->data;
            for (size_t k = 3; k < c.n(); k++)
                g->pipe->sched.push_back((int) c.i(k));
            g->ins = new InStream{borrow((InPipe*) g->pipe), (u32) c.i(1)};
        }
        Ev("reset").t("view", g->isView).b("data", g->data).out();
        return;
    }
    if (op == "pread") { // kind data n m sched... : two whole reads from a pipe of its own
        Bytes d = c.b(1);
        ScriptPipe sp;
        Owned<InPipe> fdPipe;
        InPipe* p = &sp;
        if (c.s(0) == "fd") {
            int fd = open("pread.bin", O_RDWR | O_CREAT | O_TRUNC, 0600);
            if (fd < 0 || write(fd, d.data(), d.size()) != (ssize_t) d.size())
                toolError("scratch file");
            lseek(fd, 0, SEEK_SET);
            fdPipe = new InPipe_FD{fd};
            p = fdPipe;
        } else {
            sp.data = d;
            for (size_t k = 4; k < c.n(); k++)
                sp.sched.push_back((int) c.i(k));
        }
        Ev e("pread");
        e.b("d", d);
        for (int k = 0; k < 2; k++) {
            u32 n = (u32) c.i(2 + k);
            std::unique_ptr<char[]> buf{new char[n]};
            memset(buf.get(), 0x5a, n);
            bool ok = p->read({buf.get(), n});
            e.i(k ? "m" : "n", n).t(k ? "mok" : "ok", ok).b(k ? "w" : "v", Bytes(buf.get(), n));
        }
        e.out();
        return;
    }
    InStream* ins = g->ins;
    auto fin = [&](Ev& e) {
        e.t("eof", ins->atEOF()).out();
    };
    if (op == "try") {
        u32 n = (u32) c.i(0);
        u32 r = ins->tryMakeBytesAvailable(n);
        Ev e("try");
        e.i("n", n).i("r", r);
        e.b("v", bytes(ins->viewAvailable()).substr(0, 300)).i("av", ins->numBytesAvailable());
        fin(e);
    } else if (op == "byte") {
        int v = ins->readByte();
        Ev e("byte");
        e.i("v", v);
        fin(e);
    } else if (op == "read") {
        u32 n = (u32) c.i(0);
        std::unique_ptr<char[]> buf{new char[n]};
        memset(buf.get(), 0x5a, n);
        bool ok = ins->read({buf.get(), n});
        Ev e("read");
        e.i("n", n).t("ok", ok).b("v", Bytes(buf.get(), n));
        fin(e);
    } else if (op == "skip") {
        u32 n = (u32) c.i(0);
        bool ok = ins->skip(n);
        Ev e("skip");
        e.i("n", n).t("ok", ok);
        fin(e);
    } else if (op == "adv") {
        u32 n = std::min((u32) c.i(0), (u32) ins->numBytesAvailable());
        Bytes v;
        for (u32 k = 0; k < n; k++)
            v.push_back(ins->peekByte(k));
        ins->advanceByte(n);
        Ev e("adv");
        e.i("n", n).b("v", v);
        fin(e);
    } else if (op == "pos") {
        Ev e("pos");
        e.i("v", (long long) ins->getSeekPos());
        fin(e);
    } else if (op == "save") {
        int k = (int) c.i(0);
        if (g->isView)
            g->viewSaves[k] = ins->asViewInStream()->savePoint().startByte;
        else
        {
            g->saves[k] = ins->getBlockRef();
            g->savedAt[k] = ins->getSeekPos();
        }
        Ev e("save");
        e.i("k", k);
        fin(e);
    } else if (op == "drop") {
        int k = (int) c.i(0);
        g->saves[k] = BlockList::Ref{};
        g->viewSaves[k] = nullptr;
        Ev e("drop");
        e.i("k", k);
        fin(e);
    } else if (op == "rewind") {
        int k = (int) c.i(0);
        if (g->isView ? !g->viewSaves[k] : !g->saves[k].block)
            return;
        if (g->isView) {
            ViewInStream::SavePoint sp = ins->asViewInStream()->savePoint();
            sp.startByte = g->viewSaves[k];
            if (sp.startByte > ins->curByte)
                return; // only going back is offered for views
            ins->asViewInStream()->restore(sp);
        } else {
            ins->rewind(g->saves[k]);
        }
        Ev e("rewind");
        e.i("k", k);
        fin(e);
    } else if (op == "since" || op == "sincem") {
        // the bytes between a saved position and the current one
        int k = (int) c.i(0);
        if (g->isView ? !g->viewSaves[k] : !g->saves[k].block)
            return;
        Bytes v;
        if (g->isView) {
            if (g->viewSaves[k] > ins->curByte)
                return;
            ViewInStream::SavePoint sp = ins->asViewInStream()->savePoint();
            sp.startByte = g->viewSaves[k];
            v = bytes(ins->asViewInStream()->getViewFrom(sp));
        } else {
            if (g->savedAt[k] > ins->getSeekPos())
                return; // a range runs forwards
            if (op == "sincem") { // give up the saved position
                v = bytes(BlockList::toString(std::move(g->saves[k]), ins->getBlockRef()));
                g->saves[k] = BlockList::Ref{};
                Ev e("sincem");
                e.i("k", k).b("v", v);
                fin(e);
                return;
            }
            BlockList::Ref start = g->saves[k];
            v = bytes(BlockList::toString(std::move(start), ins->getBlockRef()));
        }
        Ev e("since");
        e.i("k", k).b("v", v);
        fin(e);
    } else if (op == "toend") {
        int k = (int) c.i(0);
        if (g->isView || !g->saves[k].block)
            return;
        BlockList::Ref start = g->saves[k];
        String text = BlockList::toString(std::move(start));
        Bytes v = bytes(text);
        if (text.numBytes > 0)
            memset(text.bytes, '#', text.numBytes);
        Ev e("toend");
        e.i("k", k).b("v", v);
        fin(e);
    } else if (op == "line") {
        Bytes v;
        if (g->isView)
            v = bytes(ins->asViewInStream()->readView<fmt::Line>());
        else
            v = bytes(ins->readString<fmt::Line>());
        Ev e("line");
        e.b("v", v);
        fin(e);
    } else if (op == "move") {
        if (!g->isView) {
            InStream* n = new InStream{std::move(*ins)};
            delete ins;
            g->ins = ins = n;
        }
        Ev e("move");
        fin(e);
    } else if (op == "massign") {
        if (!g->isView) {
            InStream* n = new InStream{};
            *n = std::move(*ins);
            delete ins;
            g->ins = ins = n;
        }
        Ev e("move");
        fin(e);
    } else if (op == "rest") {
        if (g->isView)
            return;
        String text = ins->readRemainingContents();
        Bytes v = bytes(text);
        if (text.numBytes > 0)
            memset(text.bytes, '#', text.numBytes); // it belongs to the caller
        Ev e("rest");
        e.b("v", v);
        fin(e);
    } else {
        toolError("unknown command");
    }
}
