// Scripted pipes shared by harnesses.
#pragma once
#include <ply-runtime/io/InStream.h>
#include <ply-runtime/io/OutStream.h>

// An InPipe that delivers `data` in chunks whose sizes follow a repeating schedule.
struct ScriptPipe : ply::InPipe {
    static Funcs Funcs_;
    Bytes data;
    size_t pos = 0;
    std::vector<int> sched;
    size_t step = 0;
    ScriptPipe() : InPipe{&Funcs_} {
    }
    static void destroyFn(ply::InPipe*) {
    }
    static ply::u32 readSomeFn(ply::InPipe* p_, ply::MutableStringView buf) {
        ScriptPipe* p = (ScriptPipe*) p_;
        if (buf.numBytes == 0)
            return 0;
        size_t n = p->data.size() - p->pos;
        if (!p->sched.empty())
            n = std::min(n, (size_t) p->sched[p->step++ % p->sched.size()]);
        n = std::min(n, (size_t) buf.numBytes);
        memcpy(buf.bytes, p->data.data() + p->pos, n);
        p->pos += n;
        return (ply::u32) n;
    }
    static ply::u64 sizeFn(const ply::InPipe* p) {
        return ((const ScriptPipe*) p)->data.size();
    }
};
ply::InPipe::Funcs ScriptPipe::Funcs_ = {ScriptPipe::destroyFn, ScriptPipe::readSomeFn, ScriptPipe::sizeFn};

static std::vector<int> ints(const Cmd& c, size_t k) {
    std::vector<int> r;
    for (; k < c.n(); k++)
        r.push_back((int) c.i(k));
    return r;
}
