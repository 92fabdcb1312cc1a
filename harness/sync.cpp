// Executes programs of several threads over the synchronisation objects, with random
// disturbance, and records when every operation was called and when it returned.
#include "harness.h"
#include <ply-runtime/thread/Mutex.h>
#include <ply-runtime/thread/impl/Mutex_POSIX.h>
#include <ply-runtime/thread/impl/Mutex_CPP11.h>
#include <ply-runtime/thread/impl/Mutex_LazyInit.h>
#include <ply-runtime/thread/impl/Mutex_SpinLock.h>
#include <ply-runtime/thread/impl/ConditionVariable_CPP11.h>
#include <ply-runtime/thread/impl/ConditionVariable_POSIX.h>
#include <ply-runtime/thread/ConditionVariable.h>
#include <ply-runtime/thread/Semaphore.h>
#include <ply-runtime/thread/RWLock.h>
#include <ply-runtime/thread/ManualResetEvent.h>
#include <ply-runtime/thread/Thread.h>
#include <ply-runtime/thread/impl/Thread_CPP11.h>
#include <ply-runtime/thread/impl/Thread_POSIX.h>
#include <ply-runtime/thread/ThreadLocal.h>
#include <ply-runtime/thread/TID.h>
#include <atomic>
#include <algorithm>
#include <sched.h>
#include <time.h>
#include <unistd.h>
using namespace ply;

static const int NT = 5;
struct Op {
    std::string name;
    int k, a, b;
};
struct Rec {
    unsigned ticket;
    bool call;
    const Op* op;
    int a, b;
    int r[2];
    int nr;
};
// Relaxed, so that recording orders nothing that the code under test should order.
static std::atomic<unsigned> g_ticket{0};
static std::atomic<unsigned> g_beat{0};
static std::atomic<int> g_gate{1};
static std::vector<Rec> g_log[NT];
static std::vector<std::vector<Op>> g_chunks[NT];
static size_t g_next[NT];
static std::atomic<int> g_callables[NT];

struct Rng {
    unsigned s;
    unsigned operator()() {
        s ^= s << 13;
        s ^= s >> 17;
        s ^= s << 5;
        return s;
    }
};
static void disturb(Rng& g) {
    unsigned x = g() % 16;
    if (x < 8)
        return;
    if (x < 12)
        sched_yield();
    else if (x < 15) {
        unsigned n = g() % 400;
        for (volatile unsigned j = 0; j < n;)
            j = j + 1;
    } else
        usleep(g() % 60);
}

enum class Color : u8 { None };

struct World {
    Mutex_POSIX m1;
    Mutex_CPP11 m2;
    alignas(Mutex_LazyInit) char m3[sizeof(Mutex_LazyInit)];
    Mutex_SpinLock m4;
    Mutex m5;
    int dat[6] = {};
    Semaphore sem[3];
    RWLock rw[3];
    int rdat[3] = {};
    ManualResetEvent ev1, ev2;
    Mutex_CPP11 cm1, cm3;
    Mutex_POSIX cm2, cm4;
    ConditionVariable_CPP11 cv1, cv3;
    ConditionVariable_POSIX cv2, cv4;
    int cnt[5] = {};
    Atomic<u8> at1{0}, at2{0};
    Atomic<u32> pub{0};
    int slot[64] = {};
    ThreadLocal<u32> tl1;
    ThreadLocal<Color> tl2;
    Mutex meet;
    std::atomic<int> both[40];
    Thread_POSIX tp[NT];
    Thread_CPP11 tc[NT];
    World() {
        for (auto& b : both)
            b = 0;
        lazy().zeroInit();
        m4.initialize();
    }
    ~World() {
        lazy().~Mutex_LazyInit();
    }
    Mutex_LazyInit& lazy() {
        return *(Mutex_LazyInit*) m3;
    }
};
static std::unique_ptr<World> g_w;
static unsigned g_seed;
static std::vector<unsigned long long> g_tids; // under g_tidLock
static std::atomic_flag g_tidLock = ATOMIC_FLAG_INIT;

static int tidMark() {
    unsigned long long id = (unsigned long long) TID::getCurrentThreadID();
    while (g_tidLock.test_and_set(std::memory_order_acquire))
        sched_yield();
    size_t k = std::find(g_tids.begin(), g_tids.end(), id) - g_tids.begin();
    if (k == g_tids.size())
        g_tids.push_back(id);
    g_tidLock.clear(std::memory_order_release);
    return (int) k;
}
static double nowMs() {
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec * 1e3 + ts.tv_nsec / 1e6;
}
static void lateInSecond(int ms) { // until little of this second is left
    for (;;) {
        timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        long left = 1000000000L - ts.tv_nsec;
        if (left < ms * 500000L)
            return;
        usleep(left > ms * 1000000L ? (left - ms * 490000L) / 1000 : 100);
    }
}

template <class M>
static int guarded(M& m, int& d, Rng& g) {
    LockGuard<M> guard{m};
    int x = d;
    disturb(g);
    d = x + 1;
    return x + 1;
}
template <class CV, class M>
static void give(CV& cv, M& m, int& n, bool all) {
    LockGuard<M> guard{m};
    n++;
    if (all)
        cv.wakeAll();
    else
        cv.wakeOne();
}
template <class CV, class M>
static void take(CV& cv, M& m, int& n, int ms) {
    LockGuard<M> guard{m};
    while (n == 0) {
        if (ms)
            cv.timedWait(guard, ms);
        else
            cv.wait(guard);
    }
    n--;
}
template <class CV, class M>
static void await(CV& cv, M& m, int& n, int v, int ms) {
    LockGuard<M> guard{m};
    while (n < v) {
        if (ms)
            cv.timedWait(guard, ms);
        else
            cv.wait(guard);
    }
}
template <class CV, class M>
static double lone(int ms) { // a timed wait that nobody ends
    M m;
    CV cv;
    LockGuard<M> guard{m};
    double t = nowMs();
    cv.timedWait(guard, ms);
    return nowMs() - t;
}

struct Runner {
    int t;
    Rng g;
    World& w;
    void* lockPtr = nullptr;
    std::vector<Op> const* ops = nullptr;

    Rec& rec(const Op& op, bool call) {
        g_log[t].push_back({0, call, &op, op.a, op.b, {0, 0}, 1});
        return g_log[t].back();
    }
    void stamp(Rec& r) {
        std::atomic_signal_fence(std::memory_order_seq_cst);
        r.ticket = g_ticket.fetch_add(1, std::memory_order_relaxed);
        g_beat.fetch_add(1, std::memory_order_relaxed);
        std::atomic_signal_fence(std::memory_order_seq_cst);
    }
    void called(const Op& op, int a, int b) {
        Rec& r = rec(op, true);
        r.a = a;
        r.b = b;
        stamp(r);
    }
    void called(const Op& op) {
        called(op, op.a, op.b);
    }
    void returned(const Op& op, int v) {
        unsigned tk;
        Rec r{0, false, &op, 0, 0, {v, 0}, 1};
        (void) tk;
        g_log[t].push_back(r);
        stamp(g_log[t].back());
    }
    void returned2(const Op& op, int v, int x) {
        g_log[t].push_back({0, false, &op, 0, 0, {v, x}, 2});
        stamp(g_log[t].back());
    }
    void lock(int k) {
        switch (k) {
            case 1: w.m1.lock(); break;
            case 2: w.m2.lock(); break;
            case 3: w.lazy().lock(); break;
            case 4: w.m4.lock(); break;
            case 5: w.m5.lock(); break;
        }
    }
    void unlock(int k) {
        switch (k) {
            case 1: w.m1.unlock(); break;
            case 2: w.m2.unlock(); break;
            case 3: w.lazy().unlock(); break;
            case 4: w.m4.unlock(); break;
            case 5: w.m5.unlock(); break;
        }
    }
    Atomic<u8>& at(int k) {
        return k == 1 ? w.at1 : w.at2;
    }
    template <class F>
    void simple(const Op& op, F f) {
        called(op);
        f();
        returned(op, 0);
    }
    // runs ops[i...], ends after the matching tpop when inside a scope
    size_t run(const std::vector<Op>& ops, size_t i, bool inScope) {
        for (; i < ops.size(); i++) {
            const Op& op = ops[i];
            const std::string& n = op.name;
            disturb(g);
            if (n == "lock")
                simple(op, [&] { lock(op.k); });
            else if (n == "unlock")
                simple(op, [&] { unlock(op.k); });
            else if (n == "held") {
                called(op);
                int x = w.dat[op.k];
                disturb(g);
                w.dat[op.k] = x + 1;
                returned(op, x + 1);
            } else if (n == "trylock") { // what follows up to unlock is left out when it fails
                called(op);
                bool ok = op.k == 1 ? w.m1.tryLock() : op.k == 2 ? w.m2.tryLock() : w.m5.tryLock();
                returned(op, ok);
                if (!ok)
                    while (ops[i].name != "unlock")
                        i++;
            } else if (n == "inc") {
                called(op);
                int v = 0;
                switch (op.k) {
                    case 1: v = guarded(w.m1, w.dat[1], g); break;
                    case 2: v = guarded(w.m2, w.dat[2], g); break;
                    case 3: v = guarded(w.lazy(), w.dat[3], g); break;
                    case 4: v = guarded(w.m4, w.dat[4], g); break;
                    case 5: v = guarded(w.m5, w.dat[5], g); break;
                }
                returned(op, v);
            } else if (n == "swait")
                simple(op, [&] { w.sem[op.k].wait(); });
            else if (n == "ssignal")
                simple(op, [&] {
                    if (op.a == 1)
                        w.sem[op.k].signal();
                    else
                        w.sem[op.k].signal(op.a);
                });
            else if (n == "rlock")
                simple(op, [&] { w.rw[op.k].lockShared(); });
            else if (n == "runlock")
                simple(op, [&] { w.rw[op.k].unlockShared(); });
            else if (n == "rheld") {
                called(op);
                int x = w.rdat[op.k];
                returned(op, x);
            } else if (n == "rget") {
                called(op);
                w.rw[op.k].lockShared();
                int x = w.rdat[op.k];
                disturb(g);
                if (w.rdat[op.k] != x)
                    x = -1;
                w.rw[op.k].unlockShared();
                returned(op, x);
            } else if (n == "rboth") { // both threads hold the lock at the same time; b: which meeting
                called(op);
                w.rw[op.k].lockShared();
                w.both[op.b].fetch_add(1, std::memory_order_relaxed);
                double until = nowMs() + 20000;
                bool met;
                while (!(met = w.both[op.b].load(std::memory_order_relaxed) == 2) && nowMs() < until)
                    sched_yield();
                w.rw[op.k].unlockShared();
                returned(op, met);
            } else if (n == "xlock")
                simple(op, [&] { w.rw[op.k].lockExclusive(); });
            else if (n == "xunlock")
                simple(op, [&] { w.rw[op.k].unlockExclusive(); });
            else if (n == "xheld" || n == "xinc") {
                called(op);
                if (n == "xinc")
                    w.rw[op.k].lockExclusive();
                int x = w.rdat[op.k];
                disturb(g);
                w.rdat[op.k] = x + 1;
                if (n == "xinc")
                    w.rw[op.k].unlockExclusive();
                returned(op, x + 1);
            } else if (n == "eset")
                simple(op, [&] { (op.k == 1 ? w.ev1 : w.ev2).signal(); });
            else if (n == "ereset")
                simple(op, [&] { (op.k == 1 ? w.ev1 : w.ev2).reset(); });
            else if (n == "ewait")
                simple(op, [&] { (op.k == 1 ? w.ev1 : w.ev2).wait(); });
            else if (n == "give")
                simple(op, [&] {
                    switch (op.k) {
                        case 1: give(w.cv1, w.cm1, w.cnt[1], op.a); break;
                        case 2: give(w.cv2, w.cm2, w.cnt[2], op.a); break;
                        case 3: give(w.cv3, w.cm3, w.cnt[3], true); break;
                        case 4: give(w.cv4, w.cm4, w.cnt[4], true); break;
                    }
                });
            else if (n == "take")
                simple(op, [&] {
                    if (op.k == 1)
                        take(w.cv1, w.cm1, w.cnt[1], op.a);
                    else
                        take(w.cv2, w.cm2, w.cnt[2], op.a);
                });
            else if (n == "await")
                simple(op, [&] {
                    if (op.k == 3)
                        await(w.cv3, w.cm3, w.cnt[3], op.a, op.b);
                    else
                        await(w.cv4, w.cm4, w.cnt[4], op.a, op.b);
                });
            else if (n == "load") {
                called(op);
                int v = op.b % 2 ? at(op.k).load(ply::Acquire) : at(op.k).load(ply::Relaxed);
                returned(op, v);
            } else if (n == "store")
                simple(op, [&] { at(op.k).store(op.a, op.b % 2 ? ply::Release : ply::Relaxed); });
            else if (n == "xchg" || n == "add" || n == "sub" || n == "and" || n == "or") {
                called(op);
                MemoryOrder mo = op.b % 4 == 0 ? ply::Relaxed : op.b % 4 == 1 ? ply::Acquire : op.b % 4 == 2 ? ply::Release : ply::AcquireRelease;
                Atomic<u8>& x = at(op.k);
                int v = n == "xchg" ? x.exchange(op.a, mo)
                        : n == "add" ? x.fetchAdd(op.a, mo)
                        : n == "sub" ? x.fetchSub(op.a, mo)
                        : n == "and" ? x.fetchAnd(op.a, mo)
                                     : x.fetchOr(op.a, mo);
                returned(op, v);
            } else if (n == "cas") {
                called(op);
                int v = at(op.k).compareExchange(op.a, op.b, ply::AcquireRelease);
                returned(op, v);
            } else if (n == "casx") {
                called(op);
                u8 e = op.a;
                bool ok = at(op.k).compareExchangeStrong(e, op.b, ply::AcquireRelease);
                returned2(op, ok, e);
            } else if (n == "casw") {
                called(op);
                u8 e = op.a;
                bool ok = at(op.k).compareExchangeWeak(e, op.b, ply::AcquireRelease, ply::Acquire);
                returned2(op, ok, e);
            } else if (n == "pub") { // b: how
                called(op);
                w.slot[op.a] = op.a;
                switch (op.b) {
                    case 0: w.pub.store(op.a, ply::Release); break;
                    case 1: w.pub.exchange(op.a, ply::AcquireRelease); break;
                    case 2: w.pub.compareExchange(op.a - 1, op.a, ply::Release); break;
                    case 3: {
                        u32 e = op.a - 1;
                        w.pub.compareExchangeStrong(e, op.a, ply::AcquireRelease);
                        break;
                    }
                    default: w.pub.fetchAdd(1, ply::Release); break;
                }
                returned(op, 0);
            } else if (n == "subs") {
                called(op);
                u32 v = 0;
                switch (op.b) {
                    case 0: v = w.pub.load(ply::Acquire); break;
                    case 1: v = w.pub.fetchOr(0, ply::Acquire); break;
                    case 2: v = w.pub.compareExchange(99, 99, ply::Acquire); break;
                    default: v = w.pub.fetchSub(0, ply::AcquireRelease); break;
                }
                returned(op, v == 0 ? 0 : v < 64 ? w.slot[v] : -1);
            } else if (n == "tset")
                simple(op, [&] {
                    if (op.k == 1)
                        w.tl1.store(op.a);
                    else
                        w.tl2.store((Color) op.a);
                });
            else if (n == "tget") {
                called(op);
                int v = op.k == 1 ? (int) w.tl1.load() : (int) w.tl2.load();
                returned(op, v);
            } else if (n == "tpush") {
                called(op);
                if (op.k == 1) {
                    auto scope = w.tl1.setInScope(op.a);
                    returned(op, 0);
                    i = run(ops, i + 1, true);
                    called(ops[i]);
                } else {
                    auto scope = w.tl2.setInScope((Color) op.a);
                    returned(op, 0);
                    i = run(ops, i + 1, true);
                    called(ops[i]);
                }
                returned(ops[i], 0);
            } else if (n == "tpop") {
                if (!inScope)
                    toolError("tpop");
                return i;
            } else if (n == "tid") {
                int m = tidMark();
                called(op, m, 0);
                returned(op, 0);
            } else if (n == "time") { // k: what, a: ms, b: 1 late in a second
                if (op.b)
                    lateInSecond(op.a);
                double best = 0;
                for (int j = 0; j < 4 && best < op.a; j++) {
                    double t = nowMs(), d = 0;
                    if (op.k == 0) {
                        Thread_POSIX::sleepMillis(op.a);
                        d = nowMs() - t;
                    } else if (op.k == 1)
                        d = lone<ConditionVariable_POSIX, Mutex_POSIX>(op.a);
                    else if (op.k == 2)
                        d = lone<ConditionVariable_CPP11, Mutex_CPP11>(op.a);
                    else {
                        Thread_CPP11::sleepMillis(op.a);
                        d = nowMs() - t;
                    }
                    best = std::max(best, d);
                }
                called(op, op.a, (int) best);
                returned(op, 0);
            } else if (n == "gate")
                g_gate.store(1, std::memory_order_relaxed);
            else if (n == "spawn")
                spawn(op);
            else if (n == "join") {
                called(op);
                if (op.k % 2)
                    w.tp[op.k].join();
                else
                    w.tc[op.k].join();
                returned(op, g_callables[op.k].load(std::memory_order_relaxed));
            } else if (n == "end")
                simple(op, [] {});
            else if (n == "valid") {
                called(op);
                bool v = op.k % 2 ? w.tp[op.k].isValid() : w.tc[op.k].isValid();
                returned(op, v);
            } else
                toolError(("unknown op " + n).c_str());
        }
        return i;
    }
    void spawn(const Op& op);
};

struct Callable { // counts how many of it there are
    int t;
    World* w;
    const std::vector<Op>* ops;
    int* mark;
    Callable(int t, World* w, const std::vector<Op>* ops) : t{t}, w{w}, ops{ops}, mark{new int{t}} {
        g_callables[t].fetch_add(1, std::memory_order_relaxed);
    }
    Callable(const Callable& o) : t{o.t}, w{o.w}, ops{o.ops}, mark{new int{*o.mark}} {
        g_callables[t].fetch_add(1, std::memory_order_relaxed);
    }
    ~Callable() {
        delete mark;
        g_callables[t].fetch_sub(1, std::memory_order_relaxed);
    }
    void operator()() {
        while (!g_gate.load(std::memory_order_relaxed))
            sched_yield();
        if (*mark != t)
            toolError("callable");
        Runner r{t, {g_seed * 2654435761u + t * 40503u + (unsigned) g_next[t] * 977u + 1u}, *w};
        r.run(*ops, 0, false);
    }
};
void Runner::spawn(const Op& op) {
    int j = op.k;
    if (g_next[j] >= g_chunks[j].size())
        toolError("nothing to run");
    const std::vector<Op>* ops = &g_chunks[j][g_next[j]++];
    called(op);
    {
        Callable c{j, &w, ops};
        if (j == 1)
            w.tp[j].run(std::move(c));
        else if (j == 3)
            w.tp[j].run(c); // an lvalue that is gone soon
        else if (j == 2)
            w.tc[j].run(std::move(c));
        else
            w.tc[j].run(c);
    }
    returned(op, 0);
}

static void watch() { // a separate thread that the code under test cannot stop
    pthread_t th;
    pthread_create(&th, nullptr, [](void*) -> void* {
        unsigned last = g_beat.load();
        double t = nowMs();
        for (;;) {
            usleep(100000);
            unsigned x = g_beat.load();
            if (x != last) {
                last = x;
                t = nowMs();
            } else if (nowMs() - t > 25000) {
                fprintf(stderr, "endless: no operation returns\n");
                _exit(98);
            }
        }
    }, nullptr);
    pthread_detach(th);
}

void runCommand(const Cmd& c) {
    if (c.op() == "reset") { // seed
        static bool watching = false;
        if (!watching)
            watch();
        watching = true;
        g_seed = (unsigned) c.i(0) + 1;
        g_w.reset();
        for (int t = 0; t < NT; t++) {
            g_log[t].clear();
            g_chunks[t].clear();
            g_chunks[t].emplace_back();
            g_next[t] = 0;
            g_callables[t] = 0;
        }
        g_tids.clear();
        g_w.reset(new World);
        Ev("reset").out();
    } else if (c.op() == "t") { // thread op k a b
        int t = (int) c.i(0);
        if (c.s(1) == "end") {
            g_chunks[t].back().push_back({"END", 0, 0, 0});
            g_chunks[t].emplace_back();
        } else
            g_chunks[t].back().push_back({c.s(1), (int) c.i(2), (int) c.i(3), (int) c.i(4)});
    } else if (c.op() == "go") { // gate
        g_gate = c.i(0) ? 0 : 1;
        for (int t = 1; t < NT; t++)
            for (auto& ch : g_chunks[t])
                if (!ch.empty() && ch.back().name == "END")
                    ch.back().name = "end";
        Runner r{0, {g_seed * 747796405u + 7u}, *g_w};
        r.run(g_chunks[0][0], 0, false);
        std::vector<std::pair<unsigned, std::pair<int, const Rec*>>> all;
        for (int t = 0; t < NT; t++)
            for (auto& x : g_log[t])
                all.push_back({x.ticket, {t, &x}});
        std::sort(all.begin(), all.end());
        for (auto& x : all) {
            const Rec& q = *x.second.second;
            if (q.call)
                Ev("c").i("t", x.second.first).str("op", q.op->name).i("k", q.op->k).i("a", q.a).i("b", q.b).out();
            else
                Ev("r").i("t", x.second.first).a("r", std::vector<int>(q.r, q.r + q.nr)).out();
        }
    } else
        toolError("unknown command");
}
void finishRun() {
    g_w.reset();
}
