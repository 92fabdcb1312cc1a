// Drives the incremental cooking engine over jobs whose recipes are files of a scratch folder.
#include "harness.h"
#include <ply-cook/Core.h>
#include <ply-cook/CookJob.h>
#include <ply-runtime/filesystem/FileSystem.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <unistd.h>
using namespace ply;
using namespace ply::cook;

const char* plyVerifWorkspace() {
    return "/nonexistent";
}
const char* plyVerifCMake() {
    return "/nonexistent";
}

static const int NumJobs = 7;
static int g_cooks[NumJobs], g_unlinks[NumJobs], g_live, g_databases;

struct Res : CookResult {
    PLY_REFLECT()
    // ply reflect off
    int out = 0;
    Res() {
        g_live++;
    }
    ~Res() {
        g_live--;
        out = -77;
    }
    void unlinkFromDatabase() override;
};
PLY_STRUCT_BEGIN(Res)
PLY_STRUCT_END()

static void performCook(CookResult* r, AnyObject arg);
static CookJobType g_types[2] = {{"even", getTypeDescriptor<Res>(), getTypeDescriptor<s32>(), performCook},
                                 {"odd", getTypeDescriptor<Res>(), getTypeDescriptor<s32>(), performCook}};
static CookJobID idOf(int j) {
    return {&g_types[j % 2], sv(std::to_string(j))};
}
static int numOf(const CookJob* job) {
    return atoi(bytes(job->id.desc).c_str());
}
static Res* resOf(CookJob* job) {
    return (Res*) job->result.get();
}
struct Database { // what results are unlinked from
    PLY_REFLECT()
    // ply reflect off
    int alive = 12345;
    ~Database() {
        alive = 0;
        g_databases--;
    }
    Database() {
        g_databases++;
    }
};
PLY_STRUCT_BEGIN(Database)
PLY_STRUCT_END()
void Res::unlinkFromDatabase() {
    Database* db = DependencyTracker::current()->userData.cast<Database>();
    if (db && db->alive != 12345)
        abort();
    g_unlinks[numOf(job) - 1]++;
}
static int argOf(AnyObject a) {
    return a.data ? *(s32*) a.data : 0;
}

struct DepOther : Dependency {
    int id = 0, val = 0;
};
struct DepArg : Dependency {
    int val = 0;
};
static DependencyType g_otherType = {[](Dependency* d_, CookResult*, AnyObject) -> bool {
    DepOther* d = (DepOther*) d_;
    Reference<CookJob> job = CookContext::current()->cook(idOf(d->id));
    return resOf(job)->out != d->val;
}};
static DependencyType g_argType = {[](Dependency* d, CookResult*, AnyObject a) -> bool { return argOf(a) != ((DepArg*) d)->val; }};

static std::vector<std::pair<char, int>> parse(const Bytes& b) {
    std::vector<std::pair<char, int>> r;
    size_t k = 0;
    while (k < b.size()) {
        char op = b[k++];
        int n = 0;
        while (k < b.size() && b[k] != ';')
            n = n * 10 + (b[k++] - '0');
        k++;
        r.push_back({op, n});
    }
    return r;
}
static Bytes slurp(InStream* ins) {
    return bytes(ins->readRemainingContents());
}
static void performCook(CookResult* r_, AnyObject arg) {
    Res* r = (Res*) r_;
    int me = numOf(r->job);
    g_cooks[me - 1]++;
    CookContext* ctx = CookContext::current();
    auto path = [](char k, int n) { return std::string(1, k) + std::to_string(n); };
    Owned<InStream> ins = r->openFileAsDependency(sv(path('j', me)));
    if (!ins) {
        r->out = 999;
        return;
    }
    for (auto& o : parse(slurp(ins))) {
        int add = 0;
        if (o.first == 'v')
            add = o.second;
        else if (o.first == 'a') {
            DepArg* d = new DepArg;
            d->type = &g_argType;
            d->val = argOf(arg);
            r->dependencies.append(d);
            add = d->val;
        } else if (o.first == 'd') {
            if (Owned<InStream> f = r->openFileAsDependency(sv(path('d', o.second))))
                add = 3 * parse(slurp(f))[0].second;
        } else if (o.first == 's') {
            r->createFileDependency(sv(path('d', o.second)));
        } else if (o.first == 'r') {
            r->addReference(idOf(o.second));
        } else if (o.first == 'c') {
            ctx->cook(idOf(o.second));
        } else if (o.first == 'o') {
            Reference<CookJob> job = ctx->cook(idOf(o.second));
            DepOther* d = new DepOther;
            d->type = &g_otherType;
            d->id = o.second;
            d->val = resOf(job)->out;
            r->dependencies.append(d);
            add = 7 * d->val;
        } else
            toolError("recipe");
        r->out = (r->out + add) % 1000;
    }
}

static DependencyTracker* g_tracker;
static CookContext* g_ctx;
static Reference<CookJob> g_slots[3];

static void putState(Ev& e) {
    std::string q;
    int n = 0;
    CookJobID low{&g_types[0], ""};
    for (auto it = g_tracker->allCookJobs.findFirstGreaterOrEqualTo(&low);
         it.isValid(); it.next()) {
        if (++n > 100)
            endless("jobs");
        CookJob* job = it.getItem();
        Res* r = resOf(job);
        std::string refs;
        int nf = 0;
        if (r) {
            for (CookJob* x : r->references)
                refs += (refs.empty() ? "" : ",") + std::to_string(numOf(x));
            nf = (int) r->dependencies.numItems();
            if (r->job != job)
                nf = -1;
        }
        q += std::string(q.empty() ? "" : ",") + "[" + std::to_string(numOf(job)) + "," + (r ? "1" : "0") + "," + std::to_string(r ? r->out : 0) +
             "," + std::to_string(r ? (int) r->errors.numItems() : 0) + ",[" + refs + "]," + std::to_string(nf) + "]";
    }
    e.raw("jobs", "[" + q + "]").a("cooks", std::vector<int>(g_cooks, g_cooks + NumJobs)).a("unlinks", std::vector<int>(g_unlinks, g_unlinks + NumJobs)).i("live", g_live);
    e.out();
}
static void clean() { // by own means: what refers to itself is taken apart
    if (!g_tracker)
        return;
    if (!g_ctx) {
        g_ctx = new CookContext;
        g_ctx->depTracker = g_tracker;
        g_ctx->beginCook();
    }
    g_ctx->deferredJobs = {};
    std::vector<Reference<CookJob>> all;
    CookJobID low{&g_types[0], ""};
    for (auto it = g_tracker->allCookJobs.findFirstGreaterOrEqualTo(&low); it.isValid(); it.next())
        all.push_back(it.getItem());
    for (auto& s : g_slots)
        s.clear();
    for (auto& j : all)
        if (j->result)
            j->result->references.clear();
    g_tracker->setRootReferences({});
    all.clear();
    g_ctx->endCook();
    delete g_ctx;
    g_ctx = nullptr;
    delete g_tracker;
    g_tracker = nullptr;
}
void finishRun() {
    clean();
}

void runCommand(const Cmd& c) {
    const std::string& op = c.op();
    if (op == "reset") {
        clean();
        for (char k : {'j', 'd'})
            for (int j = 1; j <= NumJobs; j++)
                unlink((std::string(1, k) + std::to_string(j)).c_str());
        for (int j = 0; j < NumJobs; j++)
            g_cooks[j] = g_unlinks[j] = 0;
        if (g_live)
            g_live = 0;
        g_tracker = new DependencyTracker;
        if (c.n() == 0 || c.i(0))
            g_tracker->userData = AnyOwnedObject::create<Database>();
        Ev("reset").out();
        return;
    }
    if (op == "put") { // kind n time content
        std::string f = c.s(0) + c.s(1), q;
        Bytes b = c.b(3);
        FILE* fp = fopen(f.c_str(), "wb");
        if (!fp || fwrite(b.data(), 1, b.size(), fp) != b.size())
            toolError("put");
        fclose(fp);
        struct timeval tv[2] = {{1600000000, 0}, {1600000000 + c.i(2), 0}};
        utimes(f.c_str(), tv);
        for (auto& o : parse(b))
            q += std::string(q.empty() ? "" : ",") + "[\"" + o.first + "\"," + std::to_string(o.second) + "]";
        Ev("put").str("k", c.s(0)).i("n", c.i(1)).i("m", c.i(2)).raw("c", "[" + q + "]").out();
        return;
    }
    if (op == "gone") {
        unlink((c.s(0) + c.s(1)).c_str());
        Ev("gone").str("k", c.s(0)).i("n", c.i(1)).out();
        return;
    }
    if (op == "begin") {
        if (g_ctx)
            return;
        g_ctx = new CookContext;
        g_ctx->depTracker = g_tracker;
        g_ctx->beginCook();
        Ev e("begin");
        putState(e);
        return;
    }
    if (op == "bye") { // the whole tracker goes
        if (g_ctx)
            return;
        g_ctx = new CookContext;
        g_ctx->depTracker = g_tracker;
        g_ctx->beginCook();
        for (auto& s : g_slots)
            s.clear();
        g_ctx->endCook();
        delete g_ctx;
        g_ctx = nullptr;
        delete g_tracker;
        g_tracker = nullptr;
        Ev("bye").a("cooks", std::vector<int>(g_cooks, g_cooks + NumJobs)).a("unlinks", std::vector<int>(g_unlinks, g_unlinks + NumJobs)).i("live", g_live).i("dbs", g_databases).out();
        g_live = 0; // what refers to itself stays
        g_tracker = new DependencyTracker;
        if (c.n() == 0 || c.i(0))
            g_tracker->userData = AnyOwnedObject::create<Database>();
        return;
    }
    if (!g_ctx)
        return;
    Ev e(op.c_str());
    if (op == "cook") { // slot job arg
        s32 arg = (s32) c.i(2);
        Reference<CookJob> j = g_ctx->cook(idOf((int) c.i(1)), arg ? AnyObject::bind(&arg) : AnyObject{});
        if (g_ctx->getAlreadyCookedResult(idOf((int) c.i(1))) != j->result.get() || j->castResult<Res>() != resOf(j))
            abort();
        if (c.i(0))
            g_slots[c.i(0) - 1] = j;
        e.i("k", c.i(0)).i("j", c.i(1)).i("a", arg);
    } else if (op == "hold") { // slot job
        g_slots[c.i(0) - 1] = g_tracker->getOrCreateCookJob(idOf((int) c.i(1)));
        e.i("k", c.i(0)).i("j", c.i(1));
    } else if (op == "drop") {
        g_slots[c.i(0) - 1].clear();
        e.i("k", c.i(0));
    } else if (op == "deferred") {
        g_ctx->cookDeferred();
    } else if (op == "roots") { // jobs...
        std::vector<int> q;
        Array<Reference<CookJob>> refs;
        for (size_t k = 0; k < c.n(); k++) {
            q.push_back((int) c.i(k));
            refs.append(g_tracker->getOrCreateCookJob(idOf((int) c.i(k))));
        }
        g_tracker->setRootReferences(std::move(refs));
        e.a("q", q);
    } else if (op == "isdone") { // slot
        if (!g_slots[c.i(0) - 1])
            return;
        e.i("k", c.i(0)).t("r", g_ctx->isCooked(g_slots[c.i(0) - 1]));
    } else if (op == "end") {
        if (g_ctx->deferredJobs.numItems() > 0)
            return;
        g_ctx->endCook();
        delete g_ctx;
        g_ctx = nullptr;
    } else {
        toolError("unknown command");
    }
    putState(e);
}
