// C20: repositories, modules, externs, and the project that is made of them.
#include "harness.h"
#include <ply-build-common/Core.h>
#include <ply-build-repo/RepoRegistry.h>
#include <ply-build-repo/ModuleArgs.h>
#include <ply-build-repo/ProjectInstantiator.h>
#include <ply-build-repo/ProjectInstantiationEnv.h>
#include <ply-build-repo/ExternProvider.h>
#include <ply-build-repo/ErrorHandler.h>
#include <ply-build-target/Dependency.h>
#include <ply-build-target/TargetError.h>
#include <ply-build-target/CMakeLists.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace ply;
using namespace ply::build;

static std::string g_scratch;
const char* plyVerifWorkspace() {
    return "/nonexistent/ws/";
}
const char* plyVerifCMake() {
    return "/nonexistent/cmake";
}

static std::string js(const std::string& s) {
    std::string r = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\')
            r += '\\';
        if ((unsigned char) c < 32)
            c = '?';
        r += c;
    }
    return r + "\"";
}
static std::string js(StringView v) {
    return js(bytes(v));
}
template <class V>
static std::string jl(const V& v) {
    std::string r = "[";
    bool first = true;
    for (const auto& x : v) {
        if (!first)
            r += ",";
        first = false;
        r += js(x);
    }
    return r + "]";
}
static std::string un(const std::string& s) { // "~" stands for the empty string
    return s == "~" ? "" : s;
}

typedef std::vector<std::string> StrVec;
typedef std::vector<StrVec> StepVec;

struct World {
    std::vector<Repo*> repos;
    std::vector<const TargetInstantiator*> targets;
    std::vector<const DependencySource*> externs;
    std::vector<const ExternProvider*> provs;
    std::map<const ExternProvider*, std::pair<bool, StepVec>> how;
    Owned<ProjectInstantiationEnv> env;
    ProjectInstantiationResult result;
    DependencyTree tree;
    ProjectInstantiator inst;
};
static World* W;
static StrVec g_errs;

static void logErr(StringView v) {
    Bytes b = bytes(v);
    while (!b.empty() && b.back() == '\n')
        b.pop_back();
    g_errs.push_back(b);
}
static std::string takeErrs() {
    std::string r = jl(g_errs);
    g_errs.clear();
    return r;
}

static Visibility vis(const std::string& s) {
    return s == "pub" ? Visibility::Public : Visibility::Private;
}

static void runSteps(ModuleArgs* a, const StepVec& steps) {
    for (const StrVec& s : steps) {
        const std::string& op = s[0];
        BuildTarget* t = a->buildTarget;
        if (op == "inc")
            a->addIncludeDir(vis(s[1]), sv(s[2]));
        else if (op == "def")
            a->setPreprocessorDefinition(vis(s[1]), sv(s[2]), sv(s[3]));
        else if (op == "flag")
            (s[1] == "pub" ? t->dep->abstractFlags : t->privateAbstractFlags).append(sv(s[2]));
        else if (op == "lib")
            t->dep->libs.append(sv(s[1]));
        else if (op == "dll")
            t->dep->dlls.append(sv(s[1]));
        else if (op == "fw")
            t->dep->frameworks.append(sv(s[1]));
        else if (op == "type")
            t->targetType = s[1] == "exe" ? BuildTargetType::EXE : s[1] == "dll" ? BuildTargetType::DLL : s[1] == "object" ? BuildTargetType::ObjectLib : s[1] == "header" ? BuildTargetType::HeaderOnly : BuildTargetType::Lib;
        else if (op == "dlp")
            t->dynamicLinkPrefix = sv(s[1]);
        else if (op == "code") {
            Array<StringView> rel = {sv(s[2])};
            a->addSourceFilesWhenImported("imp", rel);
        } else if (op == "src" || op == "hdr") {
            Array<String> files;
            for (size_t i = 2; i < s.size(); i++)
                files.append(sv(s[i]));
            t->sourceFiles.append({NativePath::join(a->targetInst->instantiatorPath, sv(s[1])), std::move(files)});
            if (op == "src")
                t->anySourceFiles = true;
        } else if (op == "non") {
            Array<StringView> files;
            for (size_t i = 2; i < s.size(); i++)
                files.append(sv(s[i]));
            a->addNonParticipatingFiles(sv(s[1]), files);
        } else if (op == "pch")
            a->setPrecompiledHeader(sv(s[1]), sv(s[2]));
        else if (op == "dep")
            a->addTarget(vis(s[1]), sv(s[2]));
        else if (op == "ext")
            a->addExtern(vis(s[1]), sv(s[2]));
        else
            toolError("bad step");
    }
}

static ExternResult externFunc(ExternCommand cmd, ExternProviderArgs* args) {
    auto& h = W->how[args->provider];
    if (!h.first)
        return {ExternResult::SupportedButNotInstalled, ""};
    if (cmd != ExternCommand::Instantiate)
        return {ExternResult::Installed, ""};
    for (const StrVec& s : h.second) {
        const std::string& op = s[0];
        Dependency* d = args->dep;
        if (op == "inc")
            d->includeDirs.append(sv(s[2]));
        else if (op == "def")
            d->defines.append({sv(s[2]), sv(s[3])});
        else if (op == "flag")
            d->abstractFlags.append(sv(s[2]));
        else if (op == "lib")
            d->libs.append(sv(s[1]));
        else if (op == "dll")
            d->dlls.append(sv(s[1]));
        else if (op == "fw")
            d->frameworks.append(sv(s[1]));
        else
            toolError("bad provider step");
    }
    return {ExternResult::Instantiated, ""};
}

template <class T, class P>
static int indexOf(const std::vector<T>& v, P p) {
    for (size_t i = 0; i < v.size(); i++)
        if (v[i] == p)
            return (int) i + 1;
    return 0;
}

// After the fixed arguments: steps, each introduced by ";"
static StepVec stepsFrom(const Cmd& c, size_t from, std::string* json) {
    StepVec r;
    for (size_t i = from + 1; i < c.tok.size(); i++) {
        if (c.tok[i] == ";")
            r.push_back({});
        else if (r.empty())
            toolError("step expected");
        else
            r.back().push_back(un(c.tok[i]));
    }
    *json = "[";
    for (size_t i = 0; i < r.size(); i++) {
        StrVec shown = r[i];
        if (shown[0] == "code")
            shown.resize(2);
        *json += (i ? "," : "") + jl(shown);
    }
    *json += "]";
    return r;
}

static void reset() {
    ErrorHandler::current = [](ErrorHandler::Level, HybridString&& m) { logErr(m); };
    TargetError::callback_ = [](StringView m) { logErr(m); };
    delete W;
    W = nullptr;
    RepoRegistry::instance_ = nullptr;
    RepoRegistry::instance_ = Owned<RepoRegistry>(new RepoRegistry);
    W = new World;
    W->env = new ProjectInstantiationEnv;
    W->env->buildFolderPath = NativePath::join(sv(g_scratch), "bf", "");
    W->inst.env = W->env;
    W->inst.result = &W->result;
    W->inst.depTreeNode = &W->tree;
    g_errs.clear();
}

static Repo* repoNamed(const std::string& n) {
    for (Repo* r : W->repos)
        if (r->repoName == sv(n))
            return r;
    toolError("no such repo");
}

static void scanExterns() {
    for (Repo* r : W->repos)
        for (const DependencySource* d : r->externs)
            if (!indexOf(W->externs, d))
                W->externs.push_back(d);
}

static std::string defs(ArrayView<const PreprocessorDefinition> v) {
    std::string r = "[";
    bool first = true;
    for (const PreprocessorDefinition& d : v) {
        r += (first ? "[" : ",[") + js(d.key.view()) + "," + js(d.value.view()) + "]";
        first = false;
    }
    return r + "]";
}

static std::string nodeRef(const Dependency* d) {
    for (u32 i = 0; i < W->result.dependencies.numItems(); i++)
        if (W->result.dependencies[i].dep == d)
            return std::to_string(i + 1);
    return "0";
}

static const char* typeName(BuildTargetType t) {
    switch (t) {
        case BuildTargetType::HeaderOnly:
            return "header";
        case BuildTargetType::Lib:
            return "lib";
        case BuildTargetType::ObjectLib:
            return "object";
        case BuildTargetType::DLL:
            return "dll";
        case BuildTargetType::EXE:
            return "exe";
    }
    return "?";
}

static void dump() {
    std::string nodes = "[";
    for (u32 i = 0; i < W->result.dependencies.numItems(); i++) {
        const auto& e = W->result.dependencies[i];
        bool tgt = e.depSrc->type == DependencySource::Target;
        int id = tgt ? indexOf(W->targets, e.depSrc) : indexOf(W->externs, e.depSrc);
        nodes += i ? "," : "";
        nodes += std::string("{\"kind\":\"") + (tgt ? "target" : "extern") + "\",\"id\":" + std::to_string(id) + ",\"ok\":" + (e.dep ? "true" : "false");
        if (e.dep) {
            const Dependency* d = e.dep;
            nodes += ",\"deps\":[";
            for (u32 k = 0; k < d->dependencies.numItems(); k++)
                nodes += std::string(k ? "," : "") + "[\"" + (d->dependencies[k].first == Visibility::Public ? "pub" : "priv") + "\"," + nodeRef(d->dependencies[k].second) + "]";
            nodes += "],\"vis\":[";
            for (u32 k = 0; k < d->visibleDeps.numItems(); k++)
                nodes += std::string(k ? "," : "") + nodeRef(d->visibleDeps[k]);
            nodes += "],\"inc\":" + jl(d->includeDirs) + ",\"def\":" + defs(d->defines) + ",\"flag\":" + jl(d->abstractFlags) +
                     ",\"libs\":" + jl(d->libs) + ",\"dlls\":" + jl(d->dlls) + ",\"fws\":" + jl(d->frameworks);
            if (const BuildTarget* t = d->buildTarget)
                nodes += ",\"type\":\"" + std::string(typeName(t->targetType)) + "\",\"name\":" + js(t->name.view()) + ",\"ctr\":" + (t->sharedContainer ? nodeRef(t->sharedContainer->dep) : "0") +
                         ",\"pinc\":" + jl(t->privateIncludeDirs) + ",\"pdef\":" + defs(t->privateDefines) + ",\"pflag\":" + jl(t->privateAbstractFlags);
        }
        nodes += "}";
    }
    nodes += "]";
    std::vector<int> unsel, uninst;
    for (const DependencySource* d : W->result.unselectedExterns)
        unsel.push_back(indexOf(W->externs, d));
    for (const ExternProvider* p : W->result.uninstalledProviders)
        uninst.push_back(indexOf(W->provs, p));
    std::string tree = "[";
    struct R {
        static void walk(const DependencyTree& t, int depth, std::string* out) {
            for (const DependencyTree& c : t.children) {
                *out += (*out == "[" ? "[" : ",[") + std::to_string(depth) + "," + js(c.desc.view()) + "]";
                walk(c, depth + 1, out);
            }
        }
    };
    R::walk(W->tree, 1, &tree);
    tree += "]";
    Ev("state").raw("nodes", nodes).a("unsel", unsel).a("uninst", uninst).raw("tree", tree).out();
}

// The commands of a CMake file: words, quoted or not
static std::string commands(const Bytes& t) {
    std::string out = "[";
    size_t i = 0;
    auto ws = [&](char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; };
    while (i < t.size()) {
        if (ws(t[i])) {
            i++;
            continue;
        }
        if (t[i] == '#') {
            while (i < t.size() && t[i] != '\n')
                i++;
            continue;
        }
        StrVec cmd(1);
        while (i < t.size() && t[i] != '(')
            cmd[0] += t[i++];
        i++;
        for (;;) {
            while (i < t.size() && ws(t[i]))
                i++;
            if (i >= t.size())
                return "[[\"unterminated\"]]";
            if (t[i] == ')') {
                i++;
                break;
            }
            std::string w;
            if (t[i] == '"') {
                for (i++; i < t.size() && t[i] != '"'; i++) {
                    if (t[i] == '\\' && i + 1 < t.size())
                        i++;
                    w += t[i];
                }
                i++;
            } else
                while (i < t.size() && !ws(t[i]) && t[i] != ')')
                    w += t[i++];
            // a variable named again right away adds nothing
            if (cmd.size() > 1 && w == cmd.back() && cmd[0].compare(0, 4, "add_") == 0 && w.compare(0, 2, "${") == 0 && w.size() > 9 && w.compare(w.size() - 9, 9, "_SOURCES}") == 0)
                continue;
            cmd.push_back(w);
        }
        if (cmd[0] == "cmake_minimum_required" || cmd[0] == "set" || cmd[0] == "include")
            continue;
        static std::string last;
        std::string j = jl(cmd);
        if (out != "[" && j == last && cmd[0] == "SetPrecompiledHeader")
            continue;
        last = j;
        out += (out == "[" ? "" : ",") + j;
    }
    return out + "]";
}

static std::string slurp(const std::string& p, bool* ok) {
    FILE* f = fopen(p.c_str(), "rb");
    *ok = f != nullptr;
    std::string r;
    if (f) {
        char b[4096];
        size_t n;
        while ((n = fread(b, 1, sizeof b, f)) > 0)
            r.append(b, n);
        fclose(f);
    }
    return r;
}

static void mkdirs(const std::string& p) {
    for (size_t i = 1; i <= p.size(); i++)
        if (i == p.size() || p[i] == '/')
            mkdir(p.substr(0, i).c_str(), 0700);
}

void runCommand(const Cmd& c) {
    const std::string& op = c.op();
    std::string json;
    if (op == "reset") {
        reset();
        Ev("reset").out();
    } else if (op == "repo") {
        Repo* r = new Repo;
        r->repoName = sv(c.s(0));
        StrVec kids;
        for (size_t i = 1; i < c.n(); i++) {
            kids.push_back(c.s(i));
            r->childRepos.append(repoNamed(c.s(i)));
        }
        auto cur = RepoRegistry::instance_->repos.insertOrFind(r->repoName);
        *cur = Owned<Repo>(r);
        W->repos.push_back(r);
        Ev("repo").raw("name", js(c.s(0))).raw("kids", jl(kids)).out();
    } else if (op == "target") {
        StepVec steps = stepsFrom(c, 3, &json);
        Repo* r = repoNamed(c.s(0));
        TargetInstantiator* t = new TargetInstantiator;
        t->name = sv(c.s(1));
        t->instantiatorPath = sv(c.s(2));
        t->repo = r;
        t->moduleFunc = [steps](ModuleArgs* a) { runSteps(a, steps); };
        r->addTargetInstantiator(Owned<TargetInstantiator>(t));
        W->targets.push_back(t);
        Ev("target").raw("repo", js(c.s(0))).raw("name", js(c.s(1))).raw("path", js(c.s(2))).raw("steps", json).out();
    } else if (op == "provider") {
        StepVec steps = stepsFrom(c, 4, &json);
        Repo* r = repoNamed(c.s(0));
        r->addExternProvider(sv(c.s(1)), sv(c.s(2)), externFunc);
        const ExternProvider* p = r->externProviders.back();
        W->provs.push_back(p);
        W->how[p] = {c.s(3) == "yes", steps};
        scanExterns();
        g_errs.clear();
        Ev("provider").raw("repo", js(c.s(0))).raw("ext", js(c.s(1))).raw("name", js(c.s(2))).t("inst", c.s(3) == "yes").raw("steps", json).i("got", indexOf(W->externs, p->extern_)).out();
    } else if (op == "look" || op == "select") {
        std::string kind = op == "select" ? "provider" : c.s(0);
        std::string n = un(c.s(op == "select" ? 0 : 1));
        int got = 0;
        const RepoRegistry* rr = RepoRegistry::get();
        const ExternProvider* p = nullptr;
        if (kind == "target")
            got = indexOf(W->targets, rr->findTargetInstantiator(sv(n)));
        else if (kind == "extern")
            got = indexOf(W->externs, rr->findExtern(sv(n)));
        else {
            p = rr->getExternProvider(sv(n));
            got = indexOf(W->provs, p);
        }
        if (op == "select" && p)
            W->env->externSelectors.append(p);
        Ev(op.c_str()).str("kind", kind).raw("name", js(n)).i("got", got).raw("errs", takeErrs()).out();
    } else if (op == "names") {
        // how everything is called, and what those names lead back to
        const RepoRegistry* rr = RepoRegistry::get();
        std::string r = "[";
        auto add = [&](const char* kind, int id, const String& s, const String& f, int bs, int bf) {
            r += std::string(r == "[" ? "" : ",") + "{\"kind\":\"" + kind + "\",\"id\":" + std::to_string(id) + ",\"short\":" + js(s.view()) + ",\"full\":" + js(f.view()) + ",\"bs\":" + std::to_string(bs) + ",\"bf\":" + std::to_string(bf) + "}";
        };
        for (auto* t : W->targets) {
            String s = rr->getShortDepSourceName(t), f = t->getFullyQualifiedName();
            add("target", indexOf(W->targets, t), s, f, indexOf(W->targets, rr->findTargetInstantiator(s)), indexOf(W->targets, rr->findTargetInstantiator(f)));
        }
        for (auto* t : W->externs) {
            String s = rr->getShortDepSourceName(t), f = t->getFullyQualifiedName();
            add("extern", indexOf(W->externs, t), s, f, indexOf(W->externs, rr->findExtern(s)), indexOf(W->externs, rr->findExtern(f)));
        }
        for (auto* t : W->provs) {
            String s = rr->getShortProviderName(t), f = t->getFullyQualifiedName();
            add("provider", indexOf(W->provs, t), s, f, indexOf(W->provs, rr->getExternProvider(s)), indexOf(W->provs, rr->getExternProvider(f)));
        }
        Ev("names").raw("all", r + "]").raw("errs", takeErrs()).out();
    } else if (op == "root") {
        Dependency* d = W->inst.instantiate(W->targets[c.i(0) - 1], c.s(1) == "yes");
        Ev("root").i("id", c.i(0)).t("shared", c.s(1) == "yes").raw("got", nodeRef(d)).raw("errs", takeErrs()).out();
    } else if (op == "die") {
        // a mistake that ends the program: in a process of its own
        int fd[2];
        if (pipe(fd))
            toolError("pipe");
        fflush(g_trace);
        pid_t pid = fork();
        if (pid == 0) {
            struct rlimit rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            dup2(fd[1], 2);
            close(fd[0]);
            W->inst.instantiate(W->targets[c.i(0) - 1], c.s(1) == "yes");
            _exit(0);
        }
        close(fd[1]);
        std::string text;
        char b[4096];
        ssize_t n;
        while ((n = read(fd[0], b, sizeof b)) > 0)
            text.append(b, n);
        close(fd[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        size_t nl = text.find('\n');
        Ev("die").i("id", c.i(0)).t("shared", c.s(1) == "yes").t("died", !(WIFEXITED(st) && WEXITSTATUS(st) == 0)).raw("text", js(text.substr(0, nl == std::string::npos ? 0 : nl))).out();
    } else if (op == "propagate") {
        W->inst.propagateAllDependencies();
        Ev("propagate").raw("errs", takeErrs()).out();
    } else if (op == "state") {
        dump();
    } else if (op == "cmake") { // solution, bootstrap?, source folder prefix
        bool boot = c.s(1) == "yes";
        CMakeBuildFolder cbf;
        cbf.solutionName = sv(c.s(0));
        cbf.absPath = W->env->buildFolderPath;
        cbf.forBootstrap = boot;
        std::string pre = un(c.s(2));
        cbf.sourceFolderPrefix = sv(pre);
        for (const auto& e : W->result.dependencies)
            if (e.dep && e.dep->buildTarget)
                cbf.targets.append(e.dep);
        MemOutStream mout;
        // the entry point the build folder uses, when it would do
        bool all = true;
        for (const auto& e : W->result.dependencies)
            all = all && e.dep;
        if (all && pre.empty())
            writeCMakeLists(&mout, sv(c.s(0)), W->env->buildFolderPath, &W->result, boot);
        else
            writeCMakeLists(&mout, &cbf);
        String text = mout.moveToString();
        // what is linked has a source file, if only an empty one
        StrVec nul;
        for (const auto& e : W->result.dependencies)
            if (e.dep && e.dep->buildTarget) {
                bool ok;
                std::string p = g_scratch + "/bf/codegen/" + bytes(e.depSrc->name) + "/Null.cpp";
                std::string body = slurp(p, &ok);
                if (ok && body.empty())
                    nul.push_back(bytes(e.depSrc->name));
            }
        Ev("cmake").raw("sol", js(c.s(0))).t("boot", boot).raw("srcf", js(pre.empty() ? "/nonexistent/ws/repos/plywood/src/" : pre)).raw("bldf", js(W->env->buildFolderPath.view())).raw("null", jl(nul)).raw("cmds", commands(bytes(text))).out();
    } else if (op == "outpath") {
        BuildTargetType t = c.s(0) == "exe" ? BuildTargetType::EXE : c.s(0) == "dll" ? BuildTargetType::DLL : BuildTargetType::Lib;
        String p = getTargetOutputPath(t, sv(c.s(1)), sv(c.s(2)), sv(c.s(3)));
        Ev("outpath").raw("type", js(c.s(0))).raw("name", js(c.s(1))).raw("folder", js(c.s(2))).raw("config", js(c.s(3))).raw("path", js(p.view())).out();
    } else if (op == "adddep") { // number of dependencies to choose from, then visibility and number of each
        u32 n = (u32) c.i(0);
        Array<Owned<Dependency>> all;
        for (u32 i = 0; i < n; i++)
            all.append(new Dependency);
        Dependency d;
        std::string in = "[", res = "[", deps = "[";
        for (size_t i = 1; i + 1 < c.n(); i += 2) {
            bool pub = c.s(i) == "pub";
            u32 k = (u32) c.i(i + 1);
            bool r = d.addDependency(pub ? Visibility::Public : Visibility::Private, all[k - 1]);
            in += (i > 1 ? ",[" : "[") + js(c.s(i)) + "," + std::to_string(k) + "]";
            res += (i > 1 ? "," : "") + std::string(r ? "true" : "false");
        }
        for (u32 i = 0; i < d.dependencies.numItems(); i++) {
            u32 k = 0;
            for (u32 j = 0; j < n; j++)
                if (all[j] == d.dependencies[i].second)
                    k = j + 1;
            deps += (i ? ",[" : "[") + std::string(d.dependencies[i].first == Visibility::Public ? "\"pub\"," : "\"priv\",") + std::to_string(k) + "]";
        }
        Ev("adddep").raw("in", in + "]").raw("res", res + "]").raw("deps", deps + "]").out();
    } else if (op == "sources") { // recursive? then relative paths of files
        static int num = 0;
        std::string root = g_scratch + "/s" + std::to_string(num++);
        mkdirs(root);
        std::string files = "[";
        for (size_t i = 1; i < c.n(); i++) {
            std::string p = root + "/" + c.s(i);
            mkdirs(p.substr(0, p.rfind('/')));
            FILE* f = fopen(p.c_str(), "w");
            if (!f)
                toolError("cannot create file");
            fclose(f);
        }
        Dependency dep;
        dep.buildTarget = new BuildTarget{&dep};
        dep.buildTarget->addSourceFiles(sv(root), c.s(0) == "yes");
        StrVec in;
        for (size_t i = 1; i < c.n(); i++)
            in.push_back(c.s(i));
        auto list = [&](ArrayView<const BuildTarget::SourceFilesPair> v) {
            if (v.numItems == 0)
                return std::string("[]");
            if (v.numItems != 1 || bytes(v[0].root) != root)
                return std::string("[\"?\"]");
            return jl(v[0].relFiles);
        };
        Ev("sources").t("rec", c.s(0) == "yes").raw("in", jl(in)).raw("src", list(dep.buildTarget->sourceFiles)).raw("non", list(dep.buildTarget->nonParticipatingFiles)).t("any", dep.buildTarget->anySourceFiles).out();
    } else
        toolError("unknown command");
}

static void start() {
    char tmpl[] = "/tmp/plybuildXXXXXX";
    if (!mkdtemp(tmpl))
        toolError("mkdtemp");
    g_scratch = tmpl;
}
static bool g_set = (g_afterOpen = start, true);

static void removeTree(const std::string& p) { // only below the scratch folder
    String root = sv(p);
    FileSystem::native();
    std::string cmd = "rm -rf -- '" + p + "'";
    if (p.compare(0, 13, "/tmp/plybuild") == 0 && p.find("..") == std::string::npos && p.find('\'') == std::string::npos)
        if (system(cmd.c_str())) {
        }
}

void finishRun() {
    delete W;
    W = nullptr;
    ErrorHandler::current = {};
    TargetError::callback_ = {};
    RepoRegistry::instance_ = nullptr;
    removeTree(g_scratch);
}
