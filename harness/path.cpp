// Executes scripts of path operations (no file system access).
#include "harness.h"
#include <ply-runtime/filesystem/Path.h>
using namespace ply;

static bool g_win;
static Bytes g_cwd;
template <typename P>
static void go(const Cmd& c) {
    const std::string& op = c.op();
    Ev e{op.c_str()};
    PathFormat fmt = P::format();
    if (op == "cd") {
        Bytes p = c.b(0);
        g_cwd = bytes(P::join(sv(g_cwd), sv(p)));
        e.b("p", p).b("cwd", g_cwd);
    } else if (op == "join") {
        std::vector<Bytes> q;
        Array<StringView> views;
        for (size_t j = 0; j < c.n(); j++)
            q.push_back(c.b(j));
        for (const Bytes& b : q)
            views.append(sv(b));
        Bytes r = bytes(fmt.joinAndNormalize(views));
        if (q.size() == 2 && bytes(P::join(sv(q[0]), sv(q[1]))) != r)
            r = "?";
        if (q.size() == 3 && bytes(fmt.join(sv(q[0]), sv(q[1]), sv(q[2]))) != r)
            r = "?";
        e.bs("q", q).b("r", r);
    } else if (op == "norm") {
        Bytes p = c.b(0);
        e.b("p", p).b("r", bytes(P::normalize(sv(p)))).t("isnorm", P::isNormalized(sv(p)));
    } else if (op == "rel") {
        Bytes a = c.b(0), d = c.b(1);
        e.b("a", a).b("d", d).b("r", bytes(P::makeRelative(sv(a), sv(d))));
    } else if (op == "split") {
        Bytes p = c.b(0);
        auto s = P::split(sv(p));
        auto x = P::splitExt(sv(p));
        std::vector<Bytes> full;
        for (StringView v : P::splitFull(sv(p)))
            full.push_back(bytes(v));
        e.b("p", p).b("h", bytes(s.first)).b("t", bytes(s.second)).b("s", bytes(x.first));
        e.b("x", bytes(x.second)).bs("full", full);
    } else if (op == "kind") {
        Bytes p = c.b(0);
        e.b("p", p).t("abs", P::isAbsolute(sv(p))).t("rel", fmt.isRelative(sv(p)));
        e.t("sep", P::endsWithSep(sv(p))).t("drive", P::hasDriveLetter(sv(p)));
        e.b("dl", bytes(P::getDriveLetter(sv(p))));
    } else if (op == "conv") {
        Bytes p = c.b(0);
        e.b("p", p).b("r", bytes(P::from(PathFormat{!g_win}, sv(p)).view()));
        e.b("same", bytes(P::template from<P>(sv(p)).view()));
    } else
        toolError(("unknown " + op).c_str());
    e.out();
}
void runCommand(const Cmd& c) {
    if (c.op() == "reset") {
        g_win = c.i(0) != 0;
        g_cwd = ".";
        Ev("reset").t("w", g_win).out();
    } else if (g_win)
        go<WindowsPath>(c);
    else
        go<PosixPath>(c);
}
void finishRun() {
}
