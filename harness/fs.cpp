// Executes scripts of FileSystem operations inside a scratch directory, as an unprivileged user.
// The root that the model knows lies eight levels below the scratch directory; nothing outside
// the root may ever change.
#include "harness.h"
#include <ply-runtime/filesystem/FileSystem.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <grp.h>
#include <limits.h>
#include <signal.h>
#include <unistd.h>
#include <algorithm>
#include <set>
using namespace ply;

static std::string g_outer, g_root;
static int g_mode; // 0 native absolute, 1 native relative, 2 virtual
static Owned<FileSystem> g_virtual;
static FileSystem* g_fs;
static const int Levels = 8;

typedef std::vector<std::string> Comps;
static Comps split(const std::string& s) { // "" at the end for a separator there
    Comps q;
    std::string c;
    for (char ch : s) {
        if (ch != '/')
            c += ch;
        else if (!c.empty()) {
            q.push_back(c);
            c.clear();
        }
    }
    if (!c.empty() || (!s.empty() && s.back() == '/'))
        q.push_back(c);
    return q;
}
static std::string js(const std::string& s) {
    return "\"" + s + "\"";
}
template <class V>
static std::string jlist(const V& v) {
    std::string r = "[";
    for (auto& x : v)
        r += (r.size() > 1 ? "," : "") + js(x);
    return r + "]";
}
static Bytes content(int n, int seed) {
    Bytes b;
    for (int j = 0; j < n; j++)
        b.push_back(j % 7 == 6 ? '\n' : (char) ('a' + (seed + j * 3 + (j >> 8)) % 26));
    return b;
}
static std::string contentId(const Bytes& b) {
    if (b.empty())
        return "0:0";
    int seed = b[0] - 'a';
    if (seed < 0 || seed > 25 || content((int) b.size(), seed) != b)
        return "bad:" + std::to_string(b.size());
    return std::to_string(b.size()) + ":" + std::to_string(seed);
}
static Bytes rawRead(const std::string& p) {
    Bytes b;
    FILE* f = fopen(p.c_str(), "rb");
    if (!f)
        toolError("cannot read back");
    char buf[4096];
    size_t n;
    while ((n = fread(buf, 1, sizeof(buf), f)) > 0)
        b.append(buf, n);
    fclose(f);
    return b;
}
static void snapDir(const std::string& full, const Comps& p, std::string& out) {
    struct stat st;
    if (lstat(full.c_str(), &st) != 0)
        toolError("snapshot");
    auto node = [&](const char* k, const std::string& c, long n, const Comps& t) {
        if (!out.empty())
            out += ",";
        bool link = S_ISLNK(st.st_mode);
        out += "{\"p\":" + jlist(p) + ",\"k\":\"" + k + "\",\"c\":\"" + c + "\",\"n\":" + std::to_string(n) +
               ",\"r\":" + (link || (st.st_mode & 0400) ? "true" : "false") + ",\"w\":" +
               (link || (st.st_mode & 0200) ? "true" : "false") + ",\"t\":" + jlist(t) + "}";
    };
    if (S_ISLNK(st.st_mode)) {
        char buf[PATH_MAX];
        ssize_t n = readlink(full.c_str(), buf, sizeof(buf));
        std::string t(buf, n > 0 ? n : 0);
        if (t.compare(0, g_root.size() + 1, g_root + "/") != 0)
            toolError("odd link");
        node("l", "", 0, split(t.substr(g_root.size() + 1)));
    } else if (S_ISDIR(st.st_mode)) {
        node("d", "", 0, {});
        if (!(st.st_mode & 0400))
            chmod(full.c_str(), st.st_mode | 0400);
        DIR* d = opendir(full.c_str());
        if (!d)
            toolError("snapshot opendir");
        std::vector<std::string> names;
        while (dirent* e = readdir(d))
            if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
                names.push_back(e->d_name);
        closedir(d);
        if (!(st.st_mode & 0400))
            chmod(full.c_str(), st.st_mode & 07777);
        std::sort(names.begin(), names.end());
        for (auto& n : names) {
            Comps q = p;
            q.push_back(n);
            snapDir(full + "/" + n, q, out);
        }
    } else {
        if (!(st.st_mode & 0400))
            chmod(full.c_str(), st.st_mode | 0400);
        Bytes b = rawRead(full);
        if (!(st.st_mode & 0400))
            chmod(full.c_str(), st.st_mode & 07777);
        node("f", contentId(b), (long) b.size(), {});
    }
}
// number of things outside the root that are not as they were made
static int outside() {
    int bad = 0;
    std::string d = g_outer;
    for (int i = 0; i < Levels; i++) {
        DIR* dir = opendir(d.c_str());
        if (!dir)
            return 999;
        int n = 0;
        while (dirent* e = readdir(dir))
            if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
                n++;
        closedir(dir);
        bad += n != 4;
        for (const char* f : {"a", "b", "d0"}) {
            struct stat st;
            bool isDir = !strcmp(f, "d0");
            if (stat((d + "/" + f).c_str(), &st) != 0 || S_ISDIR(st.st_mode) != isDir)
                bad++;
            else if (!isDir && rawRead(d + "/" + f) != "OUTSIDE")
                bad++;
        }
        d += "/up";
    }
    return bad;
}
static Ev& withTree(Ev& e) {
    std::string s;
    snapDir(g_root, {}, s);
    e.raw("tree", "[" + s + "]").i("out", outside());
    return e;
}
static std::string full(const std::string& p) { // for this program's own system calls
    if (g_mode == 2) { // lexically, not above the root
        std::vector<std::string> st;
        for (auto& c : split(p)) {
            if (c == "..") {
                if (!st.empty())
                    st.pop_back();
            } else if (c != ".") // keeps a final ""
                st.push_back(c);
        }
        std::string r = g_root;
        for (auto& c : st)
            r += "/" + c;
        return r;
    }
    return g_mode == 0 ? g_root + "/" + p : p.empty() ? "." : p;
}
static std::string arg(const std::string& p) { // for the code under test
    return g_mode == 0 ? g_root + "/" + p : p.empty() ? "." : p;
}
// an exact-size copy without null terminator, so that reading beyond the end is noticed
struct Arg {
    std::unique_ptr<char[]> p;
    u32 n;
    Arg(const std::string& s) : p{new char[s.size()]}, n{(u32) s.size()} {
        memcpy(p.get(), s.data(), n);
    }
    operator StringView() const {
        return {p.get(), n};
    }
};
static Comps physical(const std::string& p, bool& ok) { // below the root
    char buf[PATH_MAX];
    ok = realpath(p.c_str(), buf) != nullptr;
    if (!ok)
        return {};
    std::string s = buf;
    if (s == g_root)
        return {};
    if (s.compare(0, g_root.size() + 1, g_root + "/") != 0) {
        ok = false;
        return {};
    }
    return split(s.substr(g_root.size() + 1));
}
// Does the path stay below the root, whatever links there are? They lead at least one level deep.
static bool stays(const std::string& p) {
    int ups = 0;
    for (auto& c : split(p))
        ups += c == "..";
    if (g_mode == 2)
        return ups < Levels - 1;
    int depth = 0, later = 0;
    bool ok;
    if (g_mode == 1)
        depth = (int) physical(".", ok).size();
    bool named = false;
    for (auto& c : split(p)) {
        if (c == "..") {
            if (named)
                later++;
            else if (--depth < 0)
                return false;
        } else if (c != "." && c != "")
            named = true;
    }
    return later <= 1;
}
static const char* name(FSResult r) {
    static const char* n[] = {"Unknown", "NotFound", "Locked", "AccessDenied", "OK", "AlreadyExists", "Unchanged"};
    return (int) r >= 0 && (int) r < 7 ? n[(int) r] : "?";
}
static bool isDirNow(const std::string& p) {
    struct stat st;
    return stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
}
static bool broken(const std::string& p) { // goes through something that is no directory
    struct stat st;
    return stat(p.c_str(), &st) != 0 && errno != ENOENT;
}
// goes over a symbolic link that leads nowhere, or by ".." out of what is not there
static bool blindLink(const std::string& p) {
    struct stat st;
    for (size_t k = p.find("/.."); k != std::string::npos; k = p.find("/..", k + 1))
        if (!isDirNow(p.substr(0, k)))
            return true;
    for (size_t k = 1; k <= p.size(); k++) {
        if (k < p.size() && p[k] != '/')
            continue;
        std::string t = p.substr(0, k);
        while (t.size() > 1 && t.back() == '/')
            t.pop_back();
        if (lstat(t.c_str(), &st) == 0 && S_ISLNK(st.st_mode) && stat(t.c_str(), &st) != 0)
            return true;
    }
    return false;
}
static std::string parentOf(std::string p) {
    while (!p.empty() && p.back() == '/')
        p.pop_back();
    size_t k = p.rfind('/');
    return k == std::string::npos ? "." : p.substr(0, k + 1);
}
static bool parentThere(const std::string& p) {
    return isDirNow(parentOf(p));
}
static bool mayWrite(const std::string& p) {
    return access(p.c_str(), W_OK) == 0;
}
static void fresh(int mode) {
    // remove what is in the root, by own means
    if (chdir(g_root.c_str()) != 0)
        toolError("chdir");
    auto rm = [](const char* p, const struct stat*, int, FTW*) { return remove(p); };
    auto open = [](const char* p, const struct stat* st, int, FTW*) {
        if (S_ISDIR(st->st_mode))
            chmod(p, 0755);
        return 0;
    };
    // directories must be opened up before they are read
    for (int k = 0; k < 6; k++)
        nftw(g_root.c_str(), open, 16, FTW_PHYS);
    DIR* d = opendir(g_root.c_str());
    std::vector<std::string> names;
    while (dirent* e = readdir(d))
        if (strcmp(e->d_name, ".") && strcmp(e->d_name, ".."))
            names.push_back(g_root + "/" + e->d_name);
    closedir(d);
    for (auto& n : names)
        if (nftw(n.c_str(), rm, 16, FTW_DEPTH | FTW_PHYS) != 0)
            toolError("cannot clean up");
    g_mode = mode;
    g_fs = FileSystem::native();
    g_virtual.clear();
    if (mode == 2) {
        Arg r{g_root};
        g_virtual = g_fs->createVirtual(r);
        g_fs = g_virtual;
    }
}
static Bytes slurp(InStream* ins) {
    Bytes b;
    while (ins->tryMakeBytesAvailable()) {
        b += bytes(ins->viewAvailable());
        ins->curByte = ins->endByte;
    }
    return b;
}

void runCommand(const Cmd& c) {
    const std::string& op = c.op();
    if (op == "reset") {
        fresh((int) c.i(0));
        Ev e("reset");
        e.i("mode", g_mode);
        withTree(e).out();
        return;
    }
    if (op == "chmod") { // path bits (2 readable, 1 writable)
        std::string p = full(c.s(0));
        struct stat st;
        bool ok;
        Comps q = physical(p, ok);
        if (!ok || q.empty() || lstat(p.c_str(), &st) != 0 || S_ISLNK(st.st_mode) || !stays(c.s(0)))
            return;
        int m = (int) c.i(1);
        chmod(p.c_str(), (S_ISDIR(st.st_mode) ? 0111 : 0) | (m & 2 ? 0444 : 0) | (m & 1 ? 0200 : 0));
        Ev e("set");
        withTree(e).out();
        return;
    }
    if (op == "link") { // path, target below the root
        std::string p = full(c.s(0));
        if (!stays(c.s(0)) || !parentThere(p) || split(c.s(0)).back() == "" || symlink((g_root + "/" + c.s(1)).c_str(), p.c_str()) != 0)
            return;
        Ev e("set");
        withTree(e).out();
        return;
    }
    std::string text = c.s(0) == "-" ? "" : c.s(0);
    if (!stays(text))
        return;
    std::string p = full(text);
    Comps q = split(text);
    Arg a{arg(text)};
    Ev e(op.c_str());
    e.raw("q", jlist(q));
    auto result = [&](FSResult r) {
        e.str("r", name(r)).t("last", g_fs->lastResult() == r);
    };
    bool sepEnd = !text.empty() && text.back() == '/';
    if (op == "mkdir") {
        if (text.empty() || !parentThere(p) || broken(p))
            return;
        result(g_fs->makeDir(a));
        withTree(e).out();
    } else if (op == "mkdirs") {
        if (blindLink(p) || blindLink(g_mode == 2 ? g_root + "/" + text : p))
            return;
        result(g_fs->makeDirs(a));
        withTree(e).out();
    } else if (op == "exists") {
        static const char* n[] = {"NotFound", "File", "Directory"};
        ExistsResult r = g_fs->exists(a);
        e.str("r", n[(int) r]).t("last", g_fs->isDir(a) == (r == ExistsResult::Directory)).out();
    } else if (op == "write") { // path n seed how
        if (isDirNow(p) || broken(p) || sepEnd || text.empty())
            return;
        int n = (int) c.i(1), how = (int) c.i(3) % 3;
        Bytes b = content(n, (int) c.i(2));
        FSResult r;
        bool done = true;
        if (how == 0) {
            Owned<OutPipe> out = g_fs->openPipeForWrite(a);
            r = g_fs->lastResult();
            if (out)
                done = out->write(sv(b));
            else
                done = r != FSResult::OK;
        } else {
            Owned<OutStream> out = how == 1 ? g_fs->openStreamForWrite(a) : g_fs->openTextForWrite(a, TextFormat::unixUTF8());
            r = g_fs->lastResult();
            if (out)
                done = out->write(sv(b)) && out->flush();
            else
                done = r != FSResult::OK;
        }
        e.str("r", name(r)).t("last", done).str("c", contentId(b)).i("n", n);
        withTree(e).out();
    } else if (op == "read") { // path how
        if (isDirNow(p))
            return;
        int how = (int) c.i(1) % 7;
        Bytes b;
        bool got = true;
        if (how == 0)
            b = bytes(g_fs->loadBinary(a));
        else if (how == 1)
            b = bytes(g_fs->loadText(a, TextFormat::unixUTF8()));
        else if (how == 2)
            b = bytes(g_fs->loadTextAutodetect(a).first);
        else if (how == 3) {
            Owned<InPipe> in = g_fs->openPipeForRead(a);
            got = (bool) in == (g_fs->lastResult() == FSResult::OK);
            char buf[1000];
            u32 n;
            while (in && (n = in->readSome({buf, sizeof(buf)})) > 0)
                b.append(buf, n);
        } else {
            Owned<InStream> in = how == 4   ? g_fs->openStreamForRead(a)
                                 : how == 5 ? g_fs->openTextForRead(a, TextFormat::unixUTF8())
                                            : std::move(g_fs->openTextForReadAutodetect(a).first);
            got = (bool) in == (g_fs->lastResult() == FSResult::OK);
            if (in)
                b = slurp(in);
        }
        e.str("r", name(g_fs->lastResult())).t("last", got).str("c", contentId(b)).i("n", (int) b.size()).out();
    } else if (op == "stat") {
        struct stat st;
        bool there = stat(p.c_str(), &st) == 0;
        FileStatus s = g_fs->getFileStatus(a);
        bool last = g_fs->lastResult() == s.result;
        if (there && s.result == FSResult::OK)
            last = last && (long long) s.fileSize == st.st_size && (long long) s.modificationTime == st.st_mtime &&
                   (long long) s.accessTime == st.st_atime && (long long) s.creationTime == st.st_ctime;
        e.str("r", name(s.result)).t("last", last).str("c", "").i("n", there && !S_ISDIR(st.st_mode) ? (int) s.fileSize : 0).out();
    } else if (op == "move") { // path path2
        std::string text2 = c.s(1);
        std::string p2 = full(text2);
        struct stat st;
        if (!stays(text2) || sepEnd || text2.back() == '/' || lstat(p.c_str(), &st) != 0 || S_ISDIR(st.st_mode))
            return;
        bool there2 = lstat(p2.c_str(), &st) == 0;
        if ((!there2 && errno != ENOENT) || (there2 && S_ISDIR(st.st_mode)) || !parentThere(p2) || !mayWrite(parentOf(p)) || !mayWrite(parentOf(p2)))
            return;
        Arg a2{arg(text2)};
        result(g_fs->moveFile(a, a2));
        e.raw("q2", jlist(split(text2)));
        withTree(e).out();
    } else if (op == "delete") {
        struct stat st;
        if (sepEnd || lstat(p.c_str(), &st) != 0 || S_ISDIR(st.st_mode) || !mayWrite(parentOf(p)))
            return;
        result(g_fs->deleteFile(a));
        withTree(e).out();
    } else if (op == "rmtree") {
        struct stat st;
        bool ok;
        if (lstat(p.c_str(), &st) != 0 || !S_ISDIR(st.st_mode) || physical(p, ok).empty())
            return;
        std::string last = q.empty() ? "" : q.back() != "" ? q.back() : q.size() > 1 ? q[q.size() - 2] : "";
        if (last == "." || last == ".." || last == "")
            return; // rmdir refuses those
        // not the working directory or what is above it
        char cwd[PATH_MAX], real[PATH_MAX];
        if (!getcwd(cwd, sizeof(cwd)) || !realpath(p.c_str(), real))
            toolError("cwd");
        if (g_mode == 1 && (std::string(cwd) + "/").compare(0, strlen(real) + 1, std::string(real) + "/") == 0)
            return;
        std::string bare = p;
        while (bare.size() > 1 && bare.back() == '/')
            bare.pop_back();
        if (lstat(bare.c_str(), &st) != 0 || S_ISLNK(st.st_mode))
            return;
        result(g_fs->removeDirTree(a));
        withTree(e).out();
    } else if (op == "list") { // path flags
        struct stat st;
        if (broken(p) || (stat(p.c_str(), &st) == 0 && !S_ISDIR(st.st_mode)))
            return;
        u32 flags = (u32) c.i(1) & 3;
        Directory dir = (c.i(1) & 4) && flags == 3 ? g_fs->listDir(a) : g_fs->listDir(a, flags);
        FSResult r = g_fs->lastResult();
        std::string s;
        int n = 0;
        bool times = true;
        for (DirectoryEntry& de : dir) {
            if (n++ > 1000)
                endless("listDir");
            std::string nm = bytes(de.name);
            if (lstat((p + "/" + nm).c_str(), &st) == 0 && S_ISREG(st.st_mode) && (flags & FileSystem::WithTimes))
                times = times && (long long) de.modificationTime == st.st_mtime && (long long) de.creationTime == st.st_ctime &&
                        (long long) de.accessTime == st.st_atime;
            s += (s.empty() ? "" : ",") + std::string("{\"x\":") + js(nm) + ",\"d\":" + (de.isDir ? "true" : "false") + ",\"n\":" +
                 std::to_string((long) de.fileSize) + "}";
        }
        e.str("r", name(r)).t("last", times).t("sizes", flags & FileSystem::WithSizes).raw("es", "[" + s + "]").out();
    } else if (op == "walk") { // path flags pruned...
        struct stat st;
        if (broken(p) || (stat(p.c_str(), &st) == 0 && !S_ISDIR(st.st_mode)))
            return;
        for (auto& x : q)
            if (g_mode == 2 && x == "..")
                return;
        u32 flags = (u32) c.i(1) & 3;
        std::set<std::string> pruned;
        for (size_t k = 2; k < c.n(); k++)
            pruned.insert(c.s(k));
        bool good = true, first = true;
        std::string s;
        int n = 0;
        FSResult r = FSResult::Unknown;
        FileSystem::Walk walk = g_fs->walk(a, flags);
        r = g_fs->lastResult();
        for (WalkTriple& t : walk) {
            if (n++ > 1000)
                endless("walk");
            std::vector<std::string> dirs, kept, files;
            for (String& d : t.dirNames)
                dirs.push_back(bytes(d));
            std::sort(dirs.begin(), dirs.end());
            for (auto& d : dirs)
                if (!pruned.count(d))
                    kept.push_back(d);
            t.dirNames.clear();
            for (auto& d : kept)
                t.dirNames.append(String{StringView{d.data(), (u32) d.size()}});
            std::string fs = "";
            for (auto& f : t.files)
                fs += (fs.empty() ? "" : ",") + std::string("{\"x\":") + js(bytes(f.name)) + ",\"n\":" + std::to_string((long) f.fileSize) + "}";
            bool ok;
            Comps at = physical(g_mode == 2 ? g_root + "/" + bytes(t.dirPath) : bytes(t.dirPath), ok);
            if (r == FSResult::OK)
                good = good && ok;
            if (first && bytes(t.dirPath) != arg(text))
                good = false;
            first = false;
            s += (s.empty() ? "" : ",") + std::string("{\"p\":") + jlist(at) + ",\"ds\":" + jlist(dirs) + ",\"fs\":[" + fs + "]}";
        }
        e.str("r", name(r)).t("last", good).t("sizes", flags & FileSystem::WithSizes).raw("pruned", jlist(pruned)).raw("ts", "[" + s + "]").out();
    } else if (op == "chdir") {
        if (g_mode != 1 || broken(p))
            return;
        struct stat st;
        if (stat(p.c_str(), &st) == 0 && !S_ISDIR(st.st_mode))
            return;
        FSResult r = g_fs->setWorkingDirectory(a);
        result(r);
        std::string cwd = bytes(g_fs->getWorkingDirectory());
        bool ok = g_fs->lastResult() == FSResult::OK;
        Comps at;
        if (cwd != g_root) {
            if (cwd.compare(0, g_root.size() + 1, g_root + "/") != 0)
                ok = false;
            else
                at = split(cwd.substr(g_root.size() + 1));
        }
        e.t("ok", ok).raw("cwd", jlist(at)).out();
    } else if (op == "save" || op == "torn") { // path n seed text [cut how]
        if (broken(p) || isDirNow(p) || blindLink(p) || blindLink(g_mode == 2 ? g_root + "/" + text : p) || sepEnd || text.empty() || q.back() == "." || q.back() == "..")
            return;
        struct stat was, now;
        bool had = stat(p.c_str(), &was) == 0;
        int n = (int) c.i(1);
        Bytes b = content(n, (int) c.i(2));
        std::string r;
        bool last = true;
        auto save = [&] {
            return c.i(3) ? g_fs->makeDirsAndSaveTextIfDifferent(a, sv(b), TextFormat::unixUTF8()) : g_fs->makeDirsAndSaveBinaryIfDifferent(a, sv(b));
        };
        if (op == "save") {
            FSResult res = save();
            r = name(res);
            last = g_fs->lastResult() == res;
        } else {
            pid_t pid = fork();
            if (pid < 0)
                toolError("fork");
            if (pid == 0) {
                struct rlimit lim = {(rlim_t) c.i(4), (rlim_t) c.i(4)};
                signal(SIGXFSZ, c.i(5) ? SIG_IGN : SIG_DFL);
                prctl(PR_SET_DUMPABLE, 0);
                setrlimit(RLIMIT_FSIZE, &lim);
                _exit(10 + (int) save());
            }
            int st;
            if (waitpid(pid, &st, 0) != pid)
                toolError("waitpid");
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXFSZ)
                r = "crash";
            else if (WIFEXITED(st) && WEXITSTATUS(st) >= 10 && WEXITSTATUS(st) < 17)
                r = name((FSResult) (WEXITSTATUS(st) - 10));
            else
                r = "died";
            e.i("cut", c.i(4));
        }
        bool same = had && stat(p.c_str(), &now) == 0 && was.st_ino == now.st_ino && was.st_mtim.tv_sec == now.st_mtim.tv_sec &&
                    was.st_mtim.tv_nsec == now.st_mtim.tv_nsec;
        e.str("r", r).t("last", last).t("same", same).str("c", contentId(b)).i("n", n);
        withTree(e).out();
    } else
        toolError("unknown command");
}
void finishRun() {
    g_virtual.clear();
}

static void removeScratch(const char* dir) {
    auto rm = [](const char* p, const struct stat*, int, FTW*) { return remove(p); };
    if (strncmp(dir, "/tmp/verif-fs-", 14) == 0)
        nftw(dir, rm, 16, FTW_DEPTH | FTW_PHYS);
}
static void enter(const char* dir) {
    g_outer = dir;
    for (int i = 0; i < Levels; i++) {
        for (const char* f : {"a", "b"}) {
            FILE* w = fopen((g_outer + "/" + f).c_str(), "w");
            fputs("OUTSIDE", w);
            fclose(w);
        }
        mkdir((g_outer + "/d0").c_str(), 0755);
        mkdir((g_outer + "/up").c_str(), 0755);
        g_outer += "/up";
    }
    char buf[PATH_MAX];
    if (!realpath(g_outer.c_str(), buf))
        toolError("realpath");
    g_root = buf;
    g_outer = dir;
}
// The scratch directory is made and removed by a parent process that runs none of the code under test.
static void contain() {
    char dir[] = "/tmp/verif-fs-XXXXXX";
    if (!mkdtemp(dir))
        toolError("mkdtemp");
    chmod(dir, 0755);
    bool root = getuid() == 0;
    if (root && chown(dir, 65534, 65534) != 0)
        toolError("chown");
    pid_t pid = fork();
    if (pid < 0)
        toolError("fork");
    if (pid > 0) {
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
            ;
        removeScratch(dir);
        if (WIFEXITED(st))
            _exit(WEXITSTATUS(st));
        signal(WTERMSIG(st), SIG_DFL);
        kill(getpid(), WTERMSIG(st));
        _exit(90);
    }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (root && (setgroups(0, nullptr) != 0 || setgid(65534) != 0 || setuid(65534) != 0))
        toolError("cannot give up privileges");
    if (getuid() == 0)
        toolError("still privileged");
    umask(022);
    enter(dir);
}
static bool g_contained = (g_afterOpen = contain, true);
