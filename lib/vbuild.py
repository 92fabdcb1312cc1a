"""Builds harness executables straight from /repo's working tree (never from the
repository's own build products), with ninja, into /verif/build/<flavour>."""
import os, re, subprocess, glob, shutil, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PLY_REPO", "/repo")
SRC = REPO + "/repos/plywood/src"
BUILD = os.path.join(VERIF, "build")

# module -> (source dir, include dir, dependencies)
MODULES = {
    "runtime": ("runtime/ply-runtime", "runtime", []),
    "math": ("math/math/ply-math", "math/math", ["runtime"]),
    "reflect": ("reflect/ply-reflect", "reflect", ["runtime"]),
    "pylon": ("pylon/pylon/pylon", "pylon/pylon", ["runtime"]),
    "pylon-reflect": ("pylon/reflect/pylon-reflect", "pylon/reflect", ["reflect", "pylon"]),
    "crowbar": ("crowbar/ply-crowbar", "crowbar", ["reflect"]),
    "cpp": ("cpp/ply-cpp", "cpp", ["reflect", "runtime"]),
    "web-common": ("web/common/web-common", "web/common", ["runtime"]),
    "web-markdown": ("web/markdown/web-markdown", "web/markdown", ["web-common", "reflect"]),
    "web-serve-docs": ("web/serve-docs/ply-web-serve-docs", "web/serve-docs",
                       ["web-common", "reflect", "pylon-reflect", "web-documentation"]),
    "web-documentation": ("web/documentation/web-documentation", "web/documentation", ["reflect"]),
    "build-common": ("build/common/ply-build-common", "build/common", ["reflect"]),
    "build-target": ("build/target/ply-build-target", "build/target",
                     ["build-common", "reflect", "pylon-reflect"]),
    "build-provider": ("build/provider/ply-build-provider", "build/provider", ["build-common", "pylon-reflect"]),
    "build-repo": ("build/repo/ply-build-repo", "build/repo",
                   ["build-target", "build-provider", "build-common", "cpp", "pylon-reflect"]),
    "build-folder": ("build/folder/ply-build-folder", "build/folder", ["build-repo"]),
    "cook": ("cook/ply-cook", "cook", ["runtime", "reflect"]),
    "math-serial": ("math/serial/ply-math-serial", "math/serial", ["math", "reflect"]),
    "image": ("image/image/image", "image/image", ["runtime", "math"]),
}

FLAVOURS = {
    # heap: use the C runtime heap so that AddressSanitizer sees every block
    "asan": dict(cxx="-include ply-runtime/thread/Atomic.h -O1 -g1 -fsanitize=address -fno-omit-frame-pointer", ld="-fsanitize=address", dl=0),
    # data races: what one thread wrote is visible to the next only through the library's own ordering
    "tsan": dict(cxx="-include ply-runtime/thread/Atomic.h -O1 -g1 -fsanitize=thread", ld="-fsanitize=thread", dl=0),
    # the configuration the repository ships (its own heap), used where timing/threads matter
    "plain": dict(cxx="-O1 -g1", ld="", dl=1),
}

CONFIG = """#define PLY_PREFER_CPP11 0
#define PLY_WITH_EXCEPTIONS 0
#define PLY_REPLACE_OPERATOR_NEW %(dl)d
#define PLY_USE_DLMALLOC %(dl)d
#define PLY_DLMALLOC_DEBUG_CHECKS 0
#define PLY_DLMALLOC_FAST_STATS 0
#define PLY_IMPL_MUTEX_PATH "impl/Mutex_CPP11.h"
#define PLY_IMPL_MUTEX_TYPE ply::Mutex_CPP11
#define PLY_IMPL_CONDITIONVARIABLE_PATH "impl/ConditionVariable_CPP11.h"
#define PLY_IMPL_CONDITIONVARIABLE_TYPE ply::ConditionVariable_CPP11
#ifdef __cplusplus
const char* plyVerifWorkspace(); // a scratch folder of the harness, and a program of its own in the place of CMake
const char* plyVerifCMake();
#endif
#define PLY_WORKSPACE_FOLDER plyVerifWorkspace()
#define PLY_BUILD_FOLDER "/nonexistent/build/"
#define PLY_CMAKE_PATH plyVerifCMake()
#define WITH_AUDIO 0
"""


def closure(mods):
    out = []
    def visit(m):
        if m in out:
            return
        for d in MODULES[m][2]:
            visit(d)
        out.append(m)
    for m in mods:
        visit(m)
    return out


def write_if_different(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def module_sources(m):
    d = os.path.join(SRC, MODULES[m][0])
    res = []
    for root, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".cpp"):
                p = os.path.join(root, f)
                if "_Win32" in f or "_Winsock" in f or "_Mach" in f or "_Mac." in f or "_FreeBSD" in f:
                    continue
                res.append(p)
    return res


def switches(header):
    """What the repository's code generator makes of the "ply make switch" structs of a header."""
    text = open(header).read()
    out = []
    for m in re.finditer(r"^struct (\w+) \{\n(?:(?!^\};).*\n)*?    // ply make switch\n((?:.*\n)*?)#include \"(codegen/[^\"]+)\"", text, re.M):
        name, body, inl = m.groups()
        st = re.findall(r"^    struct (\w+) \{", body, re.M)
        var = [x[0].lower() + x[1:] for x in st]
        t = ["enum class ID : u16 {"] + ["    %s," % x for x in st] + ["    Count,", "};", "union Storage_ {"]
        t += ["    %s %s;" % p for p in zip(st, var)] + ["    PLY_INLINE Storage_() {}", "    PLY_INLINE ~Storage_() {}", "};",
              "SWITCH_FOOTER(%s, %s)" % (name, st[0])] + ["SWITCH_ACCESSOR(%s, %s)" % p for p in zip(st, var)]
        out.append((inl, name, st, "\n".join(t) + "\n"))
    return out


def codegen(gen):
    """The files of the code generator that are not kept in the repository (here: crowbar's)."""
    main = "PLY_STRUCT_BEGIN(ply::crowbar::Statement::FunctionDefinition)\nPLY_STRUCT_END()\n\n"
    for inl, name, st, text in switches(os.path.join(SRC, "crowbar/ply-crowbar/ParseTree.h")):
        write_if_different(os.path.join(gen, inl), text)
        q = "ply::crowbar::" + name
        main += "SWITCH_TABLE_BEGIN(%s)\n" % q + "".join("SWITCH_TABLE_STATE(%s, %s)\n" % (q, x) for x in st) + "SWITCH_TABLE_END(%s)\n\n" % q
    write_if_different(os.path.join(gen, "codegen/ParseTree.inl"), main)


def build(harness, modules, flavour="asan", extra_flags="", extra_sources=(), exclude=(), log=None):
    """Returns the path of the executable; raises RuntimeError(log) when it does not compile."""
    fl = FLAVOURS[flavour]
    bdir = os.path.join(BUILD, flavour)
    os.makedirs(bdir, exist_ok=True)
    write_if_different(os.path.join(bdir, "cfg/ply-platform/Config.h"), CONFIG % fl)
    mods = closure(["runtime"] + list(modules))
    gen = os.path.join(bdir, "gen")
    if "build-target" in mods:
        write_if_different(os.path.join(gen, "ply-build-target/NativeToolchain.inl"),
                           'CMakeGeneratorOptions NativeToolchain = {"Unix Makefiles", "", "", ""};\nString DefaultNativeConfig = "Debug";\n')
    if "crowbar" in mods:
        codegen(gen)
    if "cook" in mods:
        write_if_different(os.path.join(gen, "codegen/CookJob.inl"), "".join("PLY_STRUCT_BEGIN(ply::cook::%s)\n%sPLY_STRUCT_END()\n" % (n, "".join("PLY_STRUCT_MEMBER(%s)\n" % m for m in ms))
                                                                             for n, ms in (("CookJobID", ("type", "desc")),)))
    if "web-documentation" in mods:
        members = "".join("PLY_STRUCT_MEMBER(%s)\n" % x for x in ("title", "linkDestination", "children"))
        write_if_different(os.path.join(gen, "codegen/Contents.inl"), "PLY_STRUCT_BEGIN(ply::web::Contents)\n" + members + "PLY_STRUCT_END()\n")
        write_if_different(os.path.join(gen, "WebServer/Config.h"), '#define WEBSERVER_DEFAULT_PORT 8080\n#define WEBSERVER_DEFAULT_DOC_DIR "/nonexistent"\n')
    incs = ["-I" + os.path.join(bdir, "cfg"), "-I" + SRC + "/platform"]
    incs += ["-I" + os.path.join(SRC, MODULES[m][1]) for m in mods]
    incs += ["-I" + os.path.join(VERIF, "harness")]
    base = ("-std=c++14 -include utility -DPLY_WITH_ASSERTS=1 -D_DEBUG -Wno-everything -pthread "
            + fl["cxx"])
    objs = []
    lines = ["builddir = " + bdir, "ninja_required_version = 1.3",
             "rule cxx", "  command = /usr/bin/clang++ -MMD -MF $out.d $flags -c $in -o $out",
             "  depfile = $out.d", "  deps = gcc", "  description = CXX $in",
             "rule link", "  command = /usr/bin/clang++ $in -o $out -pthread " + fl["ld"],
             ""]
    # one include set for all modules, so that an object has one command line whatever the harness
    allincs = ["-I" + os.path.join(bdir, "cfg"), "-I" + SRC + "/platform"]
    allincs += sorted({"-I" + os.path.join(SRC, v[1]) for v in MODULES.values()})
    flags = base + " " + " ".join(allincs + ["-I" + gen, "-I" + os.path.join(VERIF, "harness")])
    for m in mods:
        for s in module_sources(m):
            rel = os.path.relpath(s, SRC)
            if rel in exclude:
                continue
            o = "obj/" + rel.replace("/", "__") + ".o"
            objs.append(o)
            lines += ["build %s: cxx %s" % (o, s), "  flags = " + flags]
    for s in [os.path.join(VERIF, "harness", harness + ".cpp")] + list(extra_sources):
        o = "obj/H_" + harness + "__" + os.path.basename(s) + ".o"
        objs.append(o)
        lines += ["build %s: cxx %s" % (o, s), "  flags = " + flags + " " + extra_flags]
    exe = "bin/" + harness
    lines += ["build %s: link %s" % (exe, " ".join(objs)), ""]
    nf = os.path.join(bdir, "build_%s.ninja" % harness)
    write_if_different(nf, "\n".join(lines) + "\n")
    p = subprocess.run(["ninja", "-C", bdir, "-f", nf, "-j", "8", exe],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise RuntimeError("build of harness %s failed:\n%s" % (harness, p.stdout[-6000:]))
    return os.path.join(bdir, exe)


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[3:], sys.argv[2]))
