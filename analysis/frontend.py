"""Compiles the current /repo tree to LLVM bitcode and loads it as a Program.

Nothing of /repo is executed. The result is cached by the content of every file
that went into it (sources, headers, build files, this frontend), so a changed
tree is always recompiled.
"""
import hashlib, json, os, pickle, re, shlex, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(REPO, "libiqxmlrpc")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18/bin/"


class CheckError(Exception):
    """The check itself cannot answer (exit status 2)."""


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise CheckError("command failed (%d): %s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-3000:]))
    return r.stdout


def build_tool(force=False):
    """Builds irdump if it is missing or older than its source."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "tools", "irdump.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "irdump-" + h)
    if force or not os.path.exists(exe):
        tmp = exe + ".%d" % os.getpid()
        run([LLVM + "clang++", "-O1", "-std=c++17", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
             "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
             "-fno-exceptions", "-fno-rtti", src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
        os.rename(tmp, exe)
    return exe


def tree_hash(extra):
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(LIB):
        dirs.sort()
        files += [os.path.join(root, f) for f in sorted(fs)]
    files.append(os.path.join(REPO, "CMakeLists.txt"))
    files += [os.path.join(VERIF, "tools", "irdump.cpp"), os.path.join(VERIF, "analysis", "driver.cc"),
              os.path.join(VERIF, "analysis", "frontend.py"), os.path.join(VERIF, "analysis", "program.py")]
    for f in files:
        h.update(f.encode() + b"\0")
        h.update(open(f, "rb").read() if os.path.exists(f) else b"-")
    h.update(repr(extra).encode())
    return h.hexdigest()[:24]


def compile_commands(work):
    """CMake's own view of the library: source list, include paths, definitions."""
    b = os.path.join(work, "cm")
    run(["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
         "-Dbuild_tests=OFF", "-Dbuild_docs=OFF", "-DCMAKE_CXX_STANDARD=14",
         "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"],
        env=dict(os.environ, CC="gcc", CXX="g++"))
    return json.load(open(os.path.join(b, "compile_commands.json")))


KEEP = re.compile(r"^-(D|I|std=|isystem|include|U)")


def clang_flags(command):
    a = shlex.split(command)[1:]
    out, i = [], 0
    while i < len(a):
        t = a[i]
        if t in ("-I", "-D", "-isystem", "-include", "-U"):
            out += [t, a[i + 1]]; i += 2; continue
        if KEEP.match(t):
            out.append(t)
        i += 1
    return out


BASE = ["-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fstandalone-debug", "-flto", "-fwhole-program-vtables",
        "-fno-discard-value-names", "-Wno-everything", "-fPIC", "-emit-llvm"]


def build_module(config="poll"):
    """Returns the path of the JSON export for the current tree."""
    key = tree_hash(config)
    os.makedirs(BUILD, exist_ok=True)
    js = os.path.join(BUILD, "prog-%s-%s.pickle" % (config, key))
    if os.path.exists(js):
        os.utime(js)
        return js
    tool = build_tool()
    work = tempfile.mkdtemp(prefix="w-", dir=BUILD)
    try:
        cc = compile_commands(work)
        if not cc:
            raise CheckError("cmake lists no library source")
        jobs = []
        for n, c in enumerate(cc):
            fl = clang_flags(c["command"])
            src = os.path.join(c["directory"], c["file"])
            if config == "select":
                fl = fl + ["-UHAVE_POLL"]
            jobs.append((src, fl, os.path.join(work, "%03d.bc" % n), c["directory"]))
        dfl = clang_flags(cc[0]["command"]) + ["-I" + LIB, "-femit-all-decls"]
        jobs.append((os.path.join(VERIF, "analysis", "driver.cc"), dfl, os.path.join(work, "drv.bc"), cc[0]["directory"]))
        if config == "select":
            cfg = os.path.join(work, "cm", "libiqxmlrpc", "config.h")
            open(cfg, "w").write("/* no poll */\n")
            jobs.append((os.path.join(LIB, "reactor_select_impl.cc"), clang_flags(cc[0]["command"]), os.path.join(work, "sel.bc"), cc[0]["directory"]))

        def one(j):
            src, fl, o, d = j
            run([LLVM + "clang++"] + BASE + fl + ["-c", src, "-o", o], cwd=d)
            return o
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            objs = list(ex.map(one, jobs))
        # keep every inline function of the library's headers, used or not
        k = objs.index(os.path.join(work, "drv.bc"))
        ll = os.path.join(work, "drv.ll")
        run([LLVM + "llvm-dis", objs[k], "-o", ll])
        t = open(ll).read()
        t = re.sub(r"^define linkonce_odr (.*@_ZNK?(?:8iqxmlrpc|5iqnet))", r"define weak_odr \1", t, flags=re.M)
        open(ll, "w").write(t)
        objs[k] = ll
        linked = os.path.join(work, "all.bc")
        run([LLVM + "llvm-link"] + objs + ["-o", linked])
        opt = os.path.join(work, "opt.bc")
        run([LLVM + "opt", "-passes=function(sroa,early-cse)", linked, "-o", opt])
        jf = os.path.join(work, "all.json")
        run([tool, opt, jf])
        import program
        p = program.load(jf, [os.path.realpath(j[0]) for j in jobs])
        tmp = js + ".%d" % os.getpid()
        with open(tmp, "wb") as f:
            pickle.dump(p, f, protocol=pickle.HIGHEST_PROTOCOL)
        os.rename(tmp, js)
        olds = sorted((os.path.getmtime(os.path.join(BUILD, f)), f) for f in os.listdir(BUILD) if f.startswith("prog-"))
        for _, f in olds[:-24]:
            os.unlink(os.path.join(BUILD, f))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return js


def load_program(config="poll"):
    for again in (True, True, False):
        try:
            with open(build_module(config), "rb") as f:
                return pickle.load(f)
        except FileNotFoundError:      # dropped from the cache by another run
            if not again: raise


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    build_tool()
    print(build_module(sys.argv[1] if len(sys.argv) > 1 else "poll"))
