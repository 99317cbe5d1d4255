"""Builds the symbolic engine and the code under test from /repo's working tree.

Everything lands in /verif/build (git-ignored). Objects are cached by the
content of what they are made from, so nothing stale is ever linked.
"""
import concurrent.futures as cf
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
ENGINE = os.path.join(VERIF, "engine")
HARN = os.path.join(VERIF, "harness")
BUILD = os.environ.get("SYMX_BUILD", os.path.join(VERIF, "build"))
CXX = "/usr/bin/clang++-18"
JOBS = os.cpu_count() or 4
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", LANG="C.UTF-8",
           LC_ALL="C.UTF-8",
           PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")

COMMON = ["-std=gnu++20", "-D_GLIBCXX_ASSERTIONS=1", "-fno-pic", "-g0", "-w",
          "-I" + os.path.join(HARN), "-I" + ENGINE]
SYM = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-jump-tables",
       "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-stack-protector",
       "-U_FORTIFY_SOURCE", "-DSYMX=1",
       "-fsanitize=unreachable,return,signed-integer-overflow,shift,bounds",
       "-fsanitize-trap=all"]
NAT = ["-O0", "-g1", "-fno-omit-frame-pointer",
       "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
       "-fno-sanitize=vptr,function", "-DSYMX_NATIVE=1"]


ENVCALLS = ("read", "poll", "kill", "pthread_mutex_lock",
            "pthread_mutex_unlock")
# the processes the server starts, in the sources that start them
PROCCALLS = ENVCALLS + ("pipe", "pipe2", "fork", "vfork", "dup2", "dup3",
                        "close", "execvp", "execv", "_exit", "exit", "signal",
                        "sigaction", "write", "waitpid", "fcntl", "fcntl64")


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=ENV, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(dirs, exts):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                if os.path.splitext(f)[1] in exts:
                    p = os.path.join(root, f)
                    h.update(os.path.relpath(p, d).encode() + b"\0")
                    h.update(read(p) + b"\0")
    return h.hexdigest()[:24]


def headers_hash():
    return tree_hash([os.path.join(REPO, "libnixf/include"),
                      os.path.join(REPO, "libnixf/src"),
                      os.path.join(REPO, "nixd")],
                     {".h", ".inc", ".py", ".hpp"})


def engine_src_hash():
    return sha(*[read(p) for p in sorted(glob.glob(ENGINE + "/*.cpp") +
                                         glob.glob(ENGINE + "/*.h") +
                                         glob.glob(ENGINE + "/*.inc"))])


def put(path, make):
    """make(tmp) creates tmp; moved to path atomically unless path exists."""
    if os.path.exists(path):
        return path
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp%d" % os.getpid()
    make(tmp)
    os.replace(tmp, path)
    return path


def plugin():
    h = sha(read(ENGINE + "/SymxPass.cpp"))

    def mk(t):
        run([CXX, "-O1", "-fPIC", "-shared", "-fno-rtti", "-fno-exceptions",
             "-std=c++17", "-I/usr/lib/llvm-18/include", "-D_GNU_SOURCE",
             "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
             "-D__STDC_LIMIT_MACROS", ENGINE + "/SymxPass.cpp", "-o", t])
    return put(os.path.join(BUILD, "engine", "symx-%s.so" % h), mk)


def runtime():
    h = sha(read(ENGINE + "/runtime.cpp"), read(ENGINE + "/symx.h"),
            read(ENGINE + "/externs.inc"))

    def mk(t):
        run([CXX, "-std=c++20", "-O2", "-fno-pic", "-w", "-c",
             ENGINE + "/runtime.cpp", "-o", t + ".1"])
        # Give the runtime private copies of every template it instantiates,
        # so it never runs (or is run by) the instrumented ones.
        run(["ld", "-r", "--force-group-allocation", t + ".1", "-o", t + ".2"])
        run(["objcopy", "-w"] + ["--keep-global-symbol=" + k for k in (
            "main", "symx_*", "abort", "__assert_fail", "__cxa_guard_*",
            "_ZdlPv*", "_ZdaPv*", "_ZSt21__glibcxx_assert_fail*")] +
            [t + ".2", t])
        os.unlink(t + ".1")
        os.unlink(t + ".2")
    return put(os.path.join(BUILD, "engine", "runtime-%s.o" % h), mk)


def gen():
    """Runs the repository's own generators (diagnostics, tokens)."""
    b = os.path.join(REPO, "libnixf/src")
    h = sha(tree_hash([b], {".py"}))
    d = os.path.join(BUILD, "gen-" + h)
    if not os.path.exists(d + "/ok"):
        os.makedirs(d, exist_ok=True)
        for src, out in [("Basic/DiagnosticEnum.h.py", "DiagnosticEnum.h"),
                         ("Basic/Diagnostic.cpp.py", "Diagnostic.cpp"),
                         ("Parse/Tokens.h.py", "Tokens.h"),
                         ("Parse/TokenKinds.inc.py", "TokenKinds.inc")]:
            run(["python3", os.path.join(b, src), os.path.join(d, out)])
        open(d + "/ok", "w").close()
    return d


def plugin_and_gen():
    """What every object needs, once, before objects are built in parallel."""
    with cf.ThreadPoolExecutor(3) as ex:
        for f in [ex.submit(f) for f in (plugin, runtime, gen)]:
            f.result()


def sources(group):
    if group == "nixf":
        s = sorted(glob.glob(REPO + "/libnixf/src/**/*.cpp", recursive=True))
        s = [p for p in s if not p.endswith("PrimOpsInfoGen.cpp")]
        return s + [os.path.join(gen(), "Diagnostic.cpp"),
                    os.path.join(HARN, "stub_primops.cpp")]
    if group == "lsp":
        return (sorted(glob.glob(REPO + "/nixd/lspserver/src/*.cpp")))
    if group == "ca":
        s = sorted(glob.glob(REPO + "/nixd/lib/Controller/CodeActions/*.cpp"))
        c = REPO + "/nixd/lib/Controller/"
        return s + [c + "Convert.cpp"]
    if group == "ctl":
        # The request handlers. What starts processes is left to the harness.
        s = sorted(glob.glob(REPO + "/nixd/lib/Controller/*.cpp"))
        skip = ("Convert.cpp", "LifeTime.cpp", "Format.cpp")
        return [p for p in s if os.path.basename(p) not in skip] + [
            REPO + "/nixd/lib/Protocol/AttrSet.cpp"]
    if group == "fmt":
        # What starts and talks to processes.
        s = REPO + "/nixd/lib/"
        return [s + "Controller/Format.cpp"] + [
            p for p in sorted(glob.glob(s + "Support/*.cpp"))
            if os.path.basename(p) in ("AutoCloseFD.cpp", "ForkPiped.cpp")]
    raise KeyError(group)


def includes(groups):
    inc = []
    if "ctl" in groups:
        inc = ["-I" + os.path.join(HARN, "stubs"), "-fno-access-control"]
    inc += ["-I" + REPO + "/libnixf/include", "-I" + REPO + "/libnixf/src",
           "-I" + REPO + "/libnixf/src/Parse",
           "-I" + REPO + "/libnixf/include/nixf/Basic", "-I" + gen()]
    inc += ["-I" + REPO + "/nixd/lspserver/include",
            "-I" + REPO + "/nixd/include", "-I" + REPO + "/nixd/lib",
            "-I" + REPO + "/nixd/lib/Controller",
            "-I/usr/lib/llvm-18/include"]
    return inc


def flags(native, groups):
    f = list(COMMON) + includes(groups)
    if native:
        f += NAT
    else:
        f += SYM + ["-fpass-plugin=" + plugin()]
    return f


def obj(src, native, groups, hh, extra=()):
    f = flags(native, groups) + list(extra)
    key = sha(read(src), src if "/harness/" not in src else os.path.basename(src),
              hh, " ".join(f), read(ENGINE + "/symx.h"), repr(PROCCALLS), "locks2")
    out = os.path.join(BUILD, "obj", "%s-%s-%s.o" % (
        os.path.basename(src).replace(".cpp", ""), "n" if native else "s", key))

    def mk(t):
        run([CXX] + f + ["-c", src, "-o", t])
        # the stream the server reads from and locks are provided by the harness
        calls = ()
        if src.startswith(os.path.join(REPO, "nixd", "lspserver")):
            calls = ENVCALLS
        elif "fmt" in groups:
            calls = PROCCALLS
        elif "ctl" in groups:
            calls = ENVCALLS[3:]
        if calls:
            run(["objcopy"] + ["--redefine-sym=%s=symx_env_%s" % (e, e)
                               for e in calls] + [t])
    return put(out, mk)


def gc():
    """Bound the size of the cache."""
    d = os.path.join(BUILD, "obj")
    if not os.path.isdir(d):
        return
    fs = [(os.path.getmtime(os.path.join(d, f)), os.path.join(d, f))
          for f in os.listdir(d)]
    tot = sum(os.path.getsize(p) for _, p in fs)
    for _, p in sorted(fs):
        if tot < 1500 << 20:
            break
        tot -= os.path.getsize(p)
        os.unlink(p)


def harness_exe(name, groups, native=False, extra=()):
    """Compiles harness/<name>.cpp with the repository's sources."""
    src = os.path.join(HARN, name + ".cpp")
    hh = sha(headers_hash(), tree_hash([HARN], {".h", ".hpp", ".hh", ""}))
    hhl = headers_hash()
    hst = sha(hhl, tree_hash([HARN + "/stubs"], {".hpp", ".hh", ""}))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        if not native:
            fp, fr = ex.submit(plugin), ex.submit(runtime)
            fg = ex.submit(gen)
            fp.result(), fg.result()
        jobs = [ex.submit(obj, src, native, groups, hh, extra)]
        for g in groups:
            for s in sources(g):
                ctl = g in ("ctl", "fmt")
                jobs.append(ex.submit(obj, s, native,
                                      ["ctl", g] if ctl else [g],
                                      hst if ctl else hhl))
        if native:
            jobs.append(ex.submit(obj, ENGINE + "/replay.cpp", True, [], "r"))
        if any(g in ("lsp", "ca") for g in groups):
            jobs.append(ex.submit(obj, HARN + "/env.cpp", native, [], hh))
        if native:
            pass
        else:
            jobs.append(ex.submit(obj, ENGINE + "/shims.cpp", False, [], "s"))
            if any(g in ("lsp", "ca") for g in groups):
                jobs.append(ex.submit(obj, ENGINE + "/shims_llvm.cpp", False,
                                      ["lsp"], "s"))
            if "ca" in groups:
                jobs.append(ex.submit(obj, ENGINE + "/shims_ios.cpp", False,
                                      [], "s"))
        objs = [j.result() for j in jobs]
        if not native:
            objs.append(fr.result())
    key = sha(*objs)
    out = os.path.join(BUILD, "bin", "%s-%s-%s" % (
        name, "n" if native else "s", key))
    libs = ["-ldl", "-lpthread"]
    if not native:
        libs = ["-lz3"] + libs
    if any(g in ("lsp", "ca") for g in groups):
        libs = ["-L/usr/lib/llvm-18/lib", "-lLLVM-18",
                "-Wl,-rpath,/usr/lib/llvm-18/lib"] + libs

    def mk(t):
        cmd = [CXX, "-no-pie", "-rdynamic", "-Wl,--allow-multiple-definition"
               if False else "-Wl,--as-needed"]
        if native:
            cmd += ["-fsanitize=address,undefined"]
        run(cmd + objs + libs + ["-o", t])
        d = os.path.dirname(t)
        for f in os.listdir(d):
            if f.startswith(name + ("-n-" if native else "-s-")) and \
               os.path.join(d, f) != t:
                try:
                    os.unlink(os.path.join(d, f))
                except OSError:
                    pass
    p = put(out, mk)
    gc()
    return p


if __name__ == "__main__":
    print(harness_exe(sys.argv[1], sys.argv[2].split(","),
                      native=len(sys.argv) > 3))
