"""Shared paths, scratch management, and build helpers.

Everything is rebuilt from /repo's current working tree on each run, in a
scratch directory under /tmp which is removed on exit."""
import atexit, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NCPU = int(os.environ.get("VERIF_JOBS", "8"))

class ToolError(Exception):
    """infrastructure failure: never a verdict"""

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-")
        pid = os.getpid()
        def rm():
            if os.getpid() == pid and not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
    return _scratch

def run(cmd, timeout=300, cwd=None, check=True, input=None, env=None, text=True):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, cwd=cwd, input=input, env=env,
                           text=text, errors="replace" if text else None)
    except subprocess.TimeoutExpired:
        raise ToolError("timeout: " + " ".join(cmd)[:200])
    except OSError as e:
        raise ToolError("cannot run %s: %s" % (cmd[0], e))
    if check and p.returncode:
        raise ToolError("%s failed (%d):\n%s" % (" ".join(cmd)[:300], p.returncode, p.stderr[-3000:]))
    return p

def inc_dir(variant):
    """include dir providing config.h and <sigscheme/*.h> from the repo"""
    d = os.path.join(scratch(), "inc-" + variant)
    if not os.path.isdir(d):
        os.makedirs(os.path.join(d, "sigscheme"))
        cfg = os.path.join(VERIF, "config", variant, "config.h")
        shutil.copy(cfg, os.path.join(d, "config.h"))
        os.symlink(os.path.join(d, "config.h"), os.path.join(d, "sigscheme", "config.h"))
        for h in ("config-old.h", "encoding-dummy.h", "encoding.h", "global.h", "scmint.h",
                  "sigscheme.h", "storage-common.h", "storage-compact.h", "storage-fatty.h"):
            p = os.path.join(SRC, h)
            if os.path.exists(p):
                os.symlink(p, os.path.join(d, "sigscheme", h))
    return d

def cppflags(variant):
    d = inc_dir(variant)
    lib = os.path.join(REPO, "lib")
    return ["-DHAVE_CONFIG_H", '-DPKGDATADIR="%s"' % REPO, '-DSCMLIBDIR="%s"' % lib,
            "-I" + d, "-I" + functables(), "-I" + SRC, "-DSCM_COMPILING_LIBSSCM=1", "-DNDEBUG"]

TABLES = {
 "sscm-core": ["error.c", "promise.c"], 
}
def makefile_tables():
    """functable name -> source list, from src/Makefile.am"""
    txt = open(os.path.join(SRC, "Makefile.am")).read().replace("\\\n", " ")
    var = {}
    for m in re.finditer(r"^(\w+)\s*=\s*(.*)$", txt, re.M):
        var[m[1]] = m[2]
    out = {}
    for m in re.finditer(r"^(functable-[\w-]+\.c):\s*(.*?)\n\t\$\(BUILD_FUNCTBL_CMD\) \$@ \"(\w+)\" (.*)$", txt, re.M):
        deps = m[4]
        if "$<" in deps:
            deps = m[2].split()[0]
        for _ in range(3):
            deps = re.sub(r"\$\((\w+)\)", lambda k: k[0] if k[1] == "srcdir" else var.get(k[1], ""), deps)
        out[m[1]] = (m[3], [d.replace("$(srcdir)", SRC) for d in deps.split()])
    return out

def functables():
    d = os.path.join(scratch(), "ft")
    if os.path.isdir(d):
        return d
    os.makedirs(d)
    tools = os.path.join(REPO, "tools")
    tabs = makefile_tables()
    if len(tabs) < 30:
        raise ToolError("cannot read functable rules from Makefile.am")
    def one(it):
        name, (sym, srcs) = it
        return run(["ruby", "-I" + tools, os.path.join(tools, "build_func_table.rb"), name, sym] + srcs, cwd=d)
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, tabs.items()))
    for n in tabs:
        if not os.path.exists(os.path.join(d, n)):
            raise ToolError("functable %s not generated" % n)
    return d

NOTLIB = {"dllentry.c", "template.c", "global-aggregated.c", "module-siod.c", "scmport-null.c", "main.c"}
def lib_sources(variant):
    out = []
    for f in sorted(os.listdir(SRC)):
        if not f.endswith(".c") or f in NOTLIB or f.startswith("functable"):
            continue
        if f == "macro.c" and variant != "hygienic":
            continue
        out.append(f)
    return out

def native(variant, cflags=("-O1", "-g"), cc="gcc", tag=""):
    """build the interpreter from the working tree; returns path to sscm"""
    d = os.path.join(scratch(), "nat-" + variant + tag)
    exe = os.path.join(d, "sscm")
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    flags = cppflags(variant)
    def one(f):
        o = os.path.join(d, f[:-2] + ".o")
        run([cc, *cflags, "-w", *flags, "-c", os.path.join(SRC, f), "-o", o], timeout=200)
        return o
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(one, lib_sources(variant) + ["main.c"]))
    run([cc, *cflags, "-o", exe, *objs, "-lgcroots", "-lm"])
    return exe

def scheme(script, variant="compact", timeout=60, args=(), tag="", exe=None):
    """run a Scheme program on the natively built interpreter"""
    exe = exe or native(variant, tag=tag)
    f = tempfile.NamedTemporaryFile("wb", suffix=".scm", dir=scratch(), delete=False)
    f.write(script if isinstance(script, bytes) else script.encode()); f.close()
    try:
        p = subprocess.run([exe, "--system-load-path", os.path.join(REPO, "lib"), *args, f.name],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                           timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, e.stdout or b""

def with_library(src, variant, cflags=("-O1", "-g"), cc="gcc", tag=""):
    """a C program of /verif linked with the library built from the working tree"""
    native(variant, cflags, cc, tag)
    d = os.path.join(scratch(), "nat-" + variant + tag)
    exe = os.path.join(d, os.path.basename(src)[:-2])
    objs = [os.path.join(d, f[:-2] + ".o") for f in lib_sources(variant)]
    run([cc, *cflags, "-w", *cppflags(variant), src, "-o", exe, *objs, "-lgcroots", "-lm"], timeout=200)
    return exe
