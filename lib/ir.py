"""LLVM IR of the working tree, seen through the SAL contracts (sal/vsal.h)."""
import os
from concurrent.futures import ThreadPoolExecutor
import env

# variables which live in a unit's own structure: their offsets are constants for the contracts
STATICS = {"storage-gc.c": ("static_gc", "l_heap_size l_heap_alloc_threshold l_n_heaps l_n_heaps_max l_heaps l_heaps_lowest l_heaps_highest l_freelist l_protected_vars l_protected_vars_size l_n_empty_protected_vars l_gcroots_ctx")}
def statics(d, variant, flags):
    """lines which define the offsets"""
    out = []
    for f, (ns, names) in STATICS.items():
        def gen(names):
            c = os.path.join(d, "off-" + f)
            with open(c, "w") as o:
                o.write('#include "%s"\n' % f + "".join("#undef %s\nlong vc_off_%s = offsetof(struct scm_g_%s, %s);\n" % (n, n, ns, n) for n in names))
            p = env.run(["clang-18", "-S", "-emit-llvm", "-O0", "-w", *flags, "-include", os.path.join(env.VERIF, "sal", "vsal.h"), "-o", "-", c], check=False)
            return [l for l in p.stdout.split("\n") if l.startswith("@vc_off_")] if p.returncode == 0 else None
        ls = gen(names.split())
        if ls is None:
            ls = []
            for n in names.split(): ls += gen([n]) or []
        out += ls
    return out

def build(variant, files=None):
    """compile every library source of the variant; returns {file: path.ll}"""
    d = os.path.join(env.scratch(), "ir-" + variant)
    os.makedirs(d, exist_ok=True)
    flags = env.cppflags(variant)
    out = {}
    def one(f):
        ll = os.path.join(d, f[:-2] + ".ll")
        if not os.path.exists(ll):
            raw = ll + ".raw"
            defs = ["-DVSAL_CONSTS"] if f == "vconsts.c" else []
            src = os.path.join(env.SRC, f) if f != "vconsts.c" else os.path.join(env.VERIF, "sal", f)
            env.run(["clang-18", "-S", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names",
                     "-gline-tables-only", "-w", *defs, *flags, "-include", os.path.join(env.VERIF, "sal", "vsal.h"), "-o", raw, src])
            env.run(["opt-18", "-S", "-passes=sroa,simplifycfg,loop-simplify", raw, "-o", ll])
            if f == "vconsts.c":
                with open(ll, "a") as o: o.write("\n".join(statics(d, variant, flags)) + "\n")
        return f, ll
    fs = files or env.lib_sources(variant) + ["vconsts.c"]
    with ThreadPoolExecutor(env.NCPU) as ex:
        for f, ll in ex.map(one, fs):
            out[f] = ll
    return out
