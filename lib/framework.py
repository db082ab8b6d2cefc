"""Check driver: runs one property's obligations, decides the verdict, writes evidence."""
import importlib.util, json, os, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
import env
from cbmc import Obl

EVID = os.path.join(env.VERIF, "evidence")
KNOWN = os.path.join(env.VERIF, "known_findings.txt")

class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.obls, self.functions, self.assumptions, self.trusted, self.bounded = [], [], [], [], []
        self.samples, self.falsifiers, self.tasks = [], [], []
        self.checker_cmds = []
        self.notes = {}
        self.irvjobs = []
        self.bounds = {}
    thorough = property(lambda s: s.tier == "thorough")
    def func(self, *names):
        for n in names:
            if n not in self.functions: self.functions.append(n)
    def assume(self, *a):
        for x in a:
            if x not in self.assumptions: self.assumptions.append(x)
    def trust(self, *a):
        for x in a:
            if x not in self.trusted: self.trusted.append(x)
    def add(self, obls):
        self.obls += obls
    def task(self, fn, *a, **k):
        self.tasks.append((fn, a, k))
    def irv(self, tag, fn, variants=("compact", "fatty"), reach=True, bounded=None, **kw):
        """a function under contract, checked on the compiled IR; fn(task);
        bounded: what the check leaves out (its obligations are not counted as proved)"""
        for v in variants:
            if bounded: self.bounds[(tag, v)] = bounded
            self.irvjobs.append((self.prop, tag, v, fn, kw, reach))
    def falsifier(self, fn):
        """fn(ctx, failed) -> None, or (key, replay text): a failing input confirmed on the real code"""
        self.falsifiers.append(fn)

def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                out.append(l[len("finding: property=%s " % prop):])
    return out

def main(prop, tier):
    t0 = time.time()
    path = os.path.join(env.VERIF, "props", prop + ".py")
    spec = importlib.util.spec_from_file_location("prop_" + prop, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    ctx = Ctx(prop, tier)
    mod.setup(ctx)
    env.inc_dir("compact"); env.functables()
    if ctx.irvjobs:
        import irv
        inl, loops, times = set(), {}, {}
        for j, r in zip(ctx.irvjobs, irv.run_jobs(ctx.irvjobs)):
            if r[0] == "err": raise env.ToolError(r[1])
            for o in r[1]:
                if (j[1], j[2]) in ctx.bounds: o.bounded = ctx.bounds[(j[1], j[2])]
            ctx.add(r[1]); ctx.func(*r[2]); inl |= set(r[3])
            times["%s[%s]" % (j[1], j[2])] = round(r[4], 1)
            for k, v in r[6].items(): loops[k] = loops.get(k, 0) + len(v)
            if os.environ.get("VERIF_LOOPS"): print(j[1], j[2], r[6])
        ctx.func(*sorted(inl))
        ctx.notes["loops_with_inferred_invariants"] = sorted(loops)
        ctx.notes["slowest_tasks_s"] = dict(sorted(times.items(), key=lambda x: -x[1])[:8])
        if os.environ.get("VERIF_TIMES"): print(sorted(times.items(), key=lambda x: -x[1])[:20])
        ctx.checker_cmds.append("clang-18 -O0 -emit-llvm of /repo/src/*.c with sal/vsal.h; opt-18 sroa,simplifycfg,loop-simplify; lib/engine.py with z3 %s" % __import__("z3").get_version_string())
        ctx.trust("irv (lib/engine.py, lib/loops.py, lib/sal.py, lib/libc.py: VC generator of this project)", "z3 5.3.2, cvc5 1.1.2",
                  "clang-18 front end and opt-18 sroa/simplifycfg/loop-simplify", "sal/vsal.h: the storage accessor macros are replaced by their contracts (S01 checks the macros)")
        ctx.assume("no object dies while in use (the collector keeps reachable objects: G01, G02)", "loops run fewer than 2^60 iterations",
                   "errors do not return (longjmp)", "malloc never returns NULL to its callers and never overlaps live blocks")
    results = []
    with ThreadPoolExecutor(env.NCPU) as ex:
        futs = [ex.submit(fn, *a, **k) for fn, a, k in ctx.tasks]
        for f in futs:
            ctx.add(f.result())
    if not ctx.obls:
        raise env.ToolError("vacuity: no obligation was generated for " + prop)
    nb = [o for o in ctx.obls if not getattr(o, "bounded", None)]
    failed = [o for o in ctx.obls if o.ok is not True]
    kn = known(prop)
    hits = [o for o in failed if o.name in kn]
    failed = [o for o in failed if o.name not in kn]
    for k in kn:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    rc, nviol = 0, 0
    os.makedirs(EVID, exist_ok=True)
    replay = os.path.join(EVID, prop + ".replay")
    if os.path.exists(replay): os.unlink(replay)
    if failed:
        rc, nviol = 1, len(failed)
        for o in failed[:40]:
            print("FAILED-OBLIGATION %s (%s)" % (o.name, {False: "refuted", None: "not discharged"}[o.ok]))
        conf = None
        for f in ctx.falsifiers:
            try:
                conf = f(ctx, failed)
            except env.ToolError as e:
                print("falsifier error: %s" % e)
            if conf: break
        with open(replay, "w") as f:
            f.write("property %s: %d obligation(s) not discharged on the current source of %s\n\n" % (prop, len(failed), env.REPO))
            for o in failed:
                f.write("OBLIGATION %s\n  status: %s, back end: %s\n" % (o.name, "refuted" if o.ok is False else "not discharged", o.backend))
                if o.detail: f.write("  " + str(o.detail).replace("\n", "\n  ") + "\n")
                if o.cex: f.write("  counterexample (verifier): %s\n" % (str(o.cex)[:1200]))
            if conf:
                f.write("\nCONFIRMED on the real code:\n" + conf + "\n")
            else:
                f.write("\nNo failing input was found by replaying on the real code.\n")
        print("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if conf else " no-failing-input-found"))
    by = {}
    for o in ctx.obls:
        b = by.setdefault(o.backend, dict(obligations=0, discharged=0, seconds=0.0))
        b["obligations"] += 1; b["discharged"] += o.ok is True; b["seconds"] = round(b["seconds"] + o.secs, 3)
    unb = [o for o in ctx.obls if not getattr(o, "bounded", None)]
    kinds = {}
    for o in unb: kinds[o.kind] = kinds.get(o.kind, 0) + 1
    ev = dict(property=prop, tier=tier, seed=env.SEED, level=getattr(mod, "LEVEL", "proof"),
        coverage=dict(obligations=len(unb), discharged=sum(o.ok is True for o in unb),
            checker_cmd="; ".join(ctx.checker_cmds) or "bin/check %s --%s" % (prop, tier),
            trusted_base=ctx.trusted, functions_under_contract=ctx.functions, by_backend=by, by_kind=kinds,
            bounded_checks=[dict(name=o.name, bound=o.bounded, ok=o.ok) for o in ctx.obls if getattr(o, "bounded", None)],
            samples=[o.name for o in unb if o.kind == "post"][:12] or [o.name for o in unb[:12]],
            known_finding_hits=[o.name for o in hits], **ctx.notes),
        assumptions=ctx.assumptions, wall_s=round(time.time() - t0, 2), violations=nviol)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d/%d obligations discharged, %d functions, %.1fs, exit %d" % (
        prop, ev["coverage"]["discharged"], len(unb), len(ctx.functions), time.time() - t0, rc))
    return rc
