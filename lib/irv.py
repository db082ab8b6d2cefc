"""Spec-side helpers: tasks over the IR engine, run in forked workers."""
import multiprocessing, os, time, traceback
import z3
import env, ir, irparse, engine, sal
from engine import *
from cbmc import Obl

_mods = {}
def module(variant):
    if variant not in _mods: _mods[variant] = irparse.Module(ir.build(variant))
    return _mods[variant]

_prims = {}
def primitives(variant):
    """Scheme name -> (Fn, typecode), read from the generated function tables"""
    if variant in _prims: return _prims[variant]
    m = module(variant)
    out = {}
    seen = set()
    units = {f.mod for f in m.fns.values()} | {f.mod for l in m.statics.values() for f in l}
    for u in units:
        for n, g in u.globs.items():
            if not g.defined or (u.file, n) in seen or "functable" not in n: continue
            seen.add((u.file, n))
            init = g.init
            if init[0] != 'agg': continue
            for t, ent in init[1]:
                if ent[0] != 'agg': continue
                fs = ent[1]
                nm, fn, tc = fs[0][1], fs[1][1], fs[2][1]
                if nm[0] != 'glob' or fn[0] != 'glob': continue
                s = u.globs[nm[1]].init
                if s[0] != 'str': continue
                name = bytes(s[1]).split(b"\0")[0].decode("latin1")
                f = u.find(fn[1])
                if f is not None: out[name] = (f, tc[1] if tc[0] == 'int' else 0)
    if len(out) < 200: raise ToolError("only %d primitives found in the function tables" % len(out))
    _prims[variant] = out
    return out

class Task:
    """one function under contract"""
    def __init__(self, prop, tag, variant, timeout=10000, budget=200):
        self.m = module(variant)
        self.e = Engine(self.m, prop, tag + "[" + variant + "]", variant, timeout)
        self.e.deadline = time.time() + budget
        self.prop, self.tag, self.variant = prop, tag, variant
        self.st = self.e.start()
        self.nret = self.nerr = 0
        self.fns = []
        self.c = self.e.c
    # --- values
    def obj(self, name): return self.e.obj_param(name, self.st)
    def objs(self, *names): return [self.obj(n) for n in names]
    def bv(self, name, w=64): return z3.BitVec(name, w)
    def istype(self, o, t): return TYPE(o) == self.e.ty("Scm" + t)
    def isint(self, o): return self.istype(o, "Int")
    def int(self, o): return sal.int_axioms(self.e, o)
    def char(self, o): return sal.char_axioms(self.e, o)
    def K(self, n): return self.e.K("SCM_" + n)
    def bool(self, c): return z3.If(c, self.K("TRUE"), self.K("FALSE"))
    def skolem(self, name):
        j = z3.BitVec(name, 64)
        self.e.js.append(j)
        return j
    def slot(self, name, w, v):
        """a caller's variable passed by address"""
        oid = self.e.newobj(name, w // 8, 'param')
        self.e.mo(self.st, oid, True).cells[0] = (w, v)
        return P('obj', oid, 0)
    def struct(self, name, size, cells=()):
        oid = self.e.newobj(name, size, 'param')
        for off, w, v in cells: self.e.mo(self.st, oid, True).cells[off] = (w, v)
        return P('obj', oid, 0)
    def cell(self, st, p, off, w):
        m = self.e.mo(st, p.base)
        c = m.cells.get(off)
        return c[1] if c else self.e.initcell(self.e.objs[p.base], off, w, m.ver)
    def glob(self, fn, name, off, w, st=None):
        """content of a global variable as the unit of fn sees it"""
        p = self.e.globval(self.fn(fn).mod, name, st or self.st)
        return self.cell(st or self.st, p, off, w)
    def static(self, fn, var, st=None, ns="static_gc"):
        """(object, offset) of a variable of the unit of fn"""
        u = self.fn(fn).mod
        try: p = self.e.globval(u, var, st or self.st); off = 0
        except Unsupported:
            p = self.e.globval(u, "scm_g_instance_" + ns, st or self.st)
            off = self.c.get("off_" + var.replace("scm_symbol", "symbol"))
            if off is None: raise Unsupported("variable " + var)
        return P(p.kind, p.base, off)
    def symbols(self, init):
        """global places which the initialization function fills with symbols: name -> (global, offset)"""
        t2 = Task(self.prop, "init", self.variant)
        e = t2.e
        f = t2.fn(init)
        known = {}
        class Any(dict):
            def get(d, name, dflt=None):
                if name in d: return d[name]
                if name in e.handlers or f.mod.find(name) is not None and f.mod.find(name).mod is f.mod: return dflt
                return lambda e, st, a, k, fi: e.sym("res")
        e.contracts = Any()
        def intern(e, st, a, k, fi):
            d = e.objs[a[0].base].data
            nm = "".join(chr(d[i][1].as_long()) for i in sorted(x for x in d if isinstance(x, int)) if d[i][0] == 8)
            nm = nm.split("\0")[0]
            if nm not in known: known[nm] = e.sym("symbol")
            return known[nm]
        e.contracts["scm_intern"] = intern
        def prot(e, st, a, k, fi):
            e.store(fi[0], st, a[0], e.bv(a[1]), ('i', 64), fi[0].fn.mod); return e.sym("res")
        e.contracts["scm_gc_protect_with_init"] = prot
        out = {}
        def ret(st, v):
            for oid, m in st.mem.items():
                if e.objs[oid].kind != 'glob': continue
                for off, (w, x) in m.cells.items():
                    if not z3.is_expr(x): continue
                    for nm, s in known.items():
                        if x.eq(s): out[nm] = (e.objs[oid].name, off)
                        elif e.valid(z3.And(AGE(x) > z3.Int("clk0"), t2.car(x, st) == s)): out["(%s)" % nm] = (e.objs[oid].name, off)
        t2.call(f, [], ret)
        return out
    # --- heap views
    def car(self, o, st=None): return self.e.asel(self.e.fld(st or self.st, 'car'), o)
    def cdr(self, o, st=None): return self.e.asel(self.e.fld(st or self.st, 'cdr'), o)
    def get(self, f, o, st=None): return self.e.asel(self.e.fld(st or self.st, f), o)
    def root0(self): return self.e.fld0('cdr')
    def nth(self, lst, k):
        """k-th tail of lst in the initial heap"""
        return self.e.chain(self.e.fld0('cdr'), lst, k)
    def nth_facts(self, lst, k):
        for f in self.e.chain_ax(self.e.fld0('cdr'), lst, k): self.e.assume(f)
        return self.nth(lst, k)
    def upto(self, lst, n, fact):
        """fact(k, tail k of lst) holds for every k < n (n None: for every k)"""
        r = self.root0()
        def f(k):
            x = fact(k, self.e.chain(r, lst, k))
            return x if n is None else z3.Implies(z3.ULT(k, n), x)
        self.e.uchain.append((r, lst, f))
    def bounded_by(self, n, steps=(1, 2, 3)):
        """obligation: every loop runs at most about n times"""
        self.assume(z3.ULT(n, B(1 << 59)))
        for s in steps: self.e.ends.append(lambda it, s=s: z3.ULE(it * B(s) if s > 1 else it, n))
        self.e.ends.append(lambda it: z3.ULE(it, simp(n + 2)))
    def finite(self, lst, name="N"):
        """lst is a finite list structure: its n-th tail is the first which is no pair"""
        n = self.bv(name)
        self.assume(z3.ULT(n, B(1 << 59)))
        self.upto(lst, n, lambda k, x: self.istype(x, "Cons"))
        self.nth_facts(lst, B(0))
        end = self.nth_facts(lst, n)
        self.assume(z3.Not(self.istype(end, "Cons")))
        self.e.chain_ends = getattr(self.e, "chain_ends", []) + [(lst, n)]
        return n, end
    def circular(self, lst, name="T"):
        """lst is a circular list: some tail t >= 1 equals tail 2t"""
        T = self.bv(name)
        self.assume(z3.ULT(T, B(1 << 58)), T != 0)
        self.upto(lst, None, lambda k, x: self.istype(x, "Cons"))
        self.nth_facts(lst, B(0))
        self.assume(self.nth_facts(lst, T) == self.nth_facts(lst, T * 2))
        return T
    def arglist(self, args, n, end=None):
        """args is a list of exactly n elements, which are returned"""
        out, self.argcells = [], []
        x = args
        clk = z3.Int("clk0")
        for i in range(n):
            l, nx = self.obj("%s.%d" % (args, i)), self.obj("%s@%d" % (args, i + 1)) if i < n - 1 else self.K("NULL") if end is None else end
            self.assume(self.istype(x, "Cons"), self.car(x) == l, self.cdr(x) == nx)
            self.e.canon = tuple(self.e.canon) + (("car", l), ("cdr", nx))
            out.append(l); self.argcells.append(x); x = nx
        if n == 0: self.assume(x == (self.K("NULL") if end is None else end))
        for i in range(n + 1): self.nth_facts(args, B(i))
        return out
    def determinism(self, st, lst, n):
        """tails of equal tails are equal: instances at the positions the loops have reached"""
        r = self.root0(); f = self.e.chainf(r)
        pos = []
        for name, it, na, ga, lp in st.its:
            for v in lp.vars:
                if v.t[0] == 'chain' and v.t[2].eq(r):
                    import loops
                    b, k0 = loops.chainparts(r, loops.cbase(v))
                    if b.eq(lst):
                        for d in range(3): pos.append(simp(k0 + it * B(v.t[1]) + d))
        for p in pos:
            for q in pos:
                k = n - q
                self.assume(z3.Implies(z3.ULE(q, n), f(f(lst, p), k) == f(lst, simp(p + k))))
                for fct in self.e.chain_ax(r, lst, simp(p + k)): self.assume(fct)
    def assume(self, *fs):
        for f in fs: self.e.assume(f)
    def prove(self, name, f, kind="post"): return self.e.prove(name, f, kind)
    def prove_frame(self, st, fields=("car", "cdr", "vcell", "str", "strlen", "vec", "veclen", "exp", "env", "mutable", "values"), except_=None, name="frame"):
        """no object which existed at entry was changed"""
        e = self.e
        for f in fields:
            a, b = st.fld.get(f), e.fld0(f)
            if a is None or a.eq(b): continue
            x = e.sym("frame")
            g = e.asel(a, x) == e.asel(b, x)
            h = AGE(x) <= z3.Int("clk0")
            if except_ is not None: h = z3.And(h, z3.Not(except_(x, f)))
            self.prove("%s: no existing object's %s is changed" % (name, f), z3.Implies(h, g), "frame")
        for w, a in st.M.items():
            b = e.marr(St(), w)
            if a.eq(b): continue
            x, o = e.sym("fb"), e.sym("fo")
            h = AGE(x) <= z3.Int("clk0")
            if except_ is not None: h = z3.And(h, z3.Not(except_((x, o), 'M%d' % w)))
            self.prove("%s: no existing block is changed (%d bit)" % (name, w), z3.Implies(h, e.msel(a, x, o, w) == e.msel(b, x, o, w)), "frame")
    def bounds(self):
        """obligation: every access to a heap block stays inside it"""
        def mem(e, st, base, o, w, wr):
            sz = BSIZE(base)
            e.prove("every access to a memory block stays inside it", z3.And(z3.ULE(B(w // 8), sz), z3.ULE(o, sz - B(w // 8))), "safety")
        self.e.memhook = mem
    def vector_inv(self, o, st=None):
        """representation invariant of a vector"""
        n = self.get("veclen", o, st)
        return z3.And(n >= 0, z3.ULT(n, B(1 << 59)), BSIZE(self.get("vec", o, st)) == n * 8)
    def use_length(self, lst, r):
        """callers of scm_length rely on its contract (L01): r is the length code of lst"""
        def h(e, st, a, k, fi):
            if not (z3.is_expr(a[0]) and a[0].eq(lst)): raise Unsupported("scm_length of another object")
            return r
        if self.m.fn("scm_length"): self.e.contracts["scm_length"] = h
    def built(self, name, st, v, n, elem, tail=None, j=None):
        """v is a list of n new pairs holding elem(0), ..., elem(n-1), ended by tail"""
        self.segments(name, st, v, [(n, elem)], self.K("NULL") if tail is None else tail)
    def segments(self, name, st, v, segs, tail):
        """v is the concatenation of lists of n new pairs holding elem(0), ..., elem(n-1), for each (n, elem), ended by tail;
        each segment is what one loop allocated, in its order or against it, every m-th allocation"""
        e = self.e
        j = e.js[0]
        names = ["the number of pairs", "the elements", "the order and the end", "fresh mutable pairs"]
        logs = [(it, na, ga, lp) for nm, it, na, ga, lp in st.its if na is not None and lp.nalloc is not None]
        # pair the segments with the loops which allocate, in order
        cur = list(logs)
        def opts(n, lg):
            it, na, ga, lp = lg
            import loops
            nm = lp.nalloc[1] if lp.nalloc[0] == 'c' else 1
            m = loops.stride(nm)
            for r in range(nm):
                at = (lambda i, r=r: simp(i * m + r)) if m > 1 else simp
                for back in (False, True): yield (na, m, (lambda i, at=at, ga=ga: e.asel(ga, at(i))), back)
        nxt = tail
        plan = []
        for k in range(len(segs) - 1, -1, -1):
            n, elem = segs[k]
            if e.valid(n == 0): continue
            found = None
            cands = [(lg, o) for lg in reversed(cur) for o in opts(n, lg)]
            for lg, (na, m, G, back) in cands:
                for i in (B(0), j, j + 1, j - 1, n - 1): G(i)
                inn = z3.ULT(j, n)
                x = G(j)            # the pair at list position p
                p, last, after, first = (simp(n - 1 - j), j == 0, G(j - 1), G(n - 1)) if back else (j, j + 1 == n, G(j + 1), G(B(0)))
                fs = [na == n * m,
                    z3.Implies(inn, self.car(x, st) == elem(p)),
                    z3.Implies(inn, self.cdr(x, st) == z3.If(last, nxt, after)),
                    z3.Implies(inn, z3.And(self.istype(x, "Cons"), AGE(x) > z3.Int("clk0"), self.get("mutable", x, st) != 0))]
                oks = sum(e.valid(f) for f in fs)
                if found is None or oks > best: found, best = (lg, first, fs), oks
                if oks == len(fs): break
            if found is None:
                self.prove(name + ": built as specified", z3.BoolVal(False)); return
            lg, first, fs = found
            cur = cur[:[c is lg for c in cur].index(True)] if len(segs) > 1 else cur
            nxt = z3.If(n == 0, nxt, first)
            plan.append(fs)
        for fs in reversed(plan): self.prove(name + ": the number of pairs", fs[0])
        self.prove(name + ": the first pair", v == nxt)
        for fs in reversed(plan):
            for m, x in zip(names[1:], fs[1:]): self.prove(name + ": " + m, x)
    # --- running
    def fn(self, name, file=None):
        f = self.m.fn(name, file)
        if f is None: raise Unsupported("function %s not found" % name)
        return f
    def prim(self, scheme_name):
        p = primitives(self.variant).get(scheme_name)
        if p is None: raise Unsupported("primitive %s not found in the function tables" % scheme_name)
        return p[0]
    def call(self, f, args, ret=None, err=None, raw=False):
        if isinstance(f, str): f = self.fn(f)
        self.fns.append(f.name)
        def r(st, v):
            self.nret += 1
            self.e.cur = st
            if ret: ret(st, v if raw or v is None else self.e.bv(v))
        def x(st, name, av):
            self.nerr += 1
            self.e.cur = st
            if err: err(st, name, av)
        if len(args) > len(f.params): raise Unsupported("arity of " + f.name)
        self.e.errh = x
        self.e.call_fn(f, args, self.st.copy(), r)

def _work(job):
    prop, tag, variant, fn, kw, reach = job
    t0 = time.time()
    try:
        t = Task(prop, tag, variant, **kw)
        try:
            fn(t)
            if reach and t.nret == 0 and t.nerr == 0 and all(o.ok for o in t.e.results()):
                raise ToolError("vacuity: no path of %s ends" % tag)
            obls = t.e.results()
        except Unsupported as ex:
            o = Obl("%s/%s[%s]: within the verifier's reach" % (prop, tag, variant), None, "Unsupported: %s" % ex, "irv-z3", 0, None, "reach")
            obls = t.e.results() + [o]
        except (RecursionError, z3.Z3Exception, AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError) as ex:
            # a construct the generator does not know: the obligations beyond it are not discharged
            o = Obl("%s/%s[%s]: within the verifier's reach" % (prop, tag, variant), None, "recursion depth" if isinstance(ex, RecursionError) else traceback.format_exc(), "irv-z3", 0, None, "reach")
            obls = t.e.results() + [o]
        return ("ok", obls, sorted(set(t.fns)), sorted(t.e.inlined), time.time() - t0, t.e.vcs, t.e.loopinfo)
    except ToolError as ex:
        return ("err", "%s: %s" % (tag, ex))
    except Exception:
        return ("err", "%s: %s" % (tag, traceback.format_exc()))

def run_jobs(jobs, ncpu=env.NCPU):
    if not jobs: return []
    for v in sorted({j[2] for j in jobs}): module(v); primitives(v)
    if os.environ.get("VERIF_SERIAL"):
        return [_work(j) for j in jobs]
    global _jobs
    _jobs = jobs
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(ncpu, maxtasksperchild=1) as pool:
        return pool.map(_bynum, range(len(jobs)), chunksize=1)
_jobs = []
def _bynum(i):
    import sys, threading
    sys.setrecursionlimit(200000)
    threading.stack_size(512 << 20)
    out = []
    th = threading.Thread(target=lambda: out.append(_work(_jobs[i])))
    th.start(); th.join()
    return out[0] if out else ("err", "worker died")
