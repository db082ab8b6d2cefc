"""irv: a deductive verifier for the LLVM IR of the real sources.

Path-wise symbolic execution over z3 terms; loops are cut at their headers with
inductive invariants (inferred from role-based templates, Houdini style, plus
candidates a contract supplies); callees under contract are replaced by their
contracts, SAL accessors by theirs, other calls are inlined.  Every path ends in
obligations (postcondition, type safety of each accessor, frame conditions)
which z3 has to discharge for all inputs, heaps and iteration counts."""
import os, sys, time, itertools, threading
import z3
from env import ToolError
from cbmc import Obl

BV64 = z3.BitVecSort(64)
B = lambda n, w=64: z3.BitVecVal(n, w)
AGE = z3.Function("AGE", BV64, z3.IntSort())
TYPE = z3.Function("TYPE", BV64, z3.BitVecSort(32))
MKINT = z3.Function("MKINT", BV64, BV64)
MKCHAR = z3.Function("MKCHAR", z3.BitVecSort(32), BV64)
REFCAR = z3.Function("REFCAR", BV64, BV64)
REFCDR = z3.Function("REFCDR", BV64, BV64)
OBJBASE, OBJSH, FNBASE = 0x7f0000000000, 20, 0x400000

class Unsupported(ToolError):
    """a construct outside the verifier's reach"""

class P:
    __slots__ = ("kind", "base", "off")
    def __init__(self, kind, base=None, off=0): self.kind, self.base, self.off = kind, base, off
    def __repr__(self): return "P(%s,%s,%s)" % (self.kind, self.base, self.off)
NULLP = P('null')

class MO:
    """content of a named object (stack slot, global, parameter struct)"""
    __slots__ = ("cells", "arrs", "ver", "info")
    def __init__(self, info, cells=None, arrs=None, ver=0):
        self.info, self.cells, self.arrs, self.ver = info, cells if cells is not None else {}, arrs if arrs is not None else {}, ver
    def copy(self): return MO(self.info, dict(self.cells), dict(self.arrs), self.ver)

class ObjInfo:
    def __init__(self, oid, name, size, kind, glob=None, volatile_init=None):
        self.oid, self.name, self.size, self.kind, self.glob = oid, name, size, kind, glob
        self.data = None

class St:
    __slots__ = ("env", "mem", "fld", "M", "clk", "loops", "its", "events", "ghosts", "trail", "depth", "aux")
    def __init__(self):
        self.env, self.mem, self.fld, self.M = {}, {}, {}, {}
        self.clk = None; self.loops = (); self.its = (); self.events = (); self.ghosts = {}; self.trail = (); self.depth = 0
        self.aux = {}
    def copy(self):
        s = St()
        s.env, s.mem, s.fld, s.M = dict(self.env), dict(self.mem), dict(self.fld), dict(self.M)
        s.clk, s.loops, s.its, s.events, s.ghosts, s.trail, s.depth = self.clk, self.loops, self.its, self.events, dict(self.ghosts), self.trail, self.depth
        s.aux = dict(self.aux)
        return s

class LoopCtx:
    __slots__ = ("fr", "header", "blocks", "dry", "back", "gid", "writes", "name")

class Frame:
    __slots__ = ("fn", "k", "id")
    _n = itertools.count()
    def __init__(self, fn, k): self.fn, self.k, self.id = fn, k, next(Frame._n)

FIELD_SORT = dict(int=64, char=32, car=64, cdr=64, symname=64, vcell=64, str=64, strlen=64, vec=64, veclen=64,
    mutable=32, functype=32, cfunc=64, exp=64, env=64, portflag=32, portimpl=64, contopaque=64, conttag=64,
    values=64, cptr=64, cfptr=64, hrules=64, henv=64, fsym=64, fenv=64, spobj=64, spmeta=64, marked=32,
    freenext=64, freeslot=64)
# which object type each field accessor requires
FIELD_TYPE = dict(int="ScmInt", char="ScmChar", car="ScmCons", cdr="ScmCons", symname="ScmSymbol", vcell="ScmSymbol",
    str="ScmString", strlen="ScmString", vec="ScmVector", veclen="ScmVector", functype="ScmFunc", cfunc="ScmFunc",
    exp="ScmClosure", env="ScmClosure", portflag="ScmPort", portimpl="ScmPort", contopaque="ScmContinuation",
    conttag="ScmContinuation", values="ScmValuePacket", cptr="ScmCPointer", cfptr="ScmCFuncPointer",
    hrules="ScmMacro", henv="ScmMacro", fsym="ScmFarsymbol", fenv="ScmFarsymbol", spobj="ScmSubpat", spmeta="ScmSubpat",
    freenext="ScmFreeCell", freeslot="ScmFreeCell")
OBJ_FIELDS = {"car", "cdr", "vcell", "exp", "env", "values", "hrules", "fsym", "spobj", "freenext"}
PTR_FIELDS = {"symname", "str", "vec", "cfunc", "portimpl", "contopaque", "cptr", "cfptr"}

def is_num(e): return z3.is_bv_value(e)
def simp(e): return z3.simplify(e)

BSIZE = z3.Function("BSIZE", BV64, BV64)      # size of a heap block
class Engine:
    def __init__(self, module, prop, tag, variant="compact", timeout=10000):
        self.m, self.prop, self.tag, self.variant = module, prop, tag, variant
        self.s = z3.Solver(); self.s.set("timeout", min(timeout, FIRST))
        self.to = timeout
        self.obls, self.order = {}, []
        self.dry = 0
        self.cnt = itertools.count()
        self.objs = {}; self.globobj = {}; self.fnaddr = {}; self.addrfn = {}
        self.uinv = {}           # id of root array const -> [fn(index) -> fact]
        self.rootver = {}        # array const name -> version root
        self.wlogs = []
        self.contracts = {}; self.handlers = {}
        self.errh = None
        self.unroll = {}         # (fn, loopname) -> bound
        self.uchain = []         # (root, base, fn(index)): universal facts about list positions
        self.ends = []           # bounds on iteration counts: functions of the loop counter
        self.cands = []          # spec-supplied loop candidates
        self.js = []             # skolem indices
        self.inlined, self.vcs = set(), 0
        self.secs = 0.0
        self.policy_types = True # emit type obligations on accessors
        self.c = {}
        for n, g in module.globals.items():
            if n.startswith("vc_"):
                self.c[n[3:]] = g.init[1] if g.init[0] == 'int' else 0
        import libc, sal
        sal.install(self); libc.install(self)
        self.recursion = {}
        self.maxpaths = 20000; self.paths = 0
        self.deadline = None
        self.arrdef = {}
        self.loopinfo = {}
        self.failed_models = []
        self.aftercall = None
        self.chainroots = {}
        self.unroll_all = None; self.unroll_nest = None; self.unroll_flat = None; self.unroll_on = None; self.loophook = None; self.keep = []; self.oldroots = []
        self.const_axioms()

    # ---------- symbols
    def sym(self, name, w=64):
        return z3.BitVec("%s!%d" % (name, next(self.cnt)), w)
    def symarr(self, name, w=64):
        return z3.Array("%s!%d" % (name, next(self.cnt)), BV64, z3.BitVecSort(w))
    def K(self, n): return B(self.c[n] & (1 << 64) - 1)
    def ty(self, name): return B(self.c[name] & 0xffffffff, 32)
    def const_axioms(self):
        for n in ("SCM_NULL", "SCM_TRUE", "SCM_FALSE", "SCM_EOF", "SCM_UNBOUND", "SCM_UNDEF"):
            self.s.add(AGE(self.K(n)) == 0, TYPE(self.K(n)) == self.ty("ScmConstant"))
        if self.c.get("SCM_INVALID") is not None:
            self.s.add(AGE(self.K("SCM_INVALID")) == 0)
            if all(self.c["SCM_INVALID"] != self.c[n] for n in ("SCM_NULL", "SCM_TRUE", "SCM_FALSE", "SCM_EOF", "SCM_UNBOUND", "SCM_UNDEF")):
                self.s.add(TYPE(self.K("SCM_INVALID")) == B(0xdead, 32))

    # ---------- solver
    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget exhausted in %s" % self.tag)
    def assume(self, f):
        if f is None or z3.is_true(f): return
        self.s.add(f)
    def check(self, *extra):
        self.tick()
        t = time.time()
        self.s.push()
        for e in extra: self.s.add(e)
        r = self.s.check()
        if r == z3.unknown: r = cvc5_second(self.s, 3000)
        self.s.pop()
        self.secs += time.time() - t
        return r
    def valid(self, f):
        """is f entailed on this path? (used for inference, not verdicts)"""
        f = simp(f)
        if z3.is_true(f): return True
        if z3.is_false(f) : return self.check() == z3.unsat
        return self.check(z3.Not(f)) == z3.unsat
    def feasible(self, c=None):
        return self.check(*([c] if c is not None else [])) != z3.unsat
    def prove(self, name, f, kind="post", detail=""):
        """an obligation: must hold on this path"""
        if self.dry:
            self.assume(f); return True
        self.tick()
        self.vcs += 1
        full = "%s/%s: %s" % (self.prop, self.tag, name)
        f = simp(f)
        o = self.obls.get(full)
        if o is None:
            o = self.obls[full] = Obl(full, True, "", "irv-z3", 0.0, None, kind); self.order.append(full)
        if z3.is_true(f): return True
        t = time.time()
        self.s.push(); self.s.add(z3.Not(f))
        r = self.s.check()
        mod = self.s.model() if r == z3.sat else None
        if r == z3.unknown:
            r = cvc5_second(self.s, self.to)
            if r == z3.unsat: o.backend = "irv-cvc5"
        if r == z3.unknown:
            s2 = z3.Solver(); s2.set("timeout", self.to * 2)
            s2.add(*self.s.assertions())
            r = s2.check()
            if r == z3.sat: mod = s2.model()
        self.s.pop()
        dt = time.time() - t; o.secs += dt; self.secs += dt
        if r != z3.unsat:
            if o.ok is True or (o.ok is None and r == z3.sat):
                o.ok = False if r == z3.sat else None
                o.detail = detail or ("path: " + " ".join(map(str, self.trail(self.cur)[-25:])) if self.cur else "")
                if mod is not None:
                    o.cex = self.render(mod)
                    self.failed_models.append((full, mod))
            if z3.is_false(f): return False
        self.assume(f)
        return r == z3.unsat
    cur = None
    def trail(self, st): return st.trail if st else ()
    def render(self, mod):
        out = []
        for d in mod.decls()[:60]:
            if d.arity() == 0 and z3.is_bv_value(mod[d]) : out.append("%s=%s" % (d.name(), mod[d]))
        return ", ".join(sorted(out))[:1500]

    # ---------- objects & pointers
    def newobj(self, name, size, kind, glob=None):
        oid = len(self.objs) + 1
        self.objs[oid] = ObjInfo(oid, name, size, kind, glob)
        return oid
    def bv(self, v):
        if isinstance(v, P):
            if v.kind == 'null': return B(0)
            if v.kind == 'obj':
                return simp(B(OBJBASE + (v.base << OBJSH)) + (B(v.off) if isinstance(v.off, int) else v.off))
            if v.kind == 'raw':
                if isinstance(v.off, int) and v.off == 0: return v.base
                return simp(v.base + (B(v.off) if isinstance(v.off, int) else v.off))
            if v.kind == 'car': return REFCAR(v.base)
            if v.kind == 'cdr': return REFCDR(v.base)
            if v.kind == 'fn':
                if v.base not in self.fnaddr:
                    a = FNBASE + 16 * len(self.fnaddr)
                    self.fnaddr[v.base] = a; self.addrfn[a] = v.base
                return B(self.fnaddr[v.base])
            if v.kind == 'ite':
                c, a, b = v.base
                return z3.If(c, self.bv(a), self.bv(b))
        return v
    def ptr(self, e):
        """BV64 -> pointer value"""
        if isinstance(e, P): return e
        e = simp(e)
        if is_num(e):
            n = e.as_long()
            if n == 0: return NULLP
            if n in self.addrfn: return P('fn', self.addrfn[n])
            oid = (n - OBJBASE) >> OBJSH
            if n >= OBJBASE and oid in self.objs: return P('obj', oid, (n - OBJBASE) & ((1 << OBJSH) - 1))
            return P('raw', e, 0)
        if e.decl().name() == "REFCAR": return P('car', e.arg(0))
        if e.decl().name() == "REFCDR": return P('cdr', e.arg(0))
        if z3.is_app_of(e, z3.Z3_OP_BADD):
            ks = [a for a in e.children() if is_num(a)]
            rs = [a for a in e.children() if not is_num(a)]
            if len(ks) == 1:
                n = ks[0].as_long(); oid = (n - OBJBASE) >> OBJSH
                if n >= OBJBASE and oid in self.objs:
                    off = rs[0]
                    for r in rs[1:]: off = off + r
                    return P('obj', oid, simp(off + B((n - OBJBASE) & ((1 << OBJSH) - 1))))
            for b in rs:
                if b.get_id() in self.rawbases:
                    return P('raw', b, simp(e - b))
        return P('raw', e, 0)
    rawbases = {}
    def gobj(self, unit, name, st):
        g = unit.glob(name)
        if g is None:
            raise Unsupported("global " + name)
        key = (g.unit.file if g.local else "", name)
        if key not in self.globobj:
            oid = self.newobj(name, g.unit.size(g.ty), 'glob', g)
            if g.const and g.defined:
                self.objs[oid].data = self.const_data(g)
            self.globobj[key] = oid
        oid = self.globobj[key]
        return P('obj', oid, 0)
    def const_data(self, g):
        out = {}
        def put(off, t, v):
            t = g.unit.resolve(t)
            if v[0] in ('zero', 'undef'):
                if isinstance(t, tuple) and t[0] == 'arr':
                    if g.unit.resolve(t[2]) == ('i', 8):
                        out[('z', off)] = t[1]; 
                        for k in range(min(t[1], 4096)): out[off + k] = (8, B(0, 8))
                        return
                    for k in range(min(t[1], 512)): put(off + k * g.unit.size(t[2]), t[2], ('zero',))
                elif isinstance(t, tuple) and t[0] == 'st':
                    for k in range(len(t[1])):
                        o, ft = g.unit.field(t, k); put(off + o, ft, ('zero',))
                elif t == 'ptr': out[off] = (64, NULLP)
                elif isinstance(t, tuple) and t[0] == 'i': out[off] = (max(8, t[1]), B(0, max(8, t[1])))
                return
            if v[0] == 'str':
                for k, c in enumerate(v[1]): out[off + k] = (8, B(c, 8))
            elif v[0] == 'int': out[off] = (max(8, t[1]), B(v[1], max(8, t[1])))
            elif v[0] == 'null': out[off] = (64, NULLP)
            elif v[0] == 'glob': out[off] = (64, ('lazy', v[1]))
            elif v[0] == 'agg':
                if t[0] == 'arr':
                    es = g.unit.size(t[2])
                    for k, (tt, vv) in enumerate(v[1]): put(off + k * es, tt, vv)
                else:
                    for k, (tt, vv) in enumerate(v[1]):
                        o, _ = g.unit.field(t, k); put(off + o, tt, vv)
            elif v[0] == 'gep': out[off] = (64, ('lazyv', v))
        put(0, g.ty, g.init)
        return out
    def fnptr(self, fn): return P('fn', fn)

    def val(self, fr, st, ty, v):
        k = v[0]
        if k == 'loc':
            r = st.env.get(v[1])
            if r is None:
                if v[1] not in st.env: raise Unsupported("undefined local %" + v[1])
                return self.undef(fr.fn.mod, ty)
            return r
        if k == 'int':
            t = fr.fn.mod.resolve(ty)
            if t == ('i', 1): return z3.BoolVal(bool(v[1]))
            return B(v[1] & ((1 << t[1]) - 1), t[1])
        if k == 'null': return NULLP
        if k in ('undef',): return self.undef(fr.fn.mod, ty)
        if k == 'zero':
            t = fr.fn.mod.resolve(ty)
            if t == 'ptr': return NULLP
            if t[0] == 'i': return B(0, t[1]) if t[1] > 1 else z3.BoolVal(False)
            return ('zeroagg', t)
        if k == 'glob': return self.globval(fr.fn.mod, v[1], st)
        if k == 'gep':
            return self.gep(fr, st, v[1], v[2])
        if k == 'cast':
            x = self.val(fr, st, v[2], v[3])
            if v[1] == 'ptrtoint': return self.bv(x)
            if v[1] == 'inttoptr': return self.ptr(x)
            return x
        raise Unsupported("operand " + str(v))
    def globval(self, unit, name, st):
        f = unit.find(name)
        if f is not None: return P('fn', f)
        if name in unit.decl and unit.globs.get(name) is None: return P('fn', name)
        return self.gobj(unit, name, st)
    def undef(self, unit, ty):
        t = unit.resolve(ty) if not isinstance(ty, str) or ty != 'ptr' else 'ptr'
        if t == 'ptr': return P('raw', self.sym("undefp"), 0)
        if t == ('i', 1): return z3.Bool("undef!%d" % next(self.cnt))
        if t[0] == 'i': return self.sym("undef", t[1])
        if t[0] == 'st': return [self.undef(unit, x) for x in t[1]]
        raise Unsupported("undef type")

    # ---------- memory
    def mo(self, st, oid, write=False):
        m = st.mem.get(oid)
        if m is None:
            m = MO(self.objs[oid])
            st.mem[oid] = m
        if write:
            m = m.copy(); st.mem[oid] = m
        return m
    def initcell(self, info, off, w, ver):
        """initial content of a cell which has not been written"""
        key = (info.oid, off, w, ver)
        c = self.arrdef.get(key)
        if c is None:
            c = self.sym("%s+%d.v%d" % (info.name, off, ver), w)
            self.arrdef[key] = c
        return c
    def wkey(self, *key):
        for l in self.wlogs: l.add(key)
    def load(self, fr, st, p, ty, unit):
        t = unit.resolve(ty)
        w = 64 if t == 'ptr' else max(8, t[1])
        if p.kind == 'ite':
            raise Unsupported("load through merged pointer")
        if p.kind == 'null':
            self.prove("null dereference", z3.BoolVal(False), "safety"); return self.undef(unit, ty)
        if p.kind == 'obj':
            info = self.objs[p.base]
            off = p.off
            if not isinstance(off, int):
                off = simp(off)
                if is_num(off): off = off.as_long()
            if info.data is not None:
                return self.constload(fr, st, info, off, w, t)
            m = self.mo(st, p.base)
            if isinstance(off, int) and w not in m.arrs:
                if info.size is not None and not (0 <= off and off + w // 8 <= info.size):
                    self.prove("in-bounds load of %s" % info.name, z3.BoolVal(False), "safety")
                c = m.cells.get(off)
                if c is None:
                    v = self.initcell(info, off, w, m.ver)
                    m.cells[off] = (w, v)    # caching only
                else:
                    cw, v = c
                    if cw != w:
                        v = self.pun(m, off, cw, v, w)
            else:
                o = B(off) if isinstance(off, int) else off
                if info.size is not None:
                    self.prove("in-bounds access of %s in %s" % (info.name, fr.fn.name), z3.And(z3.ULE(o, B(info.size - w // 8))), "safety")
                v = z3.Select(self.objarr(st, p.base, w), o)
                v = self.asel(self.objarr(st, p.base, w), o)
        elif p.kind == 'raw':
            v = self.mload(st, w, p.base, p.off)
        elif p.kind in ('car', 'cdr'):
            v = self.getf(st, p.kind, p.base)
        else:
            raise Unsupported("load via %s" % p.kind)
        return self.typed(v, t)
    def typed(self, v, t):
        if t == 'ptr': return self.ptr(v) if not isinstance(v, P) else v
        if isinstance(v, P): v = self.bv(v)
        if t == ('i', 1): return v != 0 if not z3.is_bool(v) else v
        if v.size() > t[1]: return z3.Extract(t[1] - 1, 0, v)
        return v
    def pun(self, m, off, cw, v, w):
        if cw > w:
            if isinstance(v, P): v = self.bv(v)
            return z3.Extract(w - 1, 0, v)
        raise Unsupported("mixed-width access")
    def constload(self, fr, st, info, off, w, t):
        if isinstance(off, int):
            c = info.data.get(off)
            if c is None: raise Unsupported("constant load %s+%d" % (info.name, off))
            cw, v = c
            if isinstance(v, tuple) and v[0] == 'lazy': v = self.globval(info.glob.unit, v[1], st)
            elif isinstance(v, tuple) and v[0] == 'lazyv':
                class F: pass
                f = Frame(type("X", (), dict(mod=info.glob.unit, name="const"))(), None)
                v = self.val(f, st, 'ptr', v[1])
            if cw != w and not isinstance(v, P):
                if w < cw: v = z3.Extract(w - 1, 0, v)
                else: raise Unsupported("constant width")
            return self.typed(v, t)
        a = self.arrdef.get(('cd', info.oid, w))
        if a is None:
            a = self.symarr("const_" + info.name, w); self.arrdef[('cd', info.oid, w)] = a
        # table lookup: instantiate the table
        n = 0
        res = None
        items = sorted((k, v) for k, v in info.data.items() if isinstance(k, int) and v[0] == w)
        if len(items) > 600: raise Unsupported("large constant table")
        self.prove("in-bounds access of %s in %s" % (info.name, fr.fn.name), z3.ULE(off, B(info.size - w // 8)), "safety")
        v = z3.Select(a, off)
        for k, (cw, x) in items:
            if isinstance(x, tuple): x = self.globval(info.glob.unit, x[1], st) if x[0] == 'lazy' else x
            if isinstance(x, P): x = self.bv(x)
            if isinstance(x, tuple): continue
            v = z3.If(off == B(k), x, v)
        return self.typed(v, t)
    def objarr(self, st, oid, w, write=False):
        m = self.mo(st, oid)
        if w not in m.arrs:
            m = self.mo(st, oid, True)
            a = self.symarr("%s.w%d" % (m.info.name, w), w)
            for off, (cw, v) in sorted(m.cells.items()):
                if cw == w:
                    a = z3.Store(a, B(off), self.bv(v)); 
            m.cells = {o: c for o, c in m.cells.items() if c[0] != w}
            m.arrs[w] = a
        return m.arrs[w]
    def store(self, fr, st, p, v, ty, unit):
        t = unit.resolve(ty)
        w = 64 if t == 'ptr' else max(8, t[1])
        if z3.is_expr(v) and z3.is_bool(v): v = z3.If(v, B(1, 8), B(0, 8))
        if p.kind == 'null':
            self.prove("null dereference", z3.BoolVal(False), "safety"); return
        if p.kind == 'obj':
            info = self.objs[p.base]
            off = p.off
            if not isinstance(off, int):
                off = simp(off)
                if is_num(off): off = off.as_long()
            m = self.mo(st, p.base, True)
            if info.data is not None: raise Unsupported("store to constant")
            if isinstance(off, int) and w not in m.arrs:
                if info.size is not None and not (0 <= off and off + w // 8 <= info.size):
                    self.prove("in-bounds store to %s" % info.name, z3.BoolVal(False), "safety"); return
                for o in range(off - 7, off + w // 8):
                    c = m.cells.get(o)
                    if c and o != off and o + c[0] // 8 > off: del m.cells[o]
                m.cells[off] = (w, v)
                self.wkey('c', p.base, off, w)
            else:
                o = B(off) if isinstance(off, int) else off
                if info.size is not None:
                    self.prove("in-bounds access of %s in %s" % (info.name, fr.fn.name), z3.ULE(o, B(info.size - w // 8)), "safety")
                a = self.objarr(st, p.base, w)
                m = self.mo(st, p.base, True)
                m.arrs[w] = z3.Store(a, o, self.bv(v))
                self.wkey('o', p.base, w)
        elif p.kind == 'raw':
            self.mstore(st, w, p.base, p.off, self.bv(v))
        elif p.kind in ('car', 'cdr'):
            self.setf(st, p.kind, p.base, v)
        else:
            raise Unsupported("store via %s" % p.kind)
    # raw (heap block) memory: w -> Array(base -> Array(off -> BVw))
    def marr(self, st, w):
        a = st.M.get(w)
        if a is None:
            a = self.arrdef.get(('M', w))
            if a is None:
                a = z3.Array("M%d" % w, BV64, z3.ArraySort(BV64, z3.BitVecSort(w))); self.arrdef[('M', w)] = a
            st.M[w] = a
        return a
    memhook = None
    def mload(self, st, w, base, off):
        o = B(off) if isinstance(off, int) else off
        if self.memhook: self.memhook(self, st, base, o, w, False)
        a = self.marr(st, w)
        return self.msel(a, base, o, w)
    def mstore(self, st, w, base, off, v):
        o = B(off) if isinstance(off, int) else off
        if self.memhook: self.memhook(self, st, base, o, w, True)
        a = self.marr(st, w)
        st.M[w] = z3.Store(a, base, z3.Store(self.asel(a, base), o, v))
        self.wkey('M', w)
    def msel(self, a, base, o, w):
        row = self.asel(a, base)
        v = z3.Select(row, o)
        self.inst_m(a, base, o, w)
        return v
    def inst_m(self, a, base, o, w, seen=None):
        for r in self.roots(a):
            for fn in self.uinv.get(("M", r.get_id()), ()):
                key = (r.get_id(), base.get_id(), o.get_id(), id(fn))
                if key in self.inst_active: continue
                self.inst_active.add(key)
                try: self.assume(fn(base, o))
                finally: self.inst_active.discard(key)
    inst_active = set()
    def roots(self, a):
        """root array constants below stores/ites"""
        out, st, seen = [], [a], set()
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_STORE): st.append(x.arg(0))
            elif z3.is_app_of(x, z3.Z3_OP_ITE): st += [x.arg(1), x.arg(2)]
            elif z3.is_app_of(x, z3.Z3_OP_SELECT): st.append(x.arg(0))
            elif x.num_args() == 0: out.append(x)
        return out
    def asel(self, a, i):
        """select with lazy instantiation of the universally quantified invariants on its roots"""
        v = z3.Select(a, i)
        for r in self.roots(a):
            for fn in self.uinv.get(r.get_id(), ()):
                key = (r.get_id(), i.get_id(), id(fn))
                if key in self.inst_active: continue
                self.inst_active.add(key)
                try: self.assume(fn(i))
                finally: self.inst_active.discard(key)
        return v

    def rsel(self, a, i):
        """select, with the stores decided on this path resolved"""
        while True:
            if z3.is_app_of(a, z3.Z3_OP_STORE):
                j = a.arg(1)
                if j.eq(i) or self.valid(i == j): return a.arg(2)
                if not self.valid(i != j): break
                a = a.arg(0)
            else: break
        return self.asel(a, i)
    # ---------- SAL fields
    def fld(self, st, f):
        a = st.fld.get(f)
        if a is None:
            a = self.arrdef.get(('f', f))
            if a is None:
                a = z3.Array(f + "0", BV64, z3.BitVecSort(FIELD_SORT[f])); self.arrdef[('f', f)] = a
            st.fld[f] = a
        return a
    def fld0(self, f):
        return self.fld(St(), f)
    def chainf(self, root):
        n = "CHAIN@" + root.decl().name()
        if n not in self.chainroots: self.chainroots[n] = [root]
        return z3.Function(n, BV64, BV64, BV64)
    def chain(self, st_or_root, e, k):
        """k-th cdr of e in the heap whose cdr array has this root"""
        root = st_or_root
        k = simp(k) if z3.is_expr(k) else B(k)
        if z3.is_app(e) and e.decl().name() == "CHAIN@" + root.decl().name():
            k = simp(e.arg(1) + k); e = e.arg(0)
        if is_num(k) and k.as_long() == 0: return e
        return self.chainf(root)(e, k)
    def chain_ax(self, root, e, k):
        """facts about CHAIN(e,k) and its successor (root array)"""
        c = self.chain(root, e, k)
        if z3.is_app(e) and e.decl().name() == "CHAIN@" + root.decl().name():
            k = simp(e.arg(1) + k); e = e.arg(0)
        f = self.chainf(root)
        k = simp(k) if z3.is_expr(k) else B(k)
        fs = [f(e, B(0)) == e]
        nx = self.chain(root, e, simp(k + 1))
        fs.append(z3.Implies(TYPE(c) == self.ty("ScmCons"), nx == self.asel(root, c)))
        for r, b, fn in self.uchain:
            if r.eq(root) and b.eq(e): fs.append(fn(k))
        return fs
    def root_cdr(self, st):
        a = self.fld(st, 'cdr')
        rs = self.roots(a)
        r = rs[0]
        while r.decl().name() in self.rootver: r = self.rootver[r.decl().name()]
        return r
    canon = ()
    def getf(self, st, f, o):
        return self.canonical(f, self.getf0(st, f, o))
    def canonical(self, f, v):
        """the name the contract gives to this value, if any"""
        for g, t in self.canon:
            if g == f and not v.eq(t) and self.valid(v == t): return t
        return v
    def getf0(self, st, f, o):
        a = self.fld(st, f)
        if f == 'cdr':
            root = self.root_cdr(st)
            isch = z3.is_app(o) and (o.decl().name() == "CHAIN@" + root.decl().name() or o.num_args() == 0 and not is_num(o)
                                     or (z3.is_app_of(o, z3.Z3_OP_SELECT)))
            if isch:
                self.chain_facts(root, o)
                c = self.chain(root, o, B(1))
                self.chain_facts(root, c)
                v = self.asel(a, o)
                if a.eq(root):
                    self.assume(c == v)
                    self.wf(st, c); return c
                self.asel(root, o)
                if self.valid(v == c):
                    self.assume(v == c); self.wf(st, c); return c
                self.wf(st, v); return v
        v = self.asel(a, o)
        if f in OBJ_FIELDS or f in PTR_FIELDS: self.wf(st, v)
        return v
    def chain_facts(self, root, o):
        if z3.is_app(o) and o.decl().name() == "CHAIN@" + root.decl().name():
            e, k = o.arg(0), o.arg(1)
        else: e, k = o, B(0)
        for f in self.chain_ax(root, e, k): self.assume(f)
    def wf(self, st, v):
        """closedness of the heap: loaded objects and blocks already exist"""
        self.assume(z3.And(AGE(v) <= st.clk, AGE(v) >= 0))
    def setf(self, st, f, o, v):
        v = self.bv(v)
        a = self.fld(st, f)
        st.fld[f] = z3.Store(a, o, v)
        self.wkey('f', f)
        if self.sethook: self.sethook(self, st, f, o, v)
    sethook = None
    def alloc(self, st, tyname, hint="new", **fields):
        o = self.sym(hint)
        nclk = z3.Int("clk!%d" % next(self.cnt))
        self.assume(nclk == st.clk + 1)
        st.clk = nclk
        self.assume(AGE(o) == nclk)
        self.assume(TYPE(o) == self.ty(tyname))
        self.wkey('clk')
        for f, v in fields.items():
            a = self.fld(st, f)
            st.fld[f] = z3.Store(a, o, self.bv(v)); self.wkey('f', f)
        g = next((l.gid for l in reversed(st.loops) if l.gid[0] == 'g'), None)     # unwound loops have no log
        if g is not None:
            arr, na, last = st.ghosts[g]
            st.ghosts[g] = (z3.Store(arr, na, o), simp(na + 1), (o, fields))
            st.aux[("allocs", g)] = st.aux.get(("allocs", g), ()) + ((o, tyname, fields),)
        return o
    def newblock(self, st, size, hint="blk"):
        b = self.sym(hint)
        nclk = z3.Int("clk!%d" % next(self.cnt))
        self.assume(nclk == st.clk + 1); st.clk = nclk
        self.assume(AGE(b) == nclk); self.assume(b != 0)
        self.wkey('clk')
        self.rawbases[b.get_id()] = b
        st.aux[("size", b.get_id())] = size
        self.assume(BSIZE(b) == size)
        return b

    # ---------- execution
    def gep(self, fr, st, ty, ops):
        unit = fr.fn.mod
        p = self.val(fr, st, ops[0][0], ops[0][1])
        if not isinstance(p, P): p = self.ptr(p)
        off = 0
        def add(off, ix, scale):
            if is_num(ix):
                n = ix.as_long()
                if n >= 1 << (ix.size() - 1): n -= 1 << ix.size()
                if isinstance(off, int): return off + n * scale
                return simp(off + B((n * scale) & ((1 << 64) - 1)))
            if ix.size() < 64: ix = z3.SignExt(64 - ix.size(), ix)
            e = ix * B(scale) if scale != 1 else ix
            return simp((B(off & ((1 << 64) - 1)) if isinstance(off, int) else off) + e)
        t = ty
        ix = self.val(fr, st, ops[1][0], ops[1][1])
        off = add(off, simp(ix), unit.size(t) if not (is_num(simp(ix)) and simp(ix).as_long() == 0) else 0)
        for tt, v in ops[2:]:
            rt = unit.resolve(t)
            if rt[0] == 'st':
                o, ft = unit.field(rt, v[1]); off = off + o if isinstance(off, int) else simp(off + B(o)); t = ft
            else:
                ix = simp(self.val(fr, st, tt, v)); off = add(off, ix, unit.size(rt[2])); t = rt[2]
        return self.padd(p, off)
    def padd(self, p, off):
        if isinstance(off, int) and off == 0: return p
        if p.kind in ('obj', 'raw'):
            if isinstance(p.off, int) and isinstance(off, int): return P(p.kind, p.base, p.off + off)
            a = B(p.off & ((1 << 64) - 1)) if isinstance(p.off, int) else p.off
            b = B(off & ((1 << 64) - 1)) if isinstance(off, int) else off
            o = simp(a + b)
            if is_num(o):
                n = o.as_long(); o = n - (1 << 64) if n >= 1 << 63 else n
            return P(p.kind, p.base, o)
        if p.kind == 'null': return self.ptr(B(off) if isinstance(off, int) else off)
        if p.kind == 'ite':
            c, a, b = p.base
            return P('ite', (c, self.padd(a, off), self.padd(b, off)))
        raise Unsupported("gep on %s" % p.kind)

    def call_fn(self, fn, args, st, k):
        """inline"""
        key = fn.name
        d = st.depth
        if d > 40: raise Unsupported("inline depth at " + fn.name)
        rec = st.aux.get(("rec", key), 0)
        if rec >= 1: raise Unsupported("recursion without contract: " + fn.name)
        self.inlined.add(fn.name)
        saved = st.env
        st.env = {}
        st.depth = d + 1
        st.aux[("rec", key)] = rec + 1
        if len(args) < len(fn.params): raise Unsupported("arity of " + fn.name)
        for (t, n), v in zip(fn.params, args): st.env[n] = v
        fn.blocks
        def kk(st2, v):
            st2.env = saved if st2 is st else dict(saved)
            st2.env = dict(saved)
            st2.depth = d
            st2.aux[("rec", key)] = rec
            k(st2, v)
        fr = Frame(fn, kk)
        self.block(fr, fn.entry, 0, st)
    def block(self, fr, lab, idx, st):
        ins = fr.fn.blocks[lab]
        n = len(ins)
        mod = fr.fn.mod
        while idx < n:
            i = ins[idx]; idx += 1
            op = i.op
            if op == 'phi': continue
            if op == 'call':
                if self.do_call(fr, lab, idx, i, st): return
                continue
            if op == 'br':
                if i.dbg: st.trail = st.trail + (mod.line(i.dbg),)
                if len(i.a) == 1: return self.goto(fr, lab, i.a[0], st)
                c = self.val(fr, st, ('i', 1), i.a[0])
                return self.branch(st, c, lambda s: self.goto(fr, lab, i.a[1], s), lambda s: self.goto(fr, lab, i.a[2], s))
            if op == 'switch':
                (t, v), d, cs = i.a
                x = simp(self.val(fr, st, t, v))
                return self.do_switch(fr, lab, st, x, d, cs)
            if op == 'ret':
                for c in st.loops:
                    if c.fr is fr and c.dry: return
                keep = tuple(c for c in st.loops if c.fr is not fr)
                st.loops = keep
                v = None if i.a[0] is None else self.val(fr, st, i.ty, i.a[0])
                return fr.k(st, v)
            if op == 'unreachable':
                self.prove("unreachable point not reached in %s" % fr.fn.name, z3.BoolVal(False), "safety")
                return
            if op == 'select':
                c = simp(self.val(fr, st, ('i', 1), i.a[0][1]))
                a = lambda s: self.val(fr, s, i.ty, i.a[1][1])
                b = lambda s: self.val(fr, s, i.ty, i.a[2][1])
                if z3.is_true(c): st.env[i.res] = a(st); continue
                if z3.is_false(c): st.env[i.res] = b(st); continue
                x, y = a(st), b(st)
                if isinstance(x, P) or isinstance(y, P):
                    def go(f, idx=idx):
                        def g(s):
                            s.env[i.res] = f(s); self.block(fr, lab, idx, s)
                        return g
                    return self.branch(st, c, go(a), go(b))
                st.env[i.res] = simp(z3.If(c, x, y)); continue
            self.simple(fr, st, i, op, mod)
    def simple(self, fr, st, i, op, mod):
        if op == 'bin':
            o, a, b = i.a
            t = mod.resolve(i.ty)
            x, y = self.val(fr, st, t, a), self.val(fr, st, t, b)
            if isinstance(x, P): x = self.bv(x)
            if isinstance(y, P): y = self.bv(y)
            if t == ('i', 1):
                r = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[o](x, y)
            else:
                r = self.binop(fr, o, x, y)
            st.env[i.res] = simp(r)
        elif op == 'icmp':
            pr, a, b = i.a
            st.env[i.res] = self.icmp(fr, pr, self.val(fr, st, i.ty, a), self.val(fr, st, i.ty, b))
        elif op == 'zext' or op == 'sext':
            t, v = i.a
            x = self.val(fr, st, t, v); w = mod.resolve(i.ty)[1]
            if z3.is_bool(x):
                st.env[i.res] = simp(z3.If(x, B(1 if op == 'zext' else (1 << w) - 1, w), B(0, w)))
            else:
                d = w - x.size()
                st.env[i.res] = simp(z3.ZeroExt(d, x) if op == 'zext' else z3.SignExt(d, x))
        elif op == 'trunc':
            t, v = i.a
            x = self.val(fr, st, t, v); w = mod.resolve(i.ty)[1]
            if w == 1: st.env[i.res] = simp(z3.Extract(0, 0, x) == 1)
            else: st.env[i.res] = simp(z3.Extract(w - 1, 0, x))
        elif op == 'ptrtoint':
            t, v = i.a
            x = self.bv(self.val(fr, st, t, v)); w = mod.resolve(i.ty)[1]
            st.env[i.res] = x if w == 64 else z3.Extract(w - 1, 0, x)
        elif op == 'inttoptr':
            t, v = i.a
            st.env[i.res] = self.ptr(self.val(fr, st, t, v))
        elif op == 'bitcast':
            st.env[i.res] = self.val(fr, st, i.a[0], i.a[1])
        elif op == 'alloca':
            sz = mod.size(i.ty)
            n = self.val(fr, st, ('i', 32), i.a[0]) if i.a[0][0] != 'int' else i.a[0][1]
            if not isinstance(n, int): raise Unsupported("variable length array")
            st.env[i.res] = P('obj', self.newobj("%s.%s" % (fr.fn.name, i.res), sz * n, 'stack'), 0)
        elif op == 'load':
            (t, v), = i.a
            p = self.val(fr, st, 'ptr', v)
            if not isinstance(p, P): p = self.ptr(p)
            self.cur = st
            st.env[i.res] = self.load(fr, st, p, i.ty, mod)
        elif op == 'store':
            (t, v), (pt, pv) = i.a
            p = self.val(fr, st, 'ptr', pv)
            if not isinstance(p, P): p = self.ptr(p)
            self.cur = st
            self.store(fr, st, p, self.val(fr, st, t, v), t, mod)
        elif op == 'gep':
            st.env[i.res] = self.gep(fr, st, i.ty, i.a[0])
        elif op == 'extractvalue':
            (t, v), k = i.a
            x = self.val(fr, st, t, v)
            st.env[i.res] = x[k]
        elif op == 'insertvalue':
            (t, v), (t2, v2), k = i.a
            x = self.val(fr, st, t, v)
            if isinstance(x, tuple): x = [None] * len(x[1][1])
            x = list(x); x[k] = self.val(fr, st, t2, v2)
            st.env[i.res] = x
        elif op == 'freeze':
            st.env[i.res] = self.val(fr, st, i.a[0][0], i.a[0][1])
        else:
            raise Unsupported("instruction %s in %s" % (i.a[0] if i.a else op, fr.fn.name))
    def binop(self, fr, o, x, y):
        if o == 'add': return x + y
        if o == 'sub': return x - y
        if o == 'mul': return x * y
        if o == 'and': return x & y
        if o == 'or': return x | y
        if o == 'xor': return x ^ y
        if o == 'shl': return x << y
        if o == 'lshr': return z3.LShR(x, y)
        if o == 'ashr': return x >> y
        w = x.size()
        self.prove("division by zero in %s" % fr.fn.name, y != 0, "safety")
        if o in ('sdiv', 'srem'):
            self.prove("division overflow in %s" % fr.fn.name,
                       z3.Not(z3.And(x == B(1 << (w - 1), w), y == B((1 << w) - 1, w))), "safety")
            return x / y if o == 'sdiv' else z3.SRem(x, y)
        return z3.UDiv(x, y) if o == 'udiv' else z3.URem(x, y)
    def icmp(self, fr, pr, x, y):
        if isinstance(x, P) or isinstance(y, P):
            if not isinstance(x, P): x = self.ptr(x)
            if not isinstance(y, P): y = self.ptr(y)
            same = x.kind == y.kind and x.kind in ('obj', 'raw') and (x.base == y.base if x.kind == 'obj' else x.base.eq(y.base))
            if same:
                a = B(x.off & ((1 << 64) - 1)) if isinstance(x.off, int) else x.off
                b = B(y.off & ((1 << 64) - 1)) if isinstance(y.off, int) else y.off
                r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: a < b, 'ule': lambda: a <= b,
                     'ugt': lambda: a > b, 'uge': lambda: a >= b}[pr]()
                return simp(r)
            if pr in ('eq', 'ne'):
                r = None
                for p, q in ((x, y), (y, x)):
                    if p.kind in ('obj', 'fn', 'car', 'cdr') and q.kind == 'null': r = z3.BoolVal(False)
                    if p.kind == 'obj' and q.kind in ('obj', 'fn', 'car', 'cdr') and not (q.kind == 'obj' and q.base == p.base): r = z3.BoolVal(False)
                    if p.kind == 'raw' and q.kind == 'null' and p.base.get_id() in self.rawbases: r = z3.BoolVal(False)
                    if p.kind == 'raw' and q.kind == 'null' and not (isinstance(p.off, int) and p.off == 0): r = z3.BoolVal(False)
                if r is None: r = self.bv(x) == self.bv(y)
                r = simp(r)
                return r if pr == 'eq' else simp(z3.Not(r))
            x, y = self.bv(x), self.bv(y)
        if z3.is_bool(x):
            return simp(x == y if pr == 'eq' else x != y)
        f = {'eq': lambda: x == y, 'ne': lambda: x != y, 'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y,
             'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y)}[pr]
        return simp(f())
    def branch(self, st, c, kt, kf):
        c = simp(c)
        if z3.is_true(c): return kt(st)
        if z3.is_false(c): return kf(st)
        ft = self.feasible(c)
        ff = self.feasible(z3.Not(c)) if ft else True
        if ft and ff:
            self.paths += 1
            if self.paths > self.maxpaths: raise Unsupported("path explosion in %s" % self.tag)
        if ft:
            self.s.push(); self.s.add(c)
            kt(st.copy() if ff else st)
            self.s.pop()
        if ff:
            self.s.push(); self.s.add(z3.Not(c))
            kf(st)
            self.s.pop()
    def do_switch(self, fr, lab, st, x, d, cs):
        if is_num(x):
            for n, l in cs:
                if n & ((1 << x.size()) - 1) == x.as_long(): return self.goto(fr, lab, l, st)
            return self.goto(fr, lab, d, st)
        groups = {}
        for n, l in cs: groups.setdefault(l, []).append(x == B(n & ((1 << x.size()) - 1), x.size()))
        conds = [(z3.Or(*g), l) for l, g in groups.items()]
        conds.append((z3.And(*[z3.Not(c) for c, _ in conds]), d))
        for c, l in conds:
            if self.feasible(c):
                self.s.push(); self.s.add(c)
                self.goto(fr, lab, l, st.copy())
                self.s.pop()
    def openite(self, st):
        """condition of a merged pointer among the live values"""
        for v in list(st.env.values()) + [c[1] for oid, m in st.mem.items() if self.objs[oid].kind != 'glob' for c in m.cells.values()]:
            if isinstance(v, P) and v.kind == 'ite': return v.base[0]
        return None
    def resolve(self, st, c, val):
        def r(v):
            while isinstance(v, P) and v.kind == 'ite' and v.base[0].eq(c): v = v.base[1] if val else v.base[2]
            if z3.is_expr(v) and not is_num(v) and z3.is_app_of(v, z3.Z3_OP_ITE) and v.arg(0).eq(c): v = v.arg(1) if val else v.arg(2)
            return v
        for n in list(st.env): st.env[n] = r(st.env[n])
        for oid in list(st.mem):
            m = st.mem[oid]
            if self.objs[oid].kind == 'glob' or not m.cells: continue
            cells = {o: (w, r(v)) for o, (w, v) in m.cells.items()}
            if any(cells[o][1] is not m.cells[o][1] for o in cells):
                st.mem[oid] = MO(m.info, cells, dict(m.arrs), m.ver)
    def goto(self, fr, frm, to, st, left=False):
        while st.loops and st.loops[-1].fr is fr and to not in st.loops[-1].blocks:
            if st.loops[-1].dry: return
            st.loops = st.loops[:-1]
            left = True
        if left:
            c = self.openite(st)
            if c is not None:
                # merged pointers left by the loop: one path for each case
                def go(val):
                    def g(s):
                        self.resolve(s, c, val); self.goto(fr, frm, to, s, True)
                    return g
                return self.branch(st, c, go(True), go(False))
        ins = fr.fn.blocks[to]
        vals = []
        for i in ins:
            if i.op != 'phi': break
            v = i.a[0][frm]
            if v[0] == 'undef': vals.append((i, self.undef(fr.fn.mod, i.ty) if to in fr.fn.loops else None))
            else: vals.append((i, self.val(fr, st, i.ty, v)))
        top = st.loops[-1] if st.loops else None
        if top is not None and top.fr is fr and top.header == to:
            return top.back(st, vals)
        if to in fr.fn.loops:
            return self.loop(fr, to, vals, st)
        for i, v in vals: st.env[i.res] = v
        self.block(fr, to, 0, st)

    # ---------- calls
    def do_call(self, fr, lab, idx, i, st):
        """returns True if continuation was taken over"""
        cal, args = i.a
        mod = fr.fn.mod
        nxt = fr.fn.blocks[lab][idx] if idx < len(fr.fn.blocks[lab]) else None
        self.cur = st
        if cal[0] == 'glob':
            name = cal[1]
            if name.startswith("llvm."):
                return self.intrinsic(fr, lab, idx, i, st, name, args)
            target = mod.find(name) or name
        else:
            p = self.val(fr, st, 'ptr', cal)
            if not isinstance(p, P): p = self.ptr(p)
            if p.kind == 'fn': target = p.base; name = target if isinstance(target, str) else target.name
            else: target = None; name = "(indirect)"; ip = p
        av = [self.val(fr, st, t, v) for t, v in args]
        if i.dbg: st.trail = st.trail + (mod.line(i.dbg),)
        if nxt is not None and nxt.op == 'unreachable':
            return self.terminal(fr, st, name, av)
        def k(st2, v, idx=idx):
            if i.res is not None:
                st2.env[i.res] = v
            if self.aftercall: self.aftercall(self, st2, name, av, v)
            self.block(fr, lab, idx, st2)
        if target is None:
            h = self.handlers.get("(indirect)")
            if h is None: raise Unsupported("indirect call in %s" % fr.fn.name)
            self.callsite = (fr, i)
            h(self, st, [ip] + av, k, (fr, i))
            return True
        h = self.contracts.get(name) or self.handlers.get(name)
        if h is not None:
            r = h(self, st, av, k, (fr, i))
            if r is None: return True
            # direct result
            st.env[i.res] = r if i.res is not None else None
            if self.aftercall: self.aftercall(self, st, name, av, r)
            return False
        if isinstance(target, str):
            raise Unsupported("external function %s called from %s" % (target, fr.fn.name))
        self.call_fn(target, av, st, k)
        return True
    def terminal(self, fr, st, name, av):
        if name in ("abort", "__assert_fail", "exit"):
            self.prove("%s not reached in %s" % (name, fr.fn.name), z3.BoolVal(False), "safety"); return True
        self.paths_ended = True
        if self.dry: return True
        if self.errh: self.errh(st, name, av)
        return True
    def intrinsic(self, fr, lab, idx, i, st, name, args):
        av = None
        if name.startswith("llvm.dbg") or name.startswith("llvm.lifetime"): return False
        av = [self.val(fr, st, t, v) for t, v in args]
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            self.memcpy(fr, st, av[0], av[1], simp(av[2])); return False
        if name.startswith("llvm.memset"):
            self.memset(fr, st, av[0], av[1], simp(av[2])); return False
        if name.startswith("llvm.fshl"):
            x, y, z = av; w = x.size()
            zz = z3.URem(z, B(w, w))
            st.env[i.res] = simp(z3.Extract(2 * w - 1, w, z3.Concat(x, y) << z3.ZeroExt(w, zz))); return False
        if name.startswith("llvm.smul.with.overflow"):
            x, y = av
            st.env[i.res] = [x * y, z3.Not(z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)))]; return False
        raise Unsupported("intrinsic " + name)
    def memcpy(self, fr, st, d, s, n):
        if not is_num(n):
            h = self.handlers.get("memcpy")
            return h(self, st, [d, s, n], None, (fr, None))
        n = n.as_long()
        if d.kind == 'obj' and s.kind == 'obj' and isinstance(d.off, int) and isinstance(s.off, int):
            sm = self.mo(st, s.base)
            if self.objs[s.base].data is not None:
                cells = {o: (w, v if not isinstance(v, tuple) else self.globval(self.objs[s.base].glob.unit, v[1], st)) for o, (w, v) in self.objs[s.base].data.items() if isinstance(o, int)}
            else:
                cells = dict(sm.cells)
                if sm.arrs: raise Unsupported("memcpy of array-mode object")
            dm = self.mo(st, d.base, True)
            for o in list(dm.cells):
                if d.off <= o < d.off + n: del dm.cells[o]
            hit = False
            for o, (w, v) in cells.items():
                if s.off <= o < s.off + n:
                    dm.cells[o - s.off + d.off] = (w, v); hit = True
                    self.wkey('c', d.base, o - s.off + d.off, w)
            # unread source cells: create on demand, word by word
            o = 0
            while o < n:
                if not any(oo <= s.off + o < oo + c[0] // 8 for oo, c in cells.items()):
                    w = 64 if n - o >= 8 and (s.off + o) % 8 == 0 else 32 if n - o >= 4 and (s.off + o) % 4 == 0 else 8
                    v = self.initcell(self.objs[s.base], s.off + o, w, sm.ver)
                    sm.cells[s.off + o] = (w, v); dm.cells[d.off + o] = (w, v); cells[s.off + o] = (w, v)
                    self.wkey('c', d.base, d.off + o, w)
                    o += w // 8
                else: o += 1
            return
        raise Unsupported("memcpy")
    def memset(self, fr, st, d, c, n):
        if is_num(n) and d.kind == 'obj' and isinstance(d.off, int) and is_num(c) and c.as_long() == 0:
            dm = self.mo(st, d.base, True)
            nb = n.as_long()
            for o in list(dm.cells):
                if d.off <= o < d.off + nb: del dm.cells[o]
            for o in range(0, nb, 8):
                if nb - o >= 8: dm.cells[d.off + o] = (64, B(0)); self.wkey('c', d.base, d.off + o, 64)
            return
        raise Unsupported("memset")

    # ---------- loops
    def loop(self, fr, header, vals, st):
        import loops
        return loops.run(self, fr, header, vals, st)

    # ---------- havoc (calls which may run arbitrary Scheme code)
    def havoc_all(self, st, keep=()):
        for f in list(FIELD_SORT):
            if f in keep: continue
            st.fld[f] = z3.Array("%s!%d" % (f, next(self.cnt)), BV64, z3.BitVecSort(FIELD_SORT[f])); self.wkey('f', f)
        for w in (8, 16, 32, 64):
            st.M[w] = z3.Array("M%d!%d" % (w, next(self.cnt)), BV64, z3.ArraySort(BV64, z3.BitVecSort(w))); self.wkey('M', w)
        for oid, info in self.objs.items():
            if info.kind == 'glob' and info.data is None:
                self.havoc_obj(st, oid)
        nclk = z3.Int("clk!%d" % next(self.cnt))
        self.assume(nclk >= st.clk); st.clk = nclk; self.wkey('clk')
    def havoc_obj(self, st, oid):
        m = MO(self.objs[oid], ver=next(self.cnt) + 1)
        st.mem[oid] = m
        self.wkey('v', oid)

    # ---------- entry
    def start(self):
        st = St()
        st.clk = z3.Int("clk0")
        self.assume(st.clk >= 0)
        return st
    def obj_param(self, name, st):
        o = z3.BitVec(name, 64)
        self.assume(z3.And(AGE(o) <= st.clk, AGE(o) >= 0))
        return o
    def results(self):
        return [self.obls[n] for n in self.order]


FIRST = int(os.environ.get("VERIF_Z3_FIRST", "1500"))
def cvc5_second(solver, ms=20000):
    """second opinion on an unknown"""
    import subprocess
    try:
        s = "(set-logic ALL)\n" + solver.to_smt2()
        p = subprocess.run(["cvc5", "--tlimit=%d" % ms, "--lang=smt2", "-"], input=s, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=ms / 1000 + 10)
        o = p.stdout.strip().split("\n")[0]
        return z3.unsat if o == "unsat" else z3.sat if o == "sat" else z3.unknown
    except Exception:
        return z3.unknown
