"""Loop rule: every loop is cut at its header.

The invariant is inferred in dry passes over the body (no obligations are
recorded there): each loop-carried variable gets a definitional template in
terms of a ghost iteration counter `it` (unchanged, affine, list position,
previous iteration's value, allocation-log position) or becomes a fresh symbol
constrained by surviving candidate facts; written arrays become fresh roots with
frame and allocation-log facts.  Every template and fact is checked at entry and
at every back edge; what is not inductive is dropped.  The last pass assumes the
surviving invariant and generates the obligations of the body and of the code
after the loop."""
import z3, itertools
from engine import *

class View:
    """what a candidate may look at: a loop state at header or back edge"""
    def __init__(self, eng, lp, st, it, na, ga, vals):
        self.e, self.lp, self.st, self.it, self.na, self.ga, self.vals = eng, lp, st, it, na, ga, vals

NAPH = z3.BitVec("NA?", 64); GAPH = z3.Array("GA?", BV64, BV64)    # allocation count and log at the next header
class Var:
    def __init__(self, key, ty, x0, name):
        self.key, self.ty, self.x0, self.name = key, ty, x0, name
        self.t = ('same',)
        self.tried = set()
    def __repr__(self): return "%s:%s" % (self.name, self.t[0])

def psub(v, pairs):
    if isinstance(v, P):
        if v.kind in ('obj', 'raw'):
            b = v.base if v.kind == 'obj' else z3.substitute(v.base, *pairs)
            o = v.off if isinstance(v.off, int) else simp(z3.substitute(v.off, *pairs))
            return P(v.kind, b, o)
        if v.kind in ('car', 'cdr'): return P(v.kind, simp(z3.substitute(v.base, *pairs)))
        if v.kind == 'ite':
            c, a, b = v.base
            return P('ite', (simp(z3.substitute(c, *pairs)), psub(a, pairs), psub(b, pairs)))
        return v
    return simp(z3.substitute(v, *pairs)) if z3.is_expr(v) else v

def pite(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if isinstance(a, P) or isinstance(b, P):
        if isinstance(a, P) and isinstance(b, P) and peq_syn(a, b): return a
        return P('ite', (c, a, b))
    return simp(z3.If(c, a, b))

def peq_syn(a, b):
    if not isinstance(a, P) or not isinstance(b, P): return False
    if a.kind != b.kind: return False
    if a.kind == 'null': return True
    if a.kind in ('obj', 'raw'):
        sb = a.base == b.base if a.kind == 'obj' else a.base.eq(b.base)
        if isinstance(a.off, int) and isinstance(b.off, int): return sb and a.off == b.off
        if isinstance(a.off, int) or isinstance(b.off, int): return False
        return sb and a.off.eq(b.off)
    if a.kind in ('car', 'cdr'): return a.base.eq(b.base)
    if a.kind == 'fn': return a.base is b.base
    return False

def same(eng, a, b):
    """are the two values equal on this path?"""
    if isinstance(a, list) or isinstance(b, list): return False
    if isinstance(a, P) or isinstance(b, P):
        if not isinstance(a, P): a = eng.ptr(a)
        if not isinstance(b, P): b = eng.ptr(b)
        if peq_syn(a, b): return True
        for x, y in ((a, b), (b, a)):
            if x.kind == 'ite':
                c, p, q = x.base
                if eng.valid(c): return same(eng, p, y)
                if eng.valid(z3.Not(c)): return same(eng, q, y)
                ok = True
                for cc, z in ((c, p), (z3.Not(c), q)):
                    eng.s.push(); eng.s.add(cc)
                    ok = ok and same(eng, z, y)
                    eng.s.pop()
                return ok
        if a.kind in ('car', 'cdr') and a.kind == b.kind: return eng.valid(a.base == b.base)
        if a.kind == b.kind and a.kind in ('obj', 'raw'):
            if (a.base == b.base) if a.kind == 'obj' else (a.base.eq(b.base) or eng.valid(a.base == b.base)):
                x = B(a.off & MASK) if isinstance(a.off, int) else a.off
                y = B(b.off & MASK) if isinstance(b.off, int) else b.off
                return eng.valid(x == y)
            return False
        if 'obj' in (a.kind, b.kind) or 'fn' in (a.kind, b.kind): return False
        return eng.valid(eng.bv(a) == eng.bv(b))
    if a is None or b is None: return a is b
    if a.sort() != b.sort(): return False
    if a.eq(b): return True
    return eng.valid(a == b)
MASK = (1 << 64) - 1

def chainparts(root, e):
    if z3.is_app(e) and e.decl().name() == "CHAIN@" + root.decl().name(): return e.arg(0), e.arg(1)
    return e, B(0)

def consts_of(e, acc=None):
    acc = acc if acc is not None else {}
    st, seen = [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc[x.get_id()] = x
        st += x.children()
    return acc

def apps_of(e):
    st, seen, out = [e], set(), []
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.num_args(): out.append(x)
        st += x.children()
    return out

def stride(n):
    s = 1
    while s < n: s *= 2
    return s if n else 0

def cbase(v): return v.x0.base if isinstance(v.x0, P) else v.x0

class Loop:
    def __init__(self, eng, fr, header, vals, st):
        self.e, self.fr, self.h, self.st0 = eng, fr, header, st
        self.blocks = fr.fn.loops[header]
        self.name = "%s:%s" % (fr.fn.name, fr.fn.loopname(header) if callable(getattr(fr.fn, "loopname", None)) else header)
        self.vars = [Var(('phi', i.res), i.ty, v, i.res) for i, v in vals]
        self.W = set()
        self.it = eng.sym("it")
        self.entryclk = st.clk
        self.outer_ids = None
        self.excl = {}             # field -> older objects the body writes
        self.arr = {}              # array key -> set of live facts
        self.cands = {}            # name -> builder(view) (live ones)
        self.dead = set()
        self.nalloc = None         # ('c', n) allocations per iteration, or 'any'
        self.alloctypes = set()
        self.allocfields = {}
        self.jfacts = {}           # name -> builder (skolem index facts), live
        self.passes = 0
        self.proposed = set()
        self.ucons, self.udead = set(), set()   # list variables whose passed cells are all pairs

    # ----- the generalised header state
    def value(self, v, it, na, ga):
        e = self.e
        k = v.t[0]
        if k == 'same': return v.x0
        if k == 'aff':
            if isinstance(v.x0, P):
                off = (B(v.x0.off & MASK) if isinstance(v.x0.off, int) else v.x0.off) + it * B(v.t[1] & MASK)
                return P(v.x0.kind, v.x0.base, simp(off))
            w = v.x0.size()
            i = it if w == 64 else z3.Extract(w - 1, 0, it)
            return simp(v.x0 + i * B(v.t[1] & ((1 << w) - 1), w))
        if k == 'chain':
            x = e.chain(v.t[2], cbase(v), simp(it * B(v.t[1])) if v.t[1] != 1 else it)
            return P(v.x0.kind, x) if isinstance(v.x0, P) else x
        if k == 'first':          # the first object the loop allocates
            return pite(simp(na == 0), v.x0, self.asobj(v, z3.Select(ga, B(v.t[1]))))
        if k == 'prev':           # a term over the previous iteration
            term, c = v.t[1], v.t[2]
            cond = simp(it == 0) if c == 'it' else simp(na == 0)
            t = psub(term, [(self.it, simp(it - 1)), (NAPH, na), (GAPH, ga)])
            return pite(cond, v.x0, t)
        raise Unsupported("template " + k)
    def asobj(self, v, x): return self.e.ptr(x) if isinstance(v.x0, P) else x

    def header(self, concrete):
        """push the generalised state; returns it"""
        e, st = self.e, self.st0
        s = st.copy()
        it = B(0) if concrete else self.it
        gid = self.gid
        if concrete:
            self.GA = e.symarr("ga"); self.NA = B(0)
            s.ghosts[gid] = (self.GA, B(0), None)
            ga, na = self.GA, B(0)
        else:
            e.assume(z3.ULT(it, B(1 << 60)))
            ga = self.GA = e.symarr("ga")
            if 'clk' in [k[0] for k in self.W]:
                s.clk = z3.Int("clk!%d" % next(e.cnt)); e.assume(s.clk >= self.entryclk)
            if self.nalloc is None: na = self.NA = B(0)
            elif self.nalloc[0] == 'c': na = simp(it * B(stride(self.nalloc[1]))); self.NA = na
            else:
                na = self.NA = e.sym("na"); e.assume(z3.ULT(na, B(1 << 61)))
                e.assume(z3.Implies(it == 0, na == 0))
            s.ghosts[gid] = (ga, na, None)
            self.ga_axioms(ga, na, s)
        vals = {}
        self.newroots = []
        # memory
        for key in sorted(self.W, key=str):
            if concrete: break
            if key[0] == 'f':
                f = key[1]
                old = e.fld(st, f)
                new = z3.Array("%s!%d" % (f, next(e.cnt)), BV64, z3.BitVecSort(FIELD_SORT[f]))
                s.fld[f] = new
                self.newroots.append((new, old))
                ex = tuple(self.excl.get(f, ()))
                for fact in self.arr.get(('f', f), ()):
                    ec = self.frameclk(fact)
                    e.uinv.setdefault(new.get_id(), []).append(lambda x, new=new, old=old, ec=ec, ex=ex: z3.Implies(z3.And(AGE(x) <= ec, *[x != t for t in ex]), z3.Select(new, x) == e.asel(old, x)))
                if self.arr.get(('f', f)):
                    if f == 'cdr':
                        r = e.root_cdr(st)
                        e.rootver[new.decl().name()] = r
                e.keep = getattr(e, 'keep', []); e.keep += [new, old]
            elif key[0] == 'M':
                w = key[1]
                old = e.marr(st, w)
                new = z3.Array("M%d!%d" % (w, next(e.cnt)), BV64, z3.ArraySort(BV64, z3.BitVecSort(w)))
                s.M[w] = new
                self.newroots.append((new, old))
                e.keep = getattr(e, 'keep', []); e.keep += [new, old]
                ec = self.entryclk
                for fact in self.arr.get(key, ()):
                    self.mfact(fact, new, old, w)
            elif key[0] == 'o':
                m = e.mo(s, key[1], True)
                e.objarr(s, key[1], key[2])
                m = e.mo(s, key[1], True)
                m.arrs[key[2]] = e.symarr("%s.w%d" % (m.info.name, key[2]), key[2])
            elif key[0] == 'v':
                e.havoc_obj(s, key[1])
        for v in self.vars:
            if v.t[0] == 'free':
                x = self.freshlike(v)
                if z3.is_expr(x) and z3.is_bv(x) and x.size() == 64: e.assume(z3.And(AGE(x) <= s.clk, AGE(x) >= 0))
            else:
                x = v.x0 if concrete else self.value(v, it, na, ga)
            if v.key[0] == 'fc':
                y = e.asel(e.fld(s, v.key[1]), v.obj)
                if v.t[0] != 'free' and not concrete:
                    e.assume(y == x); e.canon = ((v.key[1], x),) + tuple(e.canon)
                x = y if v.t[0] == 'free' else x
            if x is not None:
                vals[v.key] = x
                if v.key[0] == 'phi': s.env[v.key[1]] = x
                elif v.key[0] == 'fc': pass
                else:
                    _, oid, off, w = v.key
                    m = e.mo(s, oid, True)
                    m.cells[off] = (w, x)
            if not concrete and v.t[0] == 'chain':
                for f in e.chain_ax(v.t[2], cbase(v), simp(it * B(v.t[1]))): e.assume(f)
                c = self.value(v, it, na, ga)
                if isinstance(c, P): c = c.base
                e.assume(z3.And(AGE(c) <= self.entryclk, AGE(c) >= 0))
                if v.t[2].eq(e.fld0('cdr')):      # the heap at entry is closed
                    b, _ = chainparts(v.t[2], cbase(v))
                    e.assume(z3.Implies(AGE(b) <= z3.Int("clk0"), AGE(c) <= z3.Int("clk0")))
        view = View(e, self, s, it, na, ga, vals)
        if not concrete:
            for v in self.vars:
                if v.t[0] == 'chain' and (v.key, v.t[1]) in self.ucons: self.ufact(v, it)
            for v in self.vars:
                if v.t[0] == 'chain':
                    for f in e.chain_ax(v.t[2], cbase(v), simp(it * B(v.t[1]))): e.assume(f)
            for n, b in list(self.cands.items()):
                f = b(view)
                if f is not None: e.assume(f)
        self.hvals = vals
        return s, it, na, ga, view
    def uform(self, v, it, k):
        e = self.e
        b, k0 = chainparts(v.t[2], cbase(v))
        n = simp(k0 + it * B(v.t[1]))
        return z3.Implies(z3.And(z3.UGE(k, k0), z3.ULT(k, n)), TYPE(e.chain(v.t[2], b, k)) == e.ty("ScmCons"))
    def ufact(self, v, it):
        """all cells this variable has passed are pairs: used at every index that comes up"""
        b, k0 = chainparts(v.t[2], cbase(v))
        self.e.uchain.append((v.t[2], b, lambda k, v=v, it=it: self.uform(v, it, k)))
    def freshlike(self, v):
        e = self.e
        if v.x0 is None: return None
        if isinstance(v.x0, P):
            return e.ptr(e.sym(v.name))
        if z3.is_bool(v.x0): return z3.Bool("%s!%d" % (v.name, next(e.cnt)))
        if isinstance(v.x0, list): raise Unsupported("aggregate loop variable")
        return e.sym(v.name, v.x0.size())
    def ga_axioms(self, ga, na, s):
        """the allocation log of the loop so far: fresh, strictly ageing objects"""
        e, ec, clk = self.e, self.entryclk, s.clk
        seen = []
        ty = next(iter(self.alloctypes)) if len(self.alloctypes) == 1 else None
        def inst(i):
            o = z3.Select(ga, i)
            fs = [AGE(o) > ec, AGE(o) <= clk]
            if ty is not None: fs.append(TYPE(o) == e.ty(ty))
            out = [z3.Implies(z3.ULT(i, na), z3.And(*fs))]
            for j in seen[-24:]:
                if j.eq(i): continue
                p = z3.Select(ga, j)
                out.append(z3.Implies(z3.And(z3.ULT(i, j), z3.ULT(j, na)), AGE(o) < AGE(p)))
                out.append(z3.Implies(z3.And(z3.ULT(j, i), z3.ULT(i, na)), AGE(p) < AGE(o)))
            if not any(j.eq(i) for j in seen): seen.append(i)
            return z3.And(*out)
        e.uinv.setdefault(ga.get_id(), []).append(inst)
        e.keep = getattr(e, 'keep', []); e.keep.append(ga)

    # ----- raw memory facts
    def mfact(self, fact, new, old, w):
        e = self.e
        k = fact[0]
        def inst(b, o):
            row, orow = z3.Select(new, b), z3.Select(old, b)
            if k == 'fresh':       # blocks older than the loop are unchanged
                return z3.Implies(AGE(b) <= self.entryclk, z3.Select(row, o) == e.msel(old, b, o, w))
            if k == 'only':        # only the block fact[1] changes
                return z3.Implies(b != fact[1], z3.Select(row, o) == e.msel(old, b, o, w))
            if k == 'map': return self.mapform(fact, new, old, w, self.it, b, o)
        e.uinv.setdefault(("M", new.get_id()), []).append(inst)

    def mapform(self, fact, new, old, w, it, b, o):
        """the loop has written val(0..it-1) to equidistant places of one block and nothing else there"""
        e = self.e
        _, base, off0, sh, neg, val = fact
        d = simp(off0 - o if neg else o - off0)
        i = simp(z3.LShR(d, B(sh)))
        done = z3.ULT(i, it)
        t = z3.substitute(val, (self.it, i))
        for c in apps_of(t):
            if c.decl().name().startswith("CHAIN@"):
                for r in e.chainroots.get(c.decl().name(), ()):
                    for f in e.chain_ax(r, c.arg(0), c.arg(1)): e.assume(f)
        row = z3.Select(new, b)
        return z3.Implies(b == base, z3.And(z3.Implies(z3.And(done, d & B((1 << sh) - 1) == 0), z3.Select(row, o) == t),
                                            z3.Implies(z3.Not(done), z3.Select(row, o) == e.msel(old, b, o, w))))
    def stores(self, st):
        """raw stores on this path since the header"""
        e = self.e
        out = []
        for key in [k for k in self.W if k[0] == 'M']:
            a = e.marr(st, key[1])
            while z3.is_app_of(a, z3.Z3_OP_STORE):
                base, row = a.arg(1), a.arg(2)
                while z3.is_app_of(row, z3.Z3_OP_STORE):
                    out.append((key, base, row.arg(1), row.arg(2))); row = row.arg(0)
                a = a.arg(0)
        return out
    def propose_maps(self, obs):
        ch = False
        for o in obs:
            bases = {}
            for key, base, off, v in o['stores']:
                bases.setdefault(key, []).append(base)
                if not self.entry_term(base) or not self.entry_term(off) or not self.entry_term(v): continue
                if any(c.eq(self.it) for c in consts_of(base).values()): continue
                at = lambda n: simp(z3.substitute(off, (self.it, B(n & MASK))))
                st = simp(at(1) - at(0))
                if not is_num(st): continue
                n = st.as_signed_long()
                if abs(n) not in (1, 2, 4, 8, 16, 32): continue
                k = (key, base.get_id(), off.get_id(), v.get_id())
                if k in self.proposed: continue
                self.proposed.add(k)
                e = self.e; e.keep += [base, off, v]
                f = ('map', base, at(0), abs(n).bit_length() - 1, n < 0, v)
                self.arr.setdefault(key, set()).add(f); ch = True
            for key, bs in bases.items():
                b = bs[0]
                if all(x.eq(b) for x in bs) and self.entry_term(b) and (key, b.get_id()) not in self.proposed and not any(c.eq(self.it) for c in consts_of(b).values()):
                    self.proposed.add((key, b.get_id())); self.e.keep.append(b)
                    self.arr.setdefault(key, set()).add(('only', b)); ch = True
        return ch

    # ----- one pass over the body
    def run_pass(self, concrete=False, final=False):
        e = self.e
        self.passes += 1
        e.s.push()
        nu, canon = len(e.uchain), e.canon
        s, it, na, ga, view = self.header(concrete)
        obs = []
        ctx = LoopCtx()
        ctx.fr, ctx.header, ctx.blocks, ctx.dry, ctx.gid, ctx.name = self.fr, self.h, self.blocks, not final, self.gid, self.name
        log = set()
        ctx.writes = log
        if final:
            e.oldroots += self.newroots
            ctx.back = lambda st, vals: None
            s.loops = s.loops + (ctx,)
            s.its = s.its + ((self.name, it, na, ga, self),)
            self.finalview = view
        else:
            ctx.back = lambda st, vals: obs.append(self.observe(st, vals, it, concrete))
            s.loops = s.loops + (ctx,)
            s.its = s.its + ((self.name, it, na, ga, self),)
            e.dry += 1
            e.wlogs.append(log)
        skip = len([i for i in self.fr.fn.blocks[self.h] if i.op == 'phi'])
        e.block(self.fr, self.h, 0, s)
        if not final:
            e.wlogs.pop(); e.dry -= 1
        del e.uchain[nu:]
        e.canon = canon
        e.s.pop()
        return obs, log

    def observe(self, st, vals, it, concrete):
        """at a back edge: check templates and facts, on this path"""
        e = self.e
        nxt = B(1) if concrete else simp(it + 1)
        ga, na, last = st.ghosts[self.gid]
        out = dict(bad=[], new={}, na=None, alloc=None, cand_bad=[], arr_bad=[], ubad=[])
        # allocations of this iteration
        dna = simp(na - (B(0) if concrete else self.NA))
        out['na'] = dna.as_long() if is_num(dna) else None
        if is_num(dna) and self.nalloc != ('any',):     # each iteration gets a power of two of places in the log
            na = simp((B(0) if concrete else self.NA) + stride(dna.as_long()))
        newvals = {('phi', i.res): v for i, v in vals}
        for v in self.vars:
            if v.key[0] == 'phi': x = newvals[v.key]
            elif v.key[0] == 'fc': x = e.rsel(e.fld(st, v.key[1]), v.obj)
            else:
                _, oid, off, w = v.key
                m = e.mo(st, oid)
                c = m.cells.get(off)
                x = c[1] if c is not None and c[0] == w else None
                if x is None and w in m.arrs: x = None
            out['new'][v.key] = x
            if v.t[0] == 'free': continue
            if x is None and v.x0 is None: continue
            if x is None: out['bad'].append((v, None, None)); continue
            want = self.value(v, nxt, na, ga)
            for ar in self.garrs(want): e.asel(ar, B(0))
            if want is None or not same(e, x, want):
                out['bad'].append((v, x, self.generalise(x, st, it, concrete)))
        if not concrete:
            for v in self.vars:
                if v.t[0] == 'chain' and (v.key, v.t[1]) in self.ucons:
                    x = e.sym("uk")
                    e.s.push()
                    b, k0 = chainparts(v.t[2], cbase(v))
                    for f in e.chain_ax(v.t[2], b, x): e.assume(f)
                    for q in range(v.t[1]):
                        for f in e.chain_ax(v.t[2], b, simp(k0 + it * B(v.t[1]) + q)): e.assume(f)
                    if not e.valid(self.uform(v, nxt, x)): out['ubad'].append((v.key, v.t[1]))
                    e.s.pop()
            vals2 = {v.key: (out['new'][v.key]) for v in self.vars}
            view = View(e, self, st, nxt, na, ga, vals2)
            for n, b in self.cands.items():
                f = b(view)
                if f is not None and not e.valid(f): out['cand_bad'].append(n)
            for key, facts in self.arr.items():
                for fact in list(facts):
                    if not self.check_arr(key, fact, st, nxt):
                        if key[0] == 'f' and self.exclude(key[1], st): out['newvar'] = True
                        elif not out.get('newvar'): out['arr_bad'].append((key, fact))
        # allocation record for builder facts
        out['allocs'] = self.alloc_record(st, it, concrete)
        out['stores'] = [] if concrete else self.stores(st)
        return out
    def garrs(self, x): return []
    def frameclk(self, fact): return self.entryclk if fact == 'frame' else z3.Int("clk0")
    def exclude(self, f, st):
        """older objects at fixed places which the body writes: their field becomes a loop variable"""
        e = self.e
        a, ch = e.fld(st, f), False
        while z3.is_app_of(a, z3.Z3_OP_STORE):
            t = a.arg(1); a = a.arg(0)
            if is_num(t) or not self.entry_term(t) or any(c.eq(self.it) for c in consts_of(t).values()): continue
            ex = self.excl.setdefault(f, [])
            if len(ex) >= 6 or any(x.eq(t) for x in ex) or any(e.valid(x == t) for x in ex): continue
            if e.valid(AGE(t) > self.entryclk): continue
            ex.append(t); e.keep.append(t)
            v = Var(('fc', f, t.get_id()), None, e.canonical(f, e.asel(e.fld(self.st0, f), t)), "%s(%s)" % (f, str(t)[:40]))
            v.obj = t
            self.vars.append(v); ch = True
        return ch
    def check_arr(self, key, fact, st, nxt):
        e = self.e
        if key[0] == 'f':
            x = e.sym("fx")
            new, old = e.fld(st, key[1]), e.fld(self.st0, key[1])
            e.s.push()
            e.assume(AGE(x) <= self.frameclk(fact))
            for t in self.excl.get(key[1], ()): e.assume(x != t)
            ok = e.valid(e.asel(new, x) == e.asel(old, x))
            e.s.pop()
            return ok
        if key[0] == 'M':
            w = key[1]
            b, o = e.sym("fb"), e.sym("fo")
            new, old = e.marr(st, w), e.marr(self.st0, w)
            e.s.push()
            if fact[0] == 'fresh': e.assume(AGE(b) <= self.entryclk)
            elif fact[0] == 'only': e.assume(b != fact[1])
            elif fact[0] == 'map':
                e.msel(new, fact[1], o, w)
                ok = e.valid(self.mapform(fact, new, old, w, nxt, fact[1], o))
                e.s.pop()
                return ok
            ok = e.valid(e.msel(new, b, o, w) == e.msel(old, b, o, w))
            e.s.pop()
            return ok
        return True
    def alloc_record(self, st, it, concrete):
        e = self.e
        rec = []
        for o, ty, flds in st.aux.get(("allocs", self.gid), ()):
            rec.append((o, ty, {f: v if concrete else self.oldterm(v) for f, v in flds.items()}))
        return rec
    def oldterm(self, v):
        """the same value read from the heap before the loop, where it is the same"""
        e = self.e
        if not z3.is_expr(v): return v
        for depth in range(12):
            cs = consts_of(v)
            pairs = [(n, o) for n, o in self.newroots + e.oldroots if n.get_id() in cs]
            if not pairs: break
            t = simp(z3.substitute(v, *pairs))
            for a in apps_of(t):
                if z3.is_app_of(a, z3.Z3_OP_SELECT) and not z3.is_array(a): e.asel(a.arg(0), a.arg(1))
            if t.eq(v) or not e.valid(t == v): break
            v = t
        return v
    def generalise(self, x, st, it, concrete):
        """the value as a term over it and the allocation log, if it is one"""
        e = self.e
        if concrete or x is None: return None
        pairs = []
        ga, na, last = st.ghosts[self.gid]
        recs = st.aux.get(("allocs", self.gid), ())
        n = len(recs)
        for k, (o, ty, flds) in enumerate(recs):
            pairs.append((o, z3.Select(GAPH, simp(self.NAend(n, k)))))
        pairs.append((self.GA, GAPH))
        if z3.is_const(self.NA) and not is_num(self.NA) and not self.NA.eq(self.it): pairs.append((self.NA, simp(NAPH - (n if self.nalloc == ('any',) else stride(n)))))
        t = psub(x, pairs) if pairs else x
        # only entry symbols, it and the log may remain
        parts = []
        def col(v):
            if isinstance(v, P):
                if v.kind == 'ite':
                    parts.append(v.base[0]); col(v.base[1]); col(v.base[2])
                elif v.kind in ('car', 'cdr'): parts.append(v.base)
                elif v.kind == 'raw':
                    parts.append(v.base)
                    if not isinstance(v.off, int): parts.append(v.off)
                elif v.kind == 'obj' and not isinstance(v.off, int): parts.append(v.off)
            elif z3.is_expr(v): parts.append(v)
        col(t)
        uses_log = False
        for p in parts:
            for c in consts_of(p).values():
                if c.eq(self.it) or c.eq(GAPH) or c.eq(NAPH):
                    uses_log = uses_log or not c.eq(self.it)
                    continue
                n_ = c.decl().name()
                if '!' in n_ and int(n_.rsplit('!', 1)[1]) > self.mark: return None
        return (t, 'na' if uses_log else 'it')
    def NAend(self, n, k):
        """index (at the next header, in terms of NA there) of the k-th of n allocations"""
        return NAPH - B((n if self.nalloc == ('any',) else stride(n)) - k)

    # ----- inference
    def infer(self):
        e = self.e
        self.mark = int(self.it.decl().name().rsplit('!', 1)[1])
        self.gid = ("g", self.mark)
        # pass 0: the first iteration as it is
        obs, log = self.run_pass(concrete=True)
        self.merge_writes(log)
        self.first = obs
        for v in self.vars: self.seed(v, obs)
        self.note_allocs(obs)
        self.install_candidates()
        stale, revived = False, 0
        for rnd in range(60):
            e.tick()
            obs, log = self.run_pass()
            ch = self.merge_writes(log)
            ch |= self.note_allocs(obs)
            ch |= self.propose_maps(obs)
            moved = set()
            if any(o.get('newvar') for o in obs): ch = stale = True; continue
            for o in obs:
                for v, x, g in o['bad']:
                    if v.t[0] != 'free' and v.key not in moved and self.demote(v, x, g, o): ch = True; moved.add(v.key)
                if moved: continue      # facts are judged once the templates are stable
                for u in o['ubad']:
                    if u in self.ucons: self.ucons.discard(u); self.udead.add(u); ch = True
                for n in o['cand_bad']:
                    if n in self.cands: del self.cands[n]; self.dead.add(n); ch = True
                for key, fact in o['arr_bad']:
                    if fact in self.arr.get(key, ()): self.arr[key].discard(fact); ch = True
            ch |= self.more_candidates(obs)
            if moved and self.dead: stale = True
            if ch: continue
            if not stale or revived == 2: return
            # some facts were dropped under templates which have changed since: try them again
            stale = False; revived += 1; self.dead.clear(); self.more_candidates(obs)
        raise Unsupported("loop inference does not converge: " + self.name)
    def merge_writes(self, log):
        e = self.e
        ch = False
        for key in log:
            if key in self.W: continue
            if key[0] == 'c':
                if key[1] > self.maxoid: continue        # local of the body
                if ('v', key[1]) in self.W: continue
            if key[0] in ('o', 'v') and key[1] > self.maxoid: continue
            self.W.add(key); ch = True
            if key[0] == 'c':
                _, oid, off, w = key
                m = e.mo(self.st0, oid)
                c = m.cells.get(off)
                if c is not None and c[0] == w: x0 = c[1]
                elif c is None: x0 = e.initcell(e.objs[oid], off, w, m.ver)
                else: x0 = None
                self.vars.append(Var(key, None, x0, "%s.%d" % (e.objs[oid].name, off)))
            if key[0] == 'f': self.arr[key] = {'frame', 'frame0'}
            if key[0] == 'M': self.arr[key] = {('fresh',)}
        return ch
    def note_allocs(self, obs):
        ch = False
        for o in obs:
            n = o['na']
            old = self.nalloc
            if n is None: self.nalloc = ('any',)
            elif self.nalloc is None: self.nalloc = ('c', n) if n or self.passes > 0 else None
            elif self.nalloc[0] == 'c' and self.nalloc[1] != n: self.nalloc = ('any',)
            if self.nalloc != old: ch = True
            for k, (ob, ty, flds) in enumerate(o['allocs']):
                if ty not in self.alloctypes: self.alloctypes.add(ty); ch = True
        return ch
    def seed(self, v, obs):
        """guess a template from the first iteration"""
        e = self.e
        xs = [o['new'][v.key] for o in obs if v.key in o['new']]
        if not xs: return
        if all(x is not None and v.x0 is not None and same_syn(x, v.x0) for x in xs): return
        v.t = self.guess(v, xs[0], obs[0])
    def guess(self, v, x, o):
        e = self.e
        if v.x0 is None or x is None: return ('free',)
        if isinstance(v.x0, P):
            if isinstance(x, P) and x.kind == v.x0.kind and x.kind in ('obj', 'raw') and \
               (x.base == v.x0.base if x.kind == 'obj' else x.base.eq(v.x0.base)):
                d = simp((B(x.off & MASK) if isinstance(x.off, int) else x.off) - (B(v.x0.off & MASK) if isinstance(v.x0.off, int) else v.x0.off))
                if is_num(d): return ('aff', d.as_signed_long())
            if isinstance(x, P) and x.kind == v.x0.kind and x.kind in ('car', 'cdr'):
                return self.chainguess(v.x0.base, x.base) or ('same',)
        elif z3.is_expr(x) and z3.is_bv(x) and x.sort() == v.x0.sort():
            d = simp(x - v.x0)
            if is_num(d): return ('aff', d.as_signed_long())
            if x.size() == 64:
                t = self.chainguess(v.x0, x)
                if t: return t
        r = self.isfirst(v, x, o)
        if r is not None: return ('first', r)
        return ('same',)
    def chainguess(self, x0, x):
        root = self.e.root_cdr(self.st0)
        b0, k0 = chainparts(root, x0); b1, k1 = chainparts(root, x)
        if b0.eq(b1):
            d = simp(k1 - k0)
            if is_num(d) and 0 < d.as_long() < 8: return ('chain', d.as_long(), root)
    def isfirst(self, v, x, o):
        """which allocation of its iteration is x?"""
        xb = self.e.bv(x) if isinstance(x, P) else x
        if not isinstance(v.x0, P) and not (z3.is_bv(v.x0) and v.x0.size() == 64): return None
        for r, rec in enumerate(o['allocs']):
            if z3.is_expr(xb) and xb.eq(rec[0]): return r
        return None
    def demote(self, v, x, g, o):
        """next template after a failed check"""
        v.tried.add(self.tkey(v.t))
        cands = []
        if x is not None and v.t[0] == 'same': cands.append(self.guess(v, x, o))
        r = self.isfirst(v, x, o) if x is not None else None
        if r is not None: cands.append(('first', r))
        if (v.t[0] == 'same' or r is None and v.t[0] == 'first') and (isinstance(v.x0, P) or z3.is_bv(v.x0) and v.x0.size() == 64):
            for r in range(min(3, len(o['allocs']))): cands.append(('first', r))
        if g is not None: cands.append(('prev', g[0], g[1]))
        for t in cands:
            if t[0] != 'free' and self.tkey(t) not in v.tried and v.x0 is not None:
                v.t = t; return True
        v.t = ('free',)
        return True
    def tkey(self, t): return (t[0],) if t[0] == 'prev' else tuple(map(str, t))

    # ----- candidate facts
    def install_candidates(self):
        e = self.e
        def add(n, b):
            if n in self.dead or n in self.cands: return
            # must hold at entry
            vals = {v.key: v.x0 for v in self.vars}
            e.s.push()
            view = View(e, self, self.st0, B(0), B(0), self.GA, vals)
            f = b(view)
            ok = f is None or e.valid(f)
            e.s.pop()
            if ok: self.cands[n] = b
            else: self.dead.add(n)
        self.add = add
        self.more_candidates(self.first)
    def more_candidates(self, obs):
        e = self.e
        before = set(self.cands); self.newu = False
        for k, b in enumerate(e.ends):
            self.add(("end", k), lambda view, b=b: b(view.it))
        self.add(("once",), lambda view: z3.ULE(view.it, B(1)))
        for k, b in enumerate(e.cands):
            self.add(("spec", k), b)
        for v in self.vars:
            if v.t[0] == 'chain':
                root, st = v.t[2], v.t[1]
                if (v.key, st) not in self.udead and (v.key, st) not in self.ucons:
                    self.ucons.add((v.key, st)); self.newu = True
                def lastcons(view, v=v, root=root, st=st):
                    c = e.chain(root, cbase(v), simp((view.it - 1) * B(st)))
                    return z3.Implies(view.it != 0, TYPE(c) == e.ty("ScmCons"))
                self.add(("lastcons", v.key), lastcons)
            if v.t[0] == 'free' and z3.is_expr(v.x0) and z3.is_bv(v.x0) and not isinstance(v.x0, P):
                k = v.key
                w = v.x0.size()
                def val(view, k=k): 
                    x = view.vals.get(k)
                    return x if x is None or not isinstance(x, P) else e.bv(x)
                def mk(f, val=val):
                    def b(view):
                        x = val(view)
                        return None if x is None else f(x)
                    return b
                self.add(("ge0", k), mk(lambda x, w=w: x >= 0))
                self.add(("ge", k), mk(lambda x, v=v: x >= v.x0))
                self.add(("le", k), mk(lambda x, v=v: x <= v.x0))
                if w == 64:
                    for tn in ("ScmCons",):
                        self.add(("ty", k, tn), mk(lambda x, tn=tn: TYPE(x) == e.ty(tn)))
        fr = [v for v in self.vars if v.t[0] == 'free' and z3.is_expr(v.x0) and z3.is_bv(v.x0)]
        for a, b in itertools.combinations(fr[:6], 2):
            if a.x0.size() != b.x0.size(): continue
            self.add(("nz", a.key, b.key), lambda view, a=a, b=b: None if view.vals.get(a.key) is None or view.vals.get(b.key) is None else
                     z3.Or(e.bv(view.vals[a.key]) != 0, e.bv(view.vals[b.key]) != 0))
        # facts about the objects allocated by the loop
        if self.nalloc and (self.nalloc[0] == 'c' and self.nalloc[1] >= 1 or self.nalloc == ('any',)):
            self.builder_facts(obs)
        return set(self.cands) != before or self.newu
    def builder_facts(self, obs):
        """m allocations per iteration: facts about those at the log positions m*j + r"""
        e = self.e
        m = self.nalloc[1] if self.nalloc[0] == 'c' else 1
        S = stride(m)
        fields = [set() for r in range(m)]
        for o in obs:
            for k, (ob, ty, flds) in enumerate(o['allocs']):
                if k < m: fields[k] |= set(flds)
        at = lambda j, r: j if m == 1 else simp(j * S + r)
        for r in range(m):
          for f in sorted(fields[r]):
            # linked to the next or previous allocation; the first and last keep their initial value
            for q, j in enumerate(e.js):
                G = lambda view, i, r=r: e.asel(view.ga, simp(at(i, r)))
                lo = lambda view, i, r=r: z3.And(z3.ULT(i, B(1 << 59)), z3.ULT(at(i, r), view.na))
                def link(view, f=f, j=j, G=G, lo=lo):
                    return z3.Implies(z3.And(lo(view, j + 1), lo(view, j)), e.asel(e.fld(view.st, f), G(view, j)) == G(view, j + 1))
                if f in OBJ_FIELDS: self.add(("link", f, q, r), link)
                def blink(view, f=f, j=j, G=G, lo=lo):
                    return z3.Implies(z3.And(lo(view, j), j != 0), e.asel(e.fld(view.st, f), G(view, j)) == G(view, j - 1))
                if f in OBJ_FIELDS: self.add(("blink", f, q, r), blink)
            for o in obs:
                for k, (ob, ty, flds) in enumerate(o['allocs']):
                    if f not in flds or k % m != r: continue
                    val = e.bv(flds[f])
                    if self.entry_term(val) and not any(c.eq(self.it) for c in consts_of(val).values()):
                        e.keep.append(val)
                        def lastv(view, f=f, val=val, r=r):
                            return z3.Implies(view.na != 0, e.asel(e.fld(view.st, f), e.asel(view.ga, simp(view.na - (S - r)))) == val)
                        self.add(("last", f, val.get_id(), r), lastv)
                        def firstv(view, f=f, val=val, r=r):
                            return z3.Implies(view.na != 0, e.asel(e.fld(view.st, f), e.asel(view.ga, B(r))) == val)
                        self.add(("firstv", f, val.get_id(), r), firstv)
                    if self.entry_term(val):
                        e.keep.append(val)
                        for q, j in enumerate(e.js):
                            def gen(view, f=f, val=val, j=j, r=r):
                                t = z3.substitute(val, (self.it, j))
                                return z3.Implies(z3.And(z3.ULT(j, B(1 << 59)), z3.ULT(at(j, r), view.na)), e.asel(e.fld(view.st, f), e.asel(view.ga, at(j, r))) == t)
                            self.add(("gen", f, val.get_id(), q, r), gen)
    def entry_term(self, t):
        for c in consts_of(t).values():
            if c.eq(self.it): continue
            n = c.decl().name()
            if '!' in n and int(n.rsplit('!', 1)[1]) > self.mark: return False
        return True

def same_syn(a, b):
    if isinstance(a, P) or isinstance(b, P): return peq_syn(a, b)
    return z3.is_expr(a) and z3.is_expr(b) and a.eq(b)

def run(eng, fr, header, vals, st):
    key = (fr.fn.name, header)
    lname = fr.fn.loopname(header) if callable(getattr(fr.fn, "loopname", None)) else header
    bound = eng.unroll.get((fr.fn.name, lname), eng.unroll.get(fr.fn.name))
    if bound is None and eng.unroll_all: bound = eng.unroll_all
    if bound is None and eng.unroll_nest and nested(eng, fr.fn, header): bound = eng.unroll_nest
    if bound is None and eng.unroll_flat and not nested(eng, fr.fn, header): bound = eng.unroll_flat
    if bound is None and eng.unroll_on and any(z3.is_expr(v) and any(v.eq(c) for c in eng.unroll_on[1]) for _, v in vals): bound = eng.unroll_on[0]
    if bound: return unrolled(eng, fr, header, vals, st, bound)
    lp = Loop(eng, fr, header, vals, st)
    lp.maxoid = len(eng.objs)
    if eng.loophook: eng.loophook(eng, lp)
    lp.infer()
    eng.loopinfo.setdefault(lp.name, []).append((lp.passes, [repr(v) for v in lp.vars], sorted(map(str, lp.cands))))
    if eng.ends and not eng.dry:
        eng.prove("the loop in %s ends" % fr.fn.name, z3.BoolVal(any(("end", k) in lp.cands for k in range(len(eng.ends)))), "termination")
    no = len(eng.oldroots)
    lp.run_pass(final=True)
    del eng.oldroots[no:]

def nested(eng, fn, header):
    """does the loop contain another one, possibly in a function it calls?"""
    blocks = fn.loops[header]
    return any(h != header and h in blocks for h in fn.loops) or any(loopy(eng, fn, b, ()) for b in blocks)
def loopy(eng, fn, b, seen):
    for i in fn.blocks[b]:
        if i.op != 'call' or i.a[0][0] != 'glob': continue
        n = i.a[0][1]
        f = fn.mod.find(n)
        if f is None or n in eng.contracts or n in eng.handlers or f.name in seen: continue
        f.blocks
        if f.loops or any(loopy(eng, f, x, seen + (f.name,)) for x in f.blocks): return True
    return False

def unrolled(eng, fr, header, vals, st, bound):
    """bounded unwinding with an unwinding obligation"""
    ctx = LoopCtx()
    ctx.fr, ctx.header, ctx.blocks, ctx.dry, ctx.gid = fr, header, fr.fn.loops[header], False, ("u", next(eng.cnt))
    ctx.name = fr.fn.name; ctx.writes = set()
    def enter(s, vs, n):
        c = LoopCtx()
        c.fr, c.header, c.blocks, c.dry, c.gid, c.name, c.writes = fr, header, fr.fn.loops[header], False, ctx.gid, ctx.name, ctx.writes
        def back(s2, vs2):
            if n + 1 > bound:
                eng.prove("unwinding bound %d suffices in %s" % (bound, fr.fn.name), z3.BoolVal(False), "unwind"); return
            s2.loops = s2.loops[:-1]
            enter(s2, vs2, n + 1)
        c.back = back
        s.loops = s.loops + (c,)
        s.ghosts.setdefault(ctx.gid, (eng.symarr("ga"), B(0), None))
        for i, v in vs: s.env[i.res] = v
        eng.block(fr, header, 0, s)
    enter(st, vals, 0)
