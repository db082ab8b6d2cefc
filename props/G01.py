import z3, os
from spec import *
from engine import P
import fals, irv, env, sal

R = z3.Function("REACHABLE", BV64, z3.BoolSort())      # from the objects marking starts at
WITHIN = z3.Function("WITHIN_HEAP", BV64, z3.BoolSort())
ONE = B(1)
def setup(ctx):
    F, T = z3.BoolVal(False), z3.BoolVal(True)
    def compact(t): return t.variant != "fatty"
    class Graph:
        """the object graph: an arbitrary object x and an arbitrary child y of it"""
        def __init__(g, t):
            g.t, e = t, t.e
            g.e = e
            g.x = t.obj("x"); g.z = t.obj("z")
            g.sel, g.i = t.bv("selector", 2), t.bv("index")
            x = g.x
            vec, n = t.get("vec", x), t.get("veclen", x)
            T_ = lambda n: TYPE(x) == e.ty("Scm" + n)
            y = z3.If(T_("Cons"), z3.If(g.sel == 0, t.car(x), t.cdr(x)),
                z3.If(T_("Closure"), z3.If(g.sel == 0, t.get("exp", x), t.get("env", x)),
                z3.If(T_("Symbol"), t.get("vcell", x),
                z3.If(T_("Vector"), e.msel(e.marr(St0(), 64), vec, g.i * 8, 64),
                (t.get("values", x) if compact(t) else z3.If(g.sel == 0, t.car(x), t.cdr(x)))))))
            hyg = []
            if t.variant == "hygienic":
                hyg = [("Macro", "hrules"), ("Farsymbol", "fsym"), ("Subpat", "spobj")]
                for wn, f in hyg: y = z3.If(T_(wn), t.get(f, x), y)
            g.y = y
            t.assume(OR(*[T_(n) for n in ("Cons", "Closure", "Symbol", "Vector", "ValuePacket") + tuple(n for n, f in hyg)]))
            t.assume(IMP(T_("Vector"), AND(t.vector_inv(x), g.i >= 0, g.i < n)))
            g.known = []
            for o in (g.x, g.z, y): g.fact(o)
            g.m0 = e.fld0("marked")
            g.own = None
            g.install()
        def clean(g, o): return simp(o & ~ONE) if compact(g.t) else o
        def heap(g, o): return (o & 6) != 6 if compact(g.t) else TYPE(o) != g.e.ty("ScmConstant")
        def fact(g, o):
            """how references are tagged (S01)"""
            e, t = g.e, g.t
            ty = TYPE(o)
            if compact(t):
                e.assume((o & ONE) == 0)
                imm = OR(*[ty == e.ty("Scm" + n) for n in ("Int", "Char", "Constant")])
                e.assume(IMP((o & 6) == 6, OR(imm, o == t.K("INVALID"))))
                e.assume(IMP(imm, (o & 6) == 6))
                e.assume(((o & 6) == 0) == (ty == e.ty("ScmCons")))
                e.assume(((o & 6) == 2) == (ty == e.ty("ScmClosure")))
            sal.otype(e, o)
        def marked(g, o, st): return g.t.get("marked", o, st) != 0
        def was(g, o): return g.e.asel(g.m0, o) != 0
        def closed(g, st, cur=None):
            """a newly marked object's children are marked, except the one which is due"""
            c = [g.marked(g.y, st), NOT(g.heap(g.y))]
            if cur is not None: c.append(g.y == g.clean(cur))
            return IMP(AND(NOT(g.was(g.x)), g.marked(g.x, st)), OR(*c))
        def keeps(g, st): return AND(*[IMP(g.was(o), g.marked(o, st)) for o in (g.x, g.y, g.z)])
        def only(g, st): return AND(*[IMP(AND(NOT(g.was(o)), g.marked(o, st)), R(o)) for o in (g.x, g.z)])
        def install(g):
            e, t, H = g.e, g.t, g.e.handlers
            def bit(st, c, v): return simp(v | z3.If(g.marked(c, st), ONE, B(0))) if compact(t) else v
            def ref(o):
                """an accessor which accepts a reference with the collector's bit"""
                c = g.clean(e.bv(o)); g.fact(c); return c
            def child(f, ty, plain=False, xfield=True):
                def h(e, st, a, k, fi):
                    o = e.bv(a[0])
                    if plain and compact(t): e.prove("the pair accessors get a reference without the collector's bit", (o & ONE) == 0, "type")
                    c = ref(o)
                    e.prove("access to %s in %s only on a %s" % (f, fi[0].fn.name, ty.lower()), TYPE(c) == e.ty("Scm" + ty), "type")
                    v = e.getf(st, f, c)
                    g.fact(v)
                    e.assume(IMP(R(c), R(v)))
                    return bit(st, c, v) if xfield else v
                return h
            H["__sal_get_car"] = child("car", "Cons", True); H["__sal_get_cdr"] = child("cdr", "Cons", True, False)
            H["__sal_get_exp"] = child("exp", "Closure"); H["__sal_get_env"] = child("env", "Closure", xfield=False)
            H["__sal_get_vcell"] = child("vcell", "Symbol"); H["__sal_get_values"] = child("values", "ValuePacket")
            H["__sal_get_vcar"] = child("car", "ValuePacket"); H["__sal_get_vcdr"] = child("cdr", "ValuePacket")
            if t.variant == "hygienic":
                hyg = [("Macro", "hrules"), ("Farsymbol", "fsym"), ("Subpat", "spobj")]
                is_ = lambda c: OR(*[TYPE(c) == e.ty("Scm" + n) for n, f in hyg])
                H["__sal_wrapperp"] = lambda e, st, a, k, fi: z3.If(is_(ref(a[0])), B(1, 32), B(0, 32))
                def wrapped(e, st, a, k, fi):
                    c = ref(a[0])
                    e.prove("only a macro object is taken for one", is_(c), "type")
                    v = e.getf(st, "hrules", c)
                    for n, f in hyg[1:]: v = z3.If(TYPE(c) == e.ty("Scm" + n), e.getf(st, f, c), v)
                    g.fact(v)
                    e.assume(IMP(R(c), R(v)))
                    return bit(st, c, v)
                H["__sal_get_wrapped"] = wrapped
            def vec(e, st, a, k, fi):
                c = ref(a[0])
                e.prove("access to vec in %s only on a vector" % fi[0].fn.name, TYPE(c) == e.ty("ScmVector"), "type")
                v = e.getf(st, "vec", c)
                t.assume(t.vector_inv(c), (v & ONE) == 0)
                g.own = c; st.aux["own"] = c
                return e.ptr(bit(st, c, v))
            H["__sal_get_vec"] = vec
            def veclen(e, st, a, k, fi):
                c = ref(a[0])
                e.prove("access to veclen in %s only on a vector" % fi[0].fn.name, TYPE(c) == e.ty("ScmVector"), "type")
                t.assume(t.vector_inv(c)); st.aux["own"] = c
                return e.getf(st, "veclen", c)
            H["__sal_get_veclen"] = veclen
            H["__sal_type"] = lambda e, st, a, k, fi: sal.otype(e, ref(a[0]))
            H["__sal_get_marked"] = lambda e, st, a, k, fi: e.getf(st, "marked", ref(a[0]))
            def setm(e, st, a, k, fi):
                c = ref(a[0])
                e.prove("only heap objects are marked", g.heap(c), "type")
                e.prove("only reachable objects are marked", R(c))
                e.setf(st, "marked", c, a[1]); st.aux["own"] = c
                return B(0)
            H["__sal_set_marked"] = setm
            def mem(e, st, base, o, w, wr):
                c = st.aux.get("own")
                if c is None or w != 64: return
                if wr: e.prove("marking does not write to vectors", F); return
                v = e.msel(e.marr(st, 64), base, o, 64)
                e.prove("elements are read from the vector and inside it", IMP(base == t.get("vec", c), z3.ULT(o, t.get("veclen", c) * 8)), "safety")
                g.fact(v)
                e.assume(IMP(AND(R(c), base == t.get("vec", c), z3.ULT(o, t.get("veclen", c) * 8), (o & 7) == 0), R(v)))
            e.memhook = mem
        def marks(g, e, st, c, also=()):
            """effect of marking c, by contract"""
            t = g.t
            c = g.clean(c); g.fact(c)
            old = dict(st.fld)
            e.prove("marking continues only at reachable objects", R(c))
            before = lambda o: (e.asel(old["marked"], o) if "marked" in old else e.asel(g.m0, o)) != 0
            st.fld["marked"] = z3.Array("marked!%d" % next(e.cnt), BV64, z3.BitVecSort(32)); e.wkey('f', "marked")
            for o in (g.x, g.y, g.z, c) + tuple(also): e.assume(IMP(before(o), g.marked(o, st)))
            e.assume(IMP(g.heap(c), g.marked(c, st)))
            e.assume(IMP(AND(NOT(before(g.x)), g.marked(g.x, st), g.heap(g.y)), g.marked(g.y, st)))
            for o in (g.x, g.z): e.assume(IMP(AND(NOT(before(o)), g.marked(o, st)), R(o)))
    def St0():
        from engine import St
        return St()
    def terms(v, w=64):
        """64 bit values of the loop"""
        out = []
        for x in v.lp.vars:
            y = v.vals.get(x.key)
            if isinstance(y, P): y = v.e.bv(y) if y.kind == 'raw' else None
            if y is not None and z3.is_bv(y) and y.size() == 64: out.append(y)
        return out
    def invariants(g, o=None):
        """what holds in every loop while marking"""
        e, t = g.e, g.t
        c = e.cands
        c.append(lambda v: g.keeps(v.st)); c.append(lambda v: g.only(v.st)); c.append(lambda v: g.closed(v.st))
        for q in range(4):
            def due(v, q=q):
                xs = terms(v)
                return None if q >= len(xs) else g.closed(v.st, xs[q])
            def reach(v, q=q):
                xs = terms(v)
                if q >= len(xs): return None
                g.fact(g.clean(xs[q])); return R(g.clean(xs[q]))
            def first(v, q=q):
                xs = terms(v)
                return None if q >= len(xs) or o is None else OR(g.clean(xs[q]) == o, NOT(g.heap(o)), g.marked(o, v.st))
            c.extend([due, reach, first])
        if o is not None: c.append(lambda v: IMP(g.heap(o), g.marked(o, v.st)))
        # elements of a vector before the position of the loop are marked
        def elems(v):
            own = v.st.aux.get("own")
            if own is None: return None
            return IMP(AND(NOT(g.was(g.x)), g.marked(g.x, v.st), g.heap(g.y)), OR(g.marked(g.y, v.st), AND(g.x == own, z3.UGE(g.i, v.it))))
        c.append(elems)
        def elems_down(v):
            own = v.st.aux.get("own")
            if own is None: return None
            return IMP(AND(NOT(g.was(g.x)), g.marked(g.x, v.st), g.heap(g.y)), OR(g.marked(g.y, v.st), AND(g.x == own, z3.ULT(g.i, t.get("veclen", own) - v.it))))
        c.append(elems_down)
        c.append(lambda v: None if v.st.aux.get("own") is None else z3.ULE(v.it, t.get("veclen", v.st.aux["own"])))
    def mark(t):
        e = t.e
        g = Graph(t)
        obj = t.obj("obj"); g.fact(obj)
        dirty = t.bv("bit") & ONE if compact(t) else B(0)
        t.assume(R(obj))
        def rec(e, st, a, k, fi):
            g.marks(e, st, e.bv(a[0]), (obj,)); return B(0)
        e.contracts["mark_obj"] = rec
        invariants(g, obj)
        def ret(st, v):
            t.prove("the object is marked", IMP(g.heap(obj), g.marked(obj, st)))
            t.prove("every child of a newly marked object is marked, whatever kind of object it is", g.closed(st))
            t.prove("nothing is unmarked", g.keeps(st))
            t.prove("nothing but what is reachable is marked", g.only(st))
            t.prove_frame(st)
        arg = simp(obj | dirty) if compact(t) else e.ptr(obj)
        t.call("mark_obj", [arg], ret, lambda *a: t.prove("no error", F))
    ctx.irv("mark an object", mark, variants=("compact", "fatty", "hygienic"))

    # ------------------------------------------------ where marking starts
    class Roots:
        """marking from a place is a ghost set of the object references handed to mark_obj"""
        def __init__(g, t, conservative=False):
            g.t, g.e = t, t.e
            g.j = t.bv("j")
            def mk(e, st, a, k, fi):
                o = e.bv(a[0])
                if conservative: e.prove("only what refers to an object of the heap is marked", WITHIN(o))
                e.setf(st, "marked", o, B(1, 32))
                return B(0)
            t.e.contracts["mark_obj"] = mk
            def within(e, st, a, k, fi): return z3.If(WITHIN(e.bv(a[0])), B(1, 32), B(0, 32))
            t.e.contracts["within_heapp"] = within
        def done(g, o, st): return g.t.get("marked", o, st) != 0
        def word(g, st, base, off): return g.e.msel(g.e.marr(st, 64), base, off, 64)
    def each(e, n, j, want, done):
        """position j is done when the loop has passed it, in whichever direction"""
        e.cands.append(lambda V: z3.ULE(V.it, n))
        e.cands.append(lambda V: IMP(AND(want, z3.ULT(j, V.it)), done(V.st)))
        e.cands.append(lambda V: IMP(AND(want, z3.UGE(j, n - V.it)), done(V.st)))
    def gl(t, name, v, unit="gc_mark"):
        """content of a global variable of the collector"""
        p = t.static(unit, name)
        t.e.mo(t.st, p.base, True).cells[p.off] = (64, v)
    def protvars(t):
        e = t.e; g = Roots(t)
        base, n = t.bv("variables"), t.bv("n")
        t.assume(z3.ULT(n, B(1 << 58)))
        gl(t, "l_protected_vars", e.ptr(base)); gl(t, "l_protected_vars_size", n)
        v = g.word(t.st, base, g.j * 8)
        o = g.word(t.st, v, B(0))
        want = AND(base != 0, z3.ULT(g.j, n), v != 0)
        each(e, n, g.j, want, lambda st: g.done(o, st))
        def mem(e, st, b, off, w, wr):
            if wr: e.prove("no variable is changed", F, "frame"); return
            if b.eq(base): e.prove("the table of variables is read inside its size", z3.ULT(off, n * 8), "safety")
            else: e.prove("an empty slot is not followed", b != 0, "safety")
        e.memhook = mem
        def ret(st, r): t.prove("the object in every registered variable is marked", IMP(want, g.done(o, st)))
        t.call("gc_mark_protected_var", [], ret)
    ctx.irv("registered variables are marked", protvars)
    for fn, cons, tag in (("gc_mark_definite_locations_n", False, "definite"), ("gc_mark_locations_n", True, "conservative")):
        def locs(t, fn=fn, cons=cons):
            e = t.e; g = Roots(t, cons)
            base, n = t.bv("start"), t.bv("n")
            t.assume(z3.ULT(n, B(1 << 58)), base & 7 == 0)
            o = g.word(t.st, base, g.j * 8)
            want = z3.ULT(g.j, n) if not cons else AND(z3.ULT(g.j, n), WITHIN(o))
            each(e, n, g.j, want, lambda st: g.done(o, st))
            def mem(e, st, b, off, w, wr):
                if wr: e.prove("no location is changed", F, "frame"); return
                e.prove("only the region is read", AND(z3.BoolVal(b.eq(base)), z3.ULT(off, n * 8)), "safety")
            e.memhook = mem
            def ret(st, r): t.prove("every reference in the region is marked", IMP(want, g.done(o, st)))
            t.call(fn, [e.ptr(base), n], ret)
        ctx.irv("%s locations are marked" % tag, locs)
    # ------------------------------------------------ the table of registered variables
    def table(t):
        """slots 0 ... n-1 at base, of which some are empty"""
        e = t.e
        base, n, empty, j = t.bv("variables"), t.bv("n"), t.bv("empty"), t.bv("j")
        t.assume(z3.ULT(n, B(1 << 44)), z3.ULT(base, B(1 << 47)), z3.ULE(empty, n), IMP(base == 0, n == 0))
        gl(t, "l_protected_vars", e.ptr(base)); gl(t, "l_protected_vars_size", n); gl(t, "l_n_empty_protected_vars", empty)
        t.assume(AGE(base) <= z3.Int("clk0"))
        sel = lambda st, b, i: e.msel(e.marr(st, 64), b, i * 8, 64)
        now = lambda st, name: t.cell(st, t.static("gc_mark", name, st), t.static("gc_mark", name, st).off, 64)
        return base, n, empty, j, sel, now
    def locate(t):
        e = t.e
        base, n, empty, j, sel, now = table(t)
        var = t.bv("variable")
        def mem(e, st, b, off, w, wr):
            if wr: e.prove("the table is not changed", F, "frame"); return
            e.prove("the table is read inside its size", AND(z3.BoolVal(b.eq(base)), z3.ULT(off, n * 8)), "safety")
        e.memhook = mem
        has = AND(z3.ULT(j, n), sel(t.st, base, j) == var)
        each(e, n, j, has, lambda st: F)
        def ret(st, r):
            k = z3.LShR(r - base, 3)
            t.prove("the slot which is found holds the variable", IMP(r != 0, AND((r - base) & 7 == 0, z3.ULT(k, n), e.msel(e.marr(st, 64), base, r - base, 64) == var)))
            t.prove("a registered variable is found", NOT(AND(r == 0, has)))
        t.call("locate_protected_var", [e.ptr(var)], ret)
    ctx.irv("find a registered variable", locate)
    def registry(t):
        e = t.e
        base, n, empty, j, sel, now = table(t)
        var = t.bv("variable")
        t.assume(var != 0)
        z = t.bv("empty_slot")          # the number of empty slots is kept exactly, so that one exists unless it is 0
        t.assume(IMP(empty != 0, AND(z3.ULT(z, n), sel(t.st, base, z) == 0, base != 0)))
        k = t.bv("slot")
        def loc(e, st, a, kk, fi):
            v = e.bv(a[0])
            b, m = now(st, "l_protected_vars"), now(st, "l_protected_vars_size")
            b, m = e.bv(b), e.bv(m)
            found = t.bv("found", 1) == 1
            t.assume(IMP(found, AND(z3.ULT(k, m), sel(st, b, k) == v)))
            for q in (j, z): t.assume(IMP(NOT(found), NOT(AND(z3.ULT(q, m), sel(st, b, q) == v))))
            e.branch(st, found, lambda s: kk(s, P('raw', b, k * 8)), lambda s: kk(s, engine_null))
            return None
        e.contracts["locate_protected_var"] = loc
        def realloc(e, st, a, kk, fi):
            sz = e.bv(a[1]); old = e.bv(a[0])
            nb = e.newblock(st, sz, "table")
            A = e.marr(st, 64)
            st.M[64] = z3.Store(A, nb, e.asel(A, old)); e.wkey('M', 64)
            return P('raw', nb, 0)
        e.contracts["scm_realloc"] = realloc
        writes = []
        def mem(e, st, b, off, w, wr):
            if not wr: return
            m = e.bv(now(st, "l_protected_vars_size"))
            st.aux["w"] = st.aux.get("w", ()) + ((b, off),)
        e.memhook = mem
        return base, n, empty, j, sel, now, var, z, k
    from engine import NULLP as engine_null
    def protect(t):
        e = t.e
        base, n, empty, j, sel, now, var, z, k = registry(t)
        before = sel(t.st, base, j)
        def ret(st, r):
            b2, n2, em2 = [e.bv(now(st, x)) for x in ("l_protected_vars", "l_protected_vars_size", "l_n_empty_protected_vars")]
            t.prove("a variable which is registered stays registered", IMP(AND(z3.ULT(j, n), before != 0), AND(z3.ULT(j, n2), sel(st, b2, j) == before)))
            ws = st.aux.get("w", ())
            t.prove("exactly one slot is filled", z3.BoolVal(len(ws) == 1))
            if len(ws) != 1: return
            b, off = ws[0]; i = z3.LShR(off, 3)
            t.prove("the variable is in the table", AND(b == b2, off & 7 == 0, z3.ULT(i, n2), e.msel(e.marr(st, 64), b2, off, 64) == var))
            t.prove("the number of empty slots is kept", z3.If(z3.ULT(i, n), AND(sel(t.st, base, i) == 0, em2 == empty - 1, n2 == n), AND(i == n, em2 == empty, n2 == n + 1)))
        t.call("scm_gc_protect", [e.ptr(var)], ret, lambda *a: t.prove("no error", F))
    ctx.irv("register a variable", protect)
    def unprotect(t):
        e = t.e
        base, n, empty, j, sel, now, var, z, k = registry(t)
        before = sel(t.st, base, j)
        def ret(st, r):
            b2, n2, em2 = [e.bv(now(st, x)) for x in ("l_protected_vars", "l_protected_vars_size", "l_n_empty_protected_vars")]
            t.prove("any other variable stays registered", IMP(AND(z3.ULT(j, n), before != var), AND(b2 == base, n2 == n, sel(st, b2, j) == before)))
            ws = st.aux.get("w", ())
            t.prove("at most one slot is emptied", z3.BoolVal(len(ws) <= 1))
            for b, off in ws[:1]:
                t.prove("the number of empty slots is kept", AND(sel(t.st, base, z3.LShR(off, 3)) != 0, em2 == empty + 1, e.msel(e.marr(st, 64), b, off, 64) == 0))
            if not ws: t.prove("the number of empty slots is kept", em2 == empty)
        t.call("scm_gc_unprotect", [e.ptr(var)], ret, lambda *a: t.prove("no error", F))
    ctx.irv("unregister a variable", unprotect)
    def region(t):
        e = t.e
        s, d, up = t.bv("start"), t.bv("distance"), t.bv("towards_higher_addresses", 1) == 1
        certain = t.bv("certain", 32)
        t.assume(s & 7 == 0, d & 7 == 0, z3.ULT(d, B(1 << 46)), d != 0, s > (1 << 46), z3.ULT(s, B(1 << 47)))
        end = z3.If(up, s + d, s - d)
        a = t.bv("location")
        t.assume(a & 7 == 0, z3.If(up, AND(z3.UGE(a, s), z3.ULT(a, end)), AND(z3.UGE(a, end), z3.ULE(a, s))))
        calls = []
        def rec(kind):
            def h(e, st, ar, k, fi):
                b, n = e.bv(ar[0]), e.bv(ar[1])
                e.prove("a region is scanned conservatively unless its contents are known to be objects", IMP(certain == 0, z3.BoolVal(kind == "conservative")))
                st.aux["calls"] = st.aux.get("calls", ()) + ((b, n),)
                return B(0)
            return h
        e.contracts["gc_mark_locations_n"] = rec("conservative")
        e.contracts["gc_mark_definite_locations_n"] = rec("definite")
        e.unroll_all = 9
        def ret(st, r):
            t.prove("every location of the region is scanned, whichever way the stack grows",
                OR(*[AND(z3.UGE(a, b), z3.ULT((a - b) / 8, n), (a - b) & 7 == 0, n > 0) for b, n in st.aux.get("calls", ())]))
            lo, hi = z3.If(up, s, end - 8), z3.If(up, end, s + 8)
            t.prove("nothing outside the region and its ends is scanned", AND(*[IMP(n > 0, AND(z3.UGE(b, lo), z3.ULE(b + n * 8, hi))) for b, n in st.aux.get("calls", ())]))
        t.call("gc_mark_locations", [e.ptr(s), e.ptr(end), certain, t.bv("aligned", 32)], ret)
    ctx.irv("the whole stack is scanned", region)
    def gcmark(t):
        e = t.e
        h, n, roots = t.bv("symbol_table"), t.bv("symbol_table_size"), t.bv("roots")
        def rec(name):
            def f(e, st, a, k, fi):
                st.aux["done"] = st.aux.get("done", ()) + ((name, tuple(e.bv(x) for x in a)),)
                return B(0)
            return f
        gl(t, "l_gcroots_ctx", e.ptr(roots))
        e.contracts["GCROOTS_mark"] = rec("stack"); e.contracts["gc_mark_protected_var"] = rec("variables")
        e.contracts["gc_mark_definite_locations_n"] = rec("symbols")
        def ret(st, r):
            d = st.aux.get("done", ())
            hh, nn = symtab(t, st)
            t.prove("the stack and the registers are marked", OR(*[x[0] == roots for k, x in d if k == "stack"]))
            t.prove("the registered variables are marked", z3.BoolVal(any(k == "variables" for k, x in d)))
            t.prove("all symbols are marked", OR(hh == 0, *[AND(x[0] == hh, x[1] == nn) for k, x in d if k == "symbols"]))
        t.call("gc_mark", [], ret)
    def symtab(t, st):
        u = t.fn("gc_mark_global_vars").mod
        g = lambda n: t.e.bv(t.e.load(None, st, t.static("gc_mark_global_vars", n, st, "symbol"), ('i', 64), u))
        return g("scm_symbol_hash"), g("scm_symbol_hash_size")
    ctx.irv("marking starts at all roots", gcmark)
    def within(t):
        """an object of the heap is recognised, and nothing else is"""
        e = t.e
        cs = t.c["sizeof_cell"]
        o = t.bv("reference"); j = t.bv("heap")
        heaps, nh, hs, lo, hi = t.bv("heaps"), t.bv("number_of_heaps"), t.bv("heap_size"), t.bv("lowest"), t.bv("highest")
        for n, v in (("l_heaps", e.ptr(heaps)), ("l_n_heaps", nh), ("l_heap_size", hs), ("l_heaps_lowest", e.ptr(lo)), ("l_heaps_highest", e.ptr(hi))): gl(t, n, v)
        t.assume(z3.ULT(hs, B(1 << 40)), z3.ULT(nh, B(1 << 58)))
        TAG = z3.Function("TAG_CONSISTENT", BV64, BV64, z3.BoolSort())
        e.handlers["__sal_tag_consistentp"] = lambda e, st, a, k, fi: z3.If(TAG(e.bv(a[0]), e.bv(a[1])), B(1, 32), B(0, 32))
        cell = simp(o & ~B(7)) if compact(t) else o
        H = e.msel(e.marr(t.st, 64), heaps, j * 8, 64)
        # invariant of the table of heaps (established where a heap is added)
        def ok(h): return AND(h != 0, h & (cs - 1) == 0, z3.ULT(h, B(1 << 47)), z3.UGE(h, lo), z3.ULE(h, h + hs * cs), z3.ULE(h + hs * cs, hi))
        e.uinv[("M", e.marr(t.st, 64).get_id())] = []
        good = AND(z3.ULT(j, nh), ok(H), z3.UGE(cell, H), z3.ULT(cell, H + hs * cs), cell & (cs - 1) == 0, TAG(o, cell) if compact(t) else T, (o & 6) != 6 if compact(t) else T)
        seen = []
        def mem(e, st, b, off, w, wr):
            if wr: e.prove("nothing is written", F, "frame"); return
            if b.eq(heaps): e.prove("the table of heaps is read inside its size", z3.ULT(off, nh * 8), "safety")
            if b.eq(heaps) and w == 64: seen.append((off, e.msel(e.marr(st, 64), heaps, off, 64)))
        e.memhook = mem
        each(e, nh, j, good, lambda st: F)
        def ret(st, r):
            y = (r & 0xff if r.size() > 8 else r) != 0
            t.prove("every reference to a cell of the heap is recognised", IMP(good, y))
            inside = [AND(z3.UGE(cell, h), z3.ULT(cell, h + hs * cs), cell & (cs - 1) == 0, z3.ULT(off, nh * 8)) for off, h in seen]
            t.prove("nothing but a reference to a cell of the heap is recognised", IMP(y, AND(OR(*inside), *( [TAG(o, cell), (o & 6) != 6] if compact(t) else []))))
        t.call("within_heapp", [o if compact(t) else e.ptr(o)], ret)
    ctx.irv("references to the heap are recognised", within, timeout=60000)

    def start(t):
        """how the collector is set up"""
        e = t.e
        for n in ("initialize_heap",): e.contracts[n] = lambda e, st, a, k, fi: B(0)
        ctxp = t.bv("context")
        got = []
        def init(e, st, a, k, fi):
            m = a[1] if isinstance(a[1], P) else e.ptr(a[1])
            got.append(m)
            e.prove("the region scanner is what marks the stack", z3.BoolVal(m.kind == 'fn' and m.base is t.fn("gc_mark_locations")))
            return e.ptr(ctxp)
        e.contracts["GCROOTS_init"] = init
        def ret(st, r):
            p = t.static("gc_mark", "l_gcroots_ctx", st)
            t.prove("the collector asks the stack scanner it was set up with", AND(z3.BoolVal(len(got) > 0), e.bv(t.cell(st, p, p.off, 64)) == ctxp))
        t.call("scm_init_gc", [t.bv("conf")], ret)
    ctx.irv("the collector is set up", start)
    ctx.assume("libgcroots (the installed library, not part of this repository) calls the marking procedure for a region which covers the C stack from its base to the caller, with the registers saved on it",
        "a registered variable's address is not NULL and the variable is valid as long as it is registered", "all pointers are below 2^47, a table has fewer than 2^44 slots",
        "marking is a partial correctness argument: what holds when it ends (each step marks an object which was not marked, so it ends; the C stack is assumed deep enough for the nesting of the objects)",
        "lemma over the contracts (an induction on paths, not machine-checked): if the roots are marked and every marked object's children are marked, then everything reachable is marked")
    def fals_(ctx, failed):
        for v in ("compact", "fatty", "hygienic"):
            exe = env.with_library(os.path.join(env.VERIF, "fals", "gc.c"), v)
            for k in "012":
                p = env.run([exe, k], check=False, timeout=120)
                if p.returncode or "OK" not in p.stdout:
                    return "replay: fals/gc.c linked with the library built from /repo/src (%s layout), heap configuration %s: exit status %d\n%s\n%s" % (v, k, p.returncode, p.stdout[-1500:], p.stderr[-1500:])
    ctx.falsifier(fals_)
