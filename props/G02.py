import z3, os
from spec import *
from engine import P, NULLP, FIELD_SORT
import fals, irv, env, sal, cbmc

# ghost state of the sweep, per cell: mark, free, times released, times put on the free list; its head; how many were put there
for f, w in (("cmark", 32), ("cfree", 32), ("cfin", 64), ("crec", 64), ("ghead", 64), ("gcount", 64)): FIELD_SORT.setdefault(f, w)
Z = B(0)
def setup(ctx):
    F, T = z3.BoolVal(False), z3.BoolVal(True)
    HN = ("l_heaps", "l_n_heaps", "l_heap_size", "l_freelist", "l_n_heaps_max", "l_heaps_lowest", "l_heaps_highest", "l_heap_alloc_threshold")
    class Heap:
        def __init__(g, t, unit="gc_sweep"):
            g.t, e = t, t.e
            g.e, g.unit = e, unit
            g.cs = t.c["sizeof_cell"]
            (g.heaps, g.n, g.size, g.free, g.max, g.low, g.high, g.threshold) = [t.bv(x) for x in HN]
            for x, v in zip(HN, (e.ptr(g.heaps), g.n, g.size, g.free, g.max, e.ptr(g.low), e.ptr(g.high), g.threshold)): g.put(t.st, x, v)
            g.k, g.i = t.bv("heap"), t.bv("cell")
            t.assume(z3.ULT(g.size, B(1 << 40)), g.size != 0, z3.ULT(g.n, B(1 << 44)), z3.ULT(g.heaps, B(1 << 47)), AGE(g.heaps) <= z3.Int("clk0"))
            g.H = g.at(t.st, g.k)
            g.bytes = g.size * g.cs
            t.assume(g.heapok(g.H))
            g.C = g.H + g.i * g.cs
            t.assume(z3.ULT(g.i, g.size))
            for f in ("cfin", "crec"): t.assume(t.get(f, g.C) == 0)
            t.assume(t.get("gcount", Z) == 0, t.get("ghead", Z) == g.free)
            e.setf(t.st, "ghead", Z, g.free)
            g.m0, g.f0 = t.get("cmark", g.C) != 0, t.get("cfree", g.C) != 0
        def heapok(g, h): return AND(h != 0, h & (g.cs - 1) == 0, z3.ULT(h, B(1 << 47)), z3.ULT(h + g.bytes, B(1 << 47)))
        def at(g, st, k): return g.e.msel(g.e.marr(st, 64), g.heaps, k * 8, 64)
        def put(g, st, name, v):
            p = g.t.static(g.unit, name, st)
            g.e.mo(st, p.base, True).cells[p.off] = (64, v)
        def now(g, st, name):
            p = g.t.static(g.unit, name, st)
            return g.e.bv(g.t.cell(st, p, p.off, 64))
        def get(g, st, f): return g.t.get(f, g.C, st)
        def pending(g, st): return AND((g.get(st, "cmark") != 0) == g.m0, (g.get(st, "cfree") != 0) == g.f0, g.get(st, "cfin") == 0, g.get(st, "crec") == 0)
        def swept(g, st):
            m, f, fin, rec = [g.get(st, x) for x in ("cmark", "cfree", "cfin", "crec")]
            kept = AND(m == 0, (f != 0) == g.f0, fin == 0, rec == 0)
            return z3.If(OR(g.m0, g.f0), kept, AND(m == 0, f != 0, fin == 1, rec == 1))
        def finished(g, st): return AND(g.get(st, "cfin") == 1, g.get(st, "crec") == 0)
        def linked(g, st): return AND(g.get(st, "cfree") != 0, g.get(st, "crec") == 1)
        def disjoint(g, st):
            """reads of the table of heaps"""
            e = g.e
            def mem(e, st, b, off, w, wr):
                if not b.eq(g.heaps): return
                if wr: e.prove("the table of heaps is not changed", F, "frame"); return
                e.prove("the table of heaps is read inside its size", z3.ULT(off, g.n * 8), "safety")
                h = e.msel(e.marr(st, 64), g.heaps, off, 64)
                q = off                         # the heap, by its place in the table
                e.assume(g.heapok(h))
                e.assume(OR(q == g.k * 8, z3.ULE(h + g.bytes, g.H), z3.ULE(g.H + g.bytes, h)))     # heaps are disjoint
                st.aux["heap"] = (q, h)
            e.memhook = mem
        def cellp(g, st, c, what):
            q, h = st.aux.get("heap", (None, None))
            g.e.prove("%s only of a cell of a heap" % what, F if h is None else AND(z3.UGE(c, h), z3.ULT(c, h + g.bytes), (c - h) & (g.cs - 1) == 0), "safety")
            if h is None: return
            # a lemma which the later steps use: which cell this is
            lemma = (c == g.C) == AND(q == g.k * 8, simp(c - h) == g.i * g.cs)
            g.e.prove("cells of different heaps are different", lemma, "safety"); g.e.assume(lemma)
        def handlers(g, fin=True):
            e, t = g.e, g.t
            H = e.handlers
            b32 = lambda c: z3.If(c, B(1, 32), B(0, 32))
            def markedp(e, st, a, k, fi): g.cellp(st, e.bv(a[0]), "the mark is read"); return b32(t.get("cmark", e.bv(a[0]), st) != 0)
            def freep(e, st, a, k, fi): g.cellp(st, e.bv(a[0]), "freeness is read"); return b32(t.get("cfree", e.bv(a[0]), st) != 0)
            def unmark(e, st, a, k, fi):
                c = e.bv(a[0]); g.cellp(st, c, "the mark is cleared"); e.setf(st, "cmark", c, B(0, 32)); return Z
            def fincell(e, st, a, k, fi):
                c = e.bv(a[0]); g.cellp(st, c, "resources are released")
                e.prove("resources are released only of a cell in use which is not marked", AND(NOT(t.get("cmark", c, st) != 0), NOT(t.get("cfree", c, st) != 0)) if fin != "all" else T)
                e.setf(st, "cfin", c, simp(t.get("cfin", c, st) + 1)); return Z
            def reclaim(e, st, a, k, fi):
                c, nx = e.bv(a[0]), e.bv(a[1]); g.cellp(st, c, "reclaiming")
                e.prove("a reclaimed cell is put in front of the free list", nx == t.get("ghead", Z, st))
                e.prove("resources are released before the cell is reclaimed", IMP(c == g.C, t.get("cfin", c, st) == (1 if fin else 0)))
                e.setf(st, "cfree", c, B(1, 32)); e.setf(st, "cmark", c, B(0, 32))
                e.setf(st, "crec", c, simp(t.get("crec", c, st) + 1))
                e.setf(st, "ghead", Z, c); e.setf(st, "gcount", Z, simp(t.get("gcount", Z, st) + 1))
                return c
            H["__sal_cell_markedp"], H["__sal_cell_freep"], H["__sal_cell_unmark"], H["__sal_reclaim"] = markedp, freep, unmark, reclaim
            e.contracts["free_cell"] = fincell
        def invariants(g, after):
            """the chosen cell is pending before the loop has passed it and `after` holds then"""
            e, t, c = g.e, g.t, g.e.cands
            c.append(lambda V: z3.ULE(V.it, g.n)); c.append(lambda V: z3.ULE(V.it, g.size))
            c.append(lambda V: z3.If(z3.ULT(g.k, V.it), after(V.st), g.pending(V.st)))
            c.append(lambda V: z3.If(z3.UGE(g.k, g.n - V.it), after(V.st), g.pending(V.st)))
            def inner(down, part):
                def f(V):
                    hp = V.st.aux.get("heap")
                    if hp is None: return None
                    q, h = hp
                    here = q == g.k * 8
                    if part == 0: return AND(IMP(here, h == g.H), IMP(NOT(here), AND(*[t.get(x, g.C, V.st) == t.get(x, g.C, V.lp.st0) for x in ("cmark", "cfree", "cfin", "crec")])))
                    passed = z3.UGE(g.i, g.size - V.it) if down else z3.ULT(g.i, V.it)
                    return IMP(AND(here, passed), after(V.st)) if part == 1 else IMP(AND(here, NOT(passed)), g.pending(V.st))
                return f
            for part in range(3): c.append(inner(False, part))
            for part in (1, 2): c.append(inner(True, part))
            def nth(j, f):
                def h(V):
                    xs = [x for x in V.lp.vars if x.key in V.vals]
                    if j >= len(xs): return None
                    v, x0 = V.vals[xs[j].key], xs[j].x0
                    try: v, x0 = e.bv(v), e.bv(x0)
                    except (irv.Unsupported, TypeError, AttributeError): return None
                    if not (z3.is_expr(v) and z3.is_bv(v) and v.size() == 64 and z3.is_expr(x0)): return None
                    return f(V, v, x0)
                return h
            for j in range(6):
                c.append(nth(j, lambda V, v, x0: v == t.get("ghead", Z, V.st)))
                c.append(nth(j, lambda V, v, x0: v - x0 == t.get("gcount", Z, V.st) - t.get("gcount", Z, V.lp.st0)))
            c.append(lambda V: g.now(V.st, "l_freelist") == t.get("ghead", Z, V.st))
    def sweep(t):
        e = t.e; g = Heap(t); g.handlers(); g.disjoint(t.st); g.invariants(g.swept)
        t.assume(z3.ULT(g.k, g.n))
        def ret(st, r):
            t.prove("a cell in use which is not marked is released and put on the free list, exactly once; any other is kept and unmarked", g.swept(st))
            t.prove("the free list starts with what was reclaimed last, linked to the old one", g.now(st, "l_freelist") == t.get("ghead", Z, st))
            t.prove("the number of reclaimed cells is returned", r == t.get("gcount", Z, st))
            for x, v in (("l_heaps", g.heaps), ("l_n_heaps", g.n), ("l_heap_size", g.size)): t.prove("the heaps stay as they are", g.now(st, x) == v, "frame")
        t.call("gc_sweep", [], ret)
    ctx.irv("sweeping", sweep, variants=("compact", "fatty"))
    def fin(t):
        e = t.e; g = Heap(t, "finalize_heap"); g.handlers("all"); g.disjoint(t.st)
        t.assume(z3.ULT(g.k, g.n))
        once = lambda st: g.get(st, "cfin") == 1
        g.pending = lambda st: g.get(st, "cfin") == 0
        g.invariants(once)
        # the heaps themselves: times released, by address
        rel = lambda st, a: t.get("crec", a, st)
        t.assume(rel(t.st, g.H) == 0, rel(t.st, g.heaps) == 0, g.heaps != g.H)
        def free(e, st, a, k, fi):
            p = e.bv(a[0])
            q, h = st.aux.get("heap", (Z, Z))
            e.prove("the cells of a heap are released before the heap is", IMP(p == g.H, g.get(st, "cfin") == 1))
            st2 = simp(rel(st, p) + 1)
            e.setf(st, "crec", p, st2); return Z
        e.handlers["free"] = free
        # heaps have different addresses, none is the table
        old = e.memhook
        def mem(e, st, b, off, w, wr):
            old(e, st, b, off, w, wr)
            if b.eq(g.heaps) and not wr:
                h = e.msel(e.marr(st, 64), g.heaps, off, 64)
                e.assume(h != g.heaps)
                e.prove("the table is not read after its release", rel(st, g.heaps) == 0, "safety")
        e.memhook = mem
        e.cands.append(lambda V: rel(V.st, g.H) == z3.If(z3.ULT(g.k, V.it), B(1), B(0)))
        e.cands.append(lambda V: rel(V.st, g.H) == z3.If(z3.UGE(g.k, g.n - V.it), B(1), B(0)))
        e.cands.append(lambda V: rel(V.st, g.heaps) == 0)
        e.cands.append(lambda V: rel(V.st, g.H) == rel(V.lp.st0, g.H))
        def ret(st, r):
            t.prove("the resources of every cell are released once", once(st))
            t.prove("every heap is released once", rel(st, g.H) == 1)
            t.prove("the table of heaps is released once", rel(st, g.heaps) == 1)
        t.call("finalize_heap", [], ret)
    ctx.irv("releasing everything at the end", fin, variants=("compact", "fatty"))
    def add(t):
        e = t.e; g = Heap(t, "add_heap"); g.handlers(False)
        t.assume(IMP(g.n == 0, AND(g.heaps == 0)), IMP(g.heaps == 0, g.n == 0))
        j = t.bv("old_heap"); before = g.at(t.st, j)
        st8 = {}
        def realloc(e, st, a, k, fi):
            sz, old = e.bv(a[1]), e.bv(a[0])
            nb = e.newblock(st, sz, "table")
            A = e.marr(st, 64)
            st.M[64] = z3.Store(A, nb, e.asel(A, old)); e.wkey('M', 64)
            e.prove("the old table is what grows", old == g.heaps)
            st.aux["table"] = nb
            return P('raw', nb, 0)
        e.contracts["scm_realloc"] = realloc
        def aligned(e, st, a, k, fi):
            e.prove("a new heap has room for its cells", e.bv(a[0]) == g.bytes, "safety")
            h = g.H                      # the new heap is the one the chosen cell lies in
            st.aux["heap"] = (g.k * 8, h)
            return P('raw', h, 0)
        e.contracts["scm_malloc_aligned"] = aligned
        t.assume(NOT(g.f0), NOT(g.m0))
        def mem(e, st, b, off, w, wr):
            tb = st.aux.get("table")
            if tb is not None and b.eq(tb): e.prove("the table of heaps is accessed inside its size", z3.ULT(off, (g.n + 1) * 8), "safety")
            elif wr: e.prove("nothing but the table is written", F, "frame")
        e.memhook = mem
        g.finished = g.pending
        g.swept = lambda st: g.linked(st)
        g.invariants(g.swept)
        e.cands.append(lambda V: z3.If(z3.UGE(g.i, g.size - V.it), g.swept(V.st), g.pending(V.st)))
        e.cands.append(lambda V: z3.If(z3.ULT(g.i, V.it), g.swept(V.st), g.pending(V.st)))
        e.cands.append(lambda V: V.it == t.get("gcount", Z, V.st))
        def ret(st, r):
            t.prove("every cell of the new heap is on the free list once", g.linked(st))
            t.prove("as many cells as the heap has were added", t.get("gcount", Z, st) == g.size)
            t.prove("the free list starts with the last cell added, linked to the old one", g.now(st, "l_freelist") == t.get("ghead", Z, st))
            tb, n = g.now(st, "l_heaps"), g.now(st, "l_n_heaps")
            at = lambda k: e.msel(e.marr(st, 64), tb, k * 8, 64)
            t.prove("the new heap is registered", AND(n == g.n + 1, at(g.n) == g.H))
            t.prove("the other heaps stay registered", IMP(z3.ULT(j, g.n), at(j) == before))
            lo, hi = g.now(st, "l_heaps_lowest"), g.now(st, "l_heaps_highest")
            t.prove("the range of addresses which the collector searches covers the new heap", AND(z3.ULE(lo, g.H), z3.UGE(hi, g.H + g.bytes)))
            t.prove("the range of addresses which the collector searches still covers the other heaps", AND(z3.ULE(lo, g.low), z3.UGE(hi, g.high)))
            t.prove("no more heaps than allowed", z3.ULE(n, g.max))
        def err(st, name, av): t.prove("an error only when the heaps are exhausted", z3.UGE(g.n, g.max))
        t.call("add_heap", [], ret, err)
    ctx.irv("a heap is added", add, variants=("compact", "fatty"))
    class Flow:
        """collection and allocation, over the contracts of marking, sweeping and adding a heap"""
        def __init__(g, t, unit):
            g.t, e = t, t.e
            h = Heap(t, unit); g.h = h
            g.NIL = t.K("NULL")
            t.assume(h.threshold != 0, OR(h.free == g.NIL, TYPE(h.free) == e.ty("ScmFreeCell")))
            g.got = t.bv("collected"); g.f1, g.f2 = t.bv("list_after_sweeping"), t.bv("list_after_adding")
            def step(name):
                st = None
            def mk(e, st, a, k, fi): st.aux["seq"] = st.aux.get("seq", ()) + ("mark",); return Z
            def sw(e, st, a, k, fi):
                st.aux["seq"] = st.aux.get("seq", ()) + ("sweep",)
                h.put(st, "l_freelist", g.f1)
                e.assume(z3.If(g.got == 0, g.f1 == h.free, TYPE(g.f1) == e.ty("ScmFreeCell")))
                return g.got
            def ad(e, st, a, k, fi):
                st.aux["seq"] = st.aux.get("seq", ()) + ("add",)
                e.assume(TYPE(g.f2) == e.ty("ScmFreeCell")); h.put(st, "l_freelist", g.f2)
                h.put(st, "l_n_heaps", simp(h.now(st, "l_n_heaps") + 1)); return Z
            e.contracts["gc_mark"], e.contracts["gc_sweep"], e.contracts["add_heap"] = mk, sw, ad
            for o in (h.free, g.f1, g.f2): sal.otype(e, o)
            t.assume(NOT(TYPE(g.NIL) == e.ty("ScmFreeCell")))
    def collect(t):
        g = Flow(t, "gc_mark_and_sweep"); h = g.h
        def ret(st, r):
            s = [x for x in st.aux.get("seq", ())]
            t.prove("everything is marked before it is swept, once each", z3.BoolVal(s[:2] == ["mark", "sweep"] and s.count("sweep") == 1))
            t.prove("a heap is added when too little was collected", z3.BoolVal("add" in s) == z3.ULT(g.got, h.threshold))
            t.prove("a free cell is there afterwards", TYPE(h.now(st, "l_freelist")) == t.e.ty("ScmFreeCell"))
        t.call("gc_mark_and_sweep", [], ret)
    ctx.irv("a collection", collect, variants=("compact", "fatty"))
    def alloc(t):
        g = Flow(t, "scm_alloc_cell"); h = g.h; e = t.e
        nx = lambda o: t.get("freenext", o)
        def ms(e, st, a, k, fi):
            e.prove("a collection is started only when no cell is free", h.free == g.NIL)
            e.assume(TYPE(g.f1) == e.ty("ScmFreeCell")); h.put(st, "l_freelist", g.f1); st.aux["gc"] = True; return Z
        e.contracts["gc_mark_and_sweep"] = ms
        def ret(st, r):
            head = g.f1 if st.aux.get("gc") else h.free
            t.prove("the cell at the head of the free list is taken", AND(r == head, TYPE(r) == e.ty("ScmFreeCell")))
            t.prove("it is no longer on the free list", h.now(st, "l_freelist") == nx(head))
            t.prove_frame(st)
        t.call("scm_alloc_cell", [], ret, lambda *a: t.prove("no error", F))
    ctx.irv("a cell is allocated", alloc, variants=("compact", "fatty"))
    def init(t):
        e = t.e; h = Heap(t, "initialize_heap")
        size, mx, ninit, thr = t.bv("heap_size"), t.bv("heaps_maximum"), t.bv("heaps_initial"), t.bv("threshold")
        names = ("heap_size", "heap_alloc_threshold", "n_heaps_max", "n_heaps_init")
        offs = [t.c.get("off_conf_" + x) for x in names]
        if None in offs: raise irv.Unsupported("storage configuration")
        conf = t.struct("conf", 64, [(o, 64, v) for o, v in zip(offs, (size, thr, mx, ninit))])
        def pre(e, st, a, k, fi):
            st.aux["n"] = e.bv(a[0])
            t.prove("heaps are added to an empty table of the configured size", AND(h.now(st, "l_n_heaps") == 0, h.now(st, "l_heaps") == 0, h.now(st, "l_heap_size") == size,
                h.now(st, "l_n_heaps_max") == mx, h.now(st, "l_heap_alloc_threshold") == thr, h.now(st, "l_freelist") == t.K("NULL")))
            t.prove("the empty range of addresses", AND(h.now(st, "l_heaps_highest") == 0, h.now(st, "l_heaps_lowest") == B((1 << 64) - 1)))
            return Z
        e.contracts["scm_prealloc_heaps"] = pre
        def ret(st, r): t.prove("the configured number of heaps is asked for", st.aux["n"] == ninit if "n" in st.aux else F)
        t.call("initialize_heap", [conf], ret, lambda *a: None)
    ctx.irv("the heap is set up", init, variants=("compact", "fatty"))
    def prealloc(t):
        g = Flow(t, "scm_prealloc_heaps"); h = g.h; e = t.e
        n = t.bv("n")
        goal = z3.If(n == 0, h.n + 1, n)
        e.cands.append(lambda V: h.now(V.st, "l_n_heaps") == h.n + V.it)
        e.cands.append(lambda V: z3.ULE(V.it, z3.If(z3.ULT(h.n, goal), goal - h.n, B(0))))
        t.assume(z3.ULT(n, B(1 << 44)))
        def ret(st, r):
            t.prove("as many heaps as asked for are there", h.now(st, "l_n_heaps") == z3.If(z3.ULT(h.n, goal), goal, h.n))
            t.prove("no more heaps than allowed", z3.ULE(goal, h.max))
        t.call("scm_prealloc_heaps", [n], ret, lambda *a: t.prove("an error only when more heaps than allowed are asked for", z3.UGT(goal, h.max)))
    ctx.irv("heaps are added in advance", prealloc, variants=("compact", "fatty"))
    HC = os.path.join(env.VERIF, "cbmc", "free.c")
    for v in ("compact", "fatty", "hygienic"):
        ctx.func("%s: free_cell" % v)
        for en in ("e_free",): ctx.task(cbmc.harness, "G02", v, [HC, "storage.c", "alloc.c"], en, variant=v, unwind=2, extra=("--drop-unused-functions",))
    ctx.trust("CBMC 6.11 (goto-cc, symex, MiniSat) for the release of one cell", "C semantics of goto-cc, 64-bit little-endian")
    ctx.assume("heaps are disjoint, aligned blocks of cells below 2^47, as the system's allocator provides; fewer than 2^40 cells in a heap",
        "the configured threshold for adding a heap is at least 1 (the library's and the interpreter's defaults are)",
        "what marks and unmarks a cell and what tells a free one is proved with the object representation (S01); marking is proved with G01",
        "closing a port and destroying a continuation release their own resources (called exactly once, which is proved)")
    def fals_(ctx, failed):
        for v, f in [(v, f) for f in ("sweep.c", "gc.c") for v in ("compact", "fatty", "hygienic")]:
            exe = env.with_library(os.path.join(env.VERIF, "fals", f), v)
            for k in "012":
                p = env.run([exe, k], check=False, timeout=120)
                if p.returncode or "OK" not in p.stdout:
                    return "replay: fals/" + f + " linked with the library built from /repo/src (%s layout), heap configuration %s: exit status %d\n%s\n%s" % (v, k, p.returncode, p.stdout[-1500:], p.stderr[-1500:])
    ctx.falsifier(fals_)
