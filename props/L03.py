import z3
from spec import *
import fals

def setup(ctx):
    F = z3.BoolVal(False)
    fix(ctx, "list", 1, lambda t, a: F, lambda t, a, st, v: [("the result is the list of the arguments", v == a[0])])
    def rev(t):
        lst = t.obj("lst"); t.skolem("j")
        n, end = t.finite(lst); t.bounded_by(n)
        def ret(st, v):
            t.prove("returns only for a proper list", end == t.K("NULL"))
            t.nth_facts(lst, n - 1 - t.e.js[0])
            t.built("the result", st, v, n, lambda i: t.car(t.nth(lst, simp(n - 1 - i))))
            t.prove_frame(st)
        def err(st, nm, av):
            t.prove("signals an error only for an improper list", end != t.K("NULL")); t.prove_frame(st, name="on error")
        t.call(t.prim("reverse"), [lst], ret, err)
    ctx.irv("reverse", rev)
    # --- append: each list but the last is copied, the last is shared
    def append(k):
        def task(t):
            args = t.obj("args"); t.skolem("j")
            lists = t.arglist(args, k)
            t.e.unroll_nest = k
            ns, ok = [], []
            for i, l in enumerate(lists[:-1]):
                n, end = t.finite(l, "N%d" % i)
                ns.append(n); ok.append(end == t.K("NULL"))
            for n in ns: t.bounded_by(n, steps=(1,))
            proper = AND(*ok) if ok else z3.BoolVal(True)
            def ret(st, v):
                t.prove("returns only for proper lists before the last one", proper)
                t.segments("the result", st, v, [(n, lambda i, l=l: t.car(t.nth(l, i))) for n, l in zip(ns, lists)], lists[-1] if lists else t.K("NULL"))
                t.prove_frame(st)
            def err(st, nm, av):
                t.prove("signals an error only for an improper list before the last one", NOT(proper)); t.prove_frame(st, name="on error")
            t.call(t.prim("append"), [args], ret, err)
        ctx.irv("append of %d lists" % k, task, bounded="%d argument lists, of any length" % k, budget=600)
    for k in range(5 if ctx.thorough else 4): append(k)
    # --- map and for-each: the procedure is called once per element, in order
    RES = z3.Function("RES", BV64, BV64)
    def caller(t, n, argok):
        """contract of scm_call: call i gets the arguments it is due and returns RES(i); the procedure may allocate, but leaves the lists alone"""
        e = t.e
        cnt = t.slot("calls", 64, B(0))
        def h(e, st, a, k, fi):
            i = t.cell(st, cnt, 0, 64)
            e.prove("the procedure is called no more often than there are elements", z3.ULT(i, n))
            e.prove("the procedure which is called is the one given", e.bv(a[0]) == t.proc)
            argok(st, i, e.bv(a[1]))
            e.store(fi[0], st, cnt, simp(i + 1), ('i', 64), fi[0].fn.mod)
            nclk = z3.Int("clk!%d" % next(e.cnt)); e.assume(nclk >= st.clk); st.clk = nclk; e.wkey('clk')
            r = RES(i)
            e.assume(AGE(r) <= st.clk, ); e.assume(AGE(r) >= 0)
            return r
        e.contracts["scm_call"] = h
        return lambda st: t.cell(st, cnt, 0, 64)
    for name in ("map", "for-each"):
        def one(t, name=name):
            t.proc, args = t.objs("proc", "args"); j = t.skolem("j")
            lst, = t.arglist(args, 1)
            n, end = t.finite(lst); t.bounded_by(n, steps=(1,))
            def argok(st, i, av):
                t.nth_facts(lst, i)
                t.prove("each call gets exactly the next element", AND(t.istype(av, "Cons"), t.car(av, st) == t.car(t.nth(lst, i)), t.cdr(av, st) == t.K("NULL"), AGE(av) > z3.Int("clk0")))
            calls = caller(t, n, argok)
            def ret(st, v):
                t.prove("returns only for a proper list", end == t.K("NULL"))
                t.prove("the procedure is called once for each element", calls(st) == n)
                if name == "map": t.built("the result", st, v, n, lambda i: RES(i))
                else: t.prove("the result is unspecified", v == t.K("UNDEF"))
                t.prove_frame(st)
            def err(st, nm, av):
                t.prove("signals an error only for an improper list", end != t.K("NULL")); t.prove_frame(st, name="on error")
            t.call(t.prim(name), [t.proc, args], ret, err)
        ctx.irv(name + " over one list", one)
    def many(name, k):
        def task(t):
            t.proc, args = t.objs("proc", "args"); t.skolem("j")
            lists = t.arglist(args, k)
            t.e.unroll_flat = k
            fin = [t.finite(l, "N%d" % i) for i, l in enumerate(lists)]
            for n, end in fin: t.bounded_by(n, steps=(1,))
            # the argument list is fresh (E01): none of the lists runs through it
            for l in lists: t.upto(l, None, lambda k, x: AND(*[x != c for c in t.argcells]))
            n = fin[0][0]
            good = AND(*[AND(m == n, end == t.K("NULL")) for m, end in fin])
            def argok(st, i, av):
                for q, l in enumerate(lists):
                    t.nth_facts(l, i)
                    t.prove("the procedure is called no more often than there are elements", z3.ULT(i, fin[q][0]))
                    t.prove("each call gets exactly the next elements, in the order of the lists", AND(t.istype(av, "Cons"), AGE(av) > z3.Int("clk0"), t.car(av, st) == t.car(t.nth(l, i))))
                    av = t.cdr(av, st)
                t.prove("each call gets one element of each list", av == t.K("NULL"))
            calls = caller(t, n, argok)
            def ret(st, v):
                t.prove("returns only for proper lists of equal length", good)
                t.prove("the procedure is called once for each position", calls(st) == n)
                if name == "map": t.built("the result", st, v, n, lambda i: RES(i))
                else: t.prove("the result is unspecified", v == t.K("UNDEF"))
                cells = t.argcells
                t.prove_frame(st, except_=lambda o, f: OR(*[o == c for c in cells]) if f == "car" else F)
            def err(st, nm, av):
                t.prove("signals an error only for an improper list or lists of different length", NOT(good))
            t.call(t.prim(name), [t.proc, args], ret, err)
        ctx.irv("%s over %d lists" % (name, k), task, bounded="%d lists, of any length" % k, budget=600)
    for name in ("map", "for-each"):
        many(name, 2)
        if ctx.thorough: many(name, 3)
    ctx.assume("map and for-each: the procedure is contracted as an arbitrary call which leaves the argument lists, and the internal argument lists, alone",
               "the argument list of a variadic procedure is fresh (the evaluator builds it)", "lists have fewer than 2^59 pairs")
    ctx.falsifier(fals.both(gen))

PRE = """
(define (mk n k) (let loop ((i (- n 1)) (l '())) (if (< i 0) l (loop (- i 1) (cons (+ k i) l)))))
(define (same? l n f) (let loop ((i 0) (l l)) (if (= i n) (null? l) (and (pair? l) (equal? (car l) (f i)) (loop (+ i 1) (cdr l))))))
(define (mktail n k e) (if (= n 0) e (cons k (mktail (- n 1) (+ k 1) e))))
(define (shares? l k x) (if (= k 0) (eq? l x) (shares? (cdr l) (- k 1) x)))
(define (fresh? l x) (let loop ((l l)) (or (not (pair? l)) (and (not (memq-tail l x)) (loop (cdr l))))))
(define (memq-tail p x) (and (pair? x) (or (eq? p x) (memq-tail p (cdr x)))))
"""
def gen(variant):
    T = "#t"
    out = []
    ns = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 33, 64, 100, 127, 128, 129, 255, 256, 257, 300, 512, 513, 1000, 1023, 1024, 1025, 1030, 2000, 2049, 4096, 4097, 5000, 32769, 65537]
    for n in ns:
        out += [("(let* ((l (mk %d 0)) (r (reverse l))) (and (same? r %d (lambda (i) (- %d i 1))) (same? l %d (lambda (i) i)) %s))" % (n, n, n, n, "(fresh? r l)" if n < 130 else "#t"), T),
                ("(let* ((l (mk %d 0)) (r (map (lambda (x) (* x 3)) l))) (and (same? r %d (lambda (i) (* 3 i))) (same? l %d (lambda (i) i))))" % (n, n, n), T),
                ("(let* ((l (mk %d 0)) (c '()) (r (map (lambda (x) (set! c (cons x c)) x) l))) (same? c %d (lambda (i) (- %d i 1))))" % (n, n, n), T),
                ("(let* ((l (mk %d 0)) (c '())) (for-each (lambda (x) (set! c (cons x c))) l) (and (same? l %d (lambda (i) i)) (same? c %d (lambda (i) (- %d i 1)))))" % (n, n, n, n), T),
                ("(let* ((l (mk %d 0)) (m (mk %d 7)) (c '()) (r (map (lambda (x y) (set! c (cons (- y x) c)) (+ x x y)) l m))) (and (same? r %d (lambda (i) (+ 7 (* 3 i)))) (same? c %d (lambda (i) 7)) (same? l %d (lambda (i) i)) (same? m %d (lambda (i) (+ i 7)))))" % ((n,) * 6), T),
                ("(let* ((l (mk %d 0)) (m (mk %d 7)) (c '())) (for-each (lambda (x y) (set! c (cons (list x y) c))) l m) (and (same? (reverse c) %d (lambda (i) (list i (+ i 7)))) (same? l %d (lambda (i) i)) (same? m %d (lambda (i) (+ i 7)))))" % ((n,) * 5), T),
                ("(let* ((l (mk %d 0)) (r (map list l l l))) (same? r %d (lambda (i) (list i i i))))" % (n, n), T),
                ("(let ((r (apply list (mk %d 0)))) (same? r %d (lambda (i) i)))" % (min(n, 1000), min(n, 1000)), T)]
        for e in ("5", "'a", "(vector)") if n < 6000 else ():
            out += [("(reverse (mktail %d 0 %s))" % (n, e), "ERR"), ("(append (mktail %d 0 %s) '())" % (n, e), "ERR"), ("(map car (mktail %d 0 %s))" % (n, e), "ERR"),
                    ("(for-each (lambda (x) x) (mktail %d 0 %s))" % (n, e), "ERR"), ("(map + (mktail %d 0 '()) (mktail %d 0 %s))" % (n, n, e), "ERR"),
                    ("(let* ((x %s) (r (append (mk %d 0) x))) (shares? r %d x))" % (e, n, n), T)]
        out += [("(map + (mk %d 0) (mk %d 0))" % (n, n + 1), "ERR"), ("(map + (mk %d 0) (mk %d 0))" % (n + 1, n), "ERR"), ("(for-each + (mk %d 0) (mk %d 0) (mk %d 0))" % (n, n, n + 1), "ERR"), ("(for-each + (mk %d 0) (mk %d 0) (mk %d 0))" % (n + 1, n, n), "ERR")]
    for a in (0, 1, 2, 3, 17, 300):
        for b in (0, 1, 2, 5, 260):
            out += [("(let* ((l (mk %d 0)) (m (mk %d %d)) (r (append l m))) (and (same? r %d (lambda (i) i)) (shares? r %d m) (same? l %d (lambda (i) i)) (fresh? l (if (pair? m) '() r))))" % (a, b, a, a + b, a, a), T)]
            for c in (0, 1, 2, 40):
                out += [("(let* ((l (mk %d 0)) (m (mk %d %d)) (k (mk %d %d)) (r (append l m k))) (and (same? r %d (lambda (i) i)) (shares? r %d k) (same? l %d (lambda (i) i)) (same? m %d (lambda (i) (+ %d i))) (let ((r (append '() l '() m k '()))) (and (same? r %d (lambda (i) i)) (fresh? r l) (fresh? r m) (fresh? r k)))))"
                    % (a, b, a, c, a + b, a + b + c, a + b, a, b, a, a + b + c), T)]
    out += [("(append)", "()"), ("(append 5)", "5"), ("(append '() 5)", "5"), ("(append '() '() 'x)", "x"), ("(append '(1) 2)", "(1 . 2)"), ("(append '(1) '(2) 3)", "(1 2 . 3)"), ("(append 1 '())", "ERR"), ("(append '() 1 '())", "ERR"), ("(append '(1) 1 '())", "ERR"),
            ("(list)", "()"), ("(list 1)", "(1)"), ("(list 1 2 3)", "(1 2 3)"), ("(reverse '())", "()"), ("(reverse 5)", "ERR"), ("(map car 5)", "ERR"), ("(map car '(1))", "ERR"), ("(map car)", "ERR"), ("(for-each car)", "ERR"),
            ("(let ((a '(1 2 3))) (map (lambda (x y z) (list x y z)) a (cdr (append '(0) a)) a))", "((1 1 1) (2 2 2) (3 3 3))"), ("(map + '() '())", "()"), ("(map + '(1) '(2) '(3) '(4) '(5))", "(15)"),
            ("(let* ((k 0) (r (map (lambda (x) (set! k (+ k 1)) (cons k x)) '(a b c d)))) r)", "((1 . a) (2 . b) (3 . c) (4 . d))")]
    return PRE, out
