import z3
from spec import *
import fals

def setup(ctx):
    F = z3.BoolVal(False)
    no = lambda t, a: F
    vec = lambda t, o: t.istype(o, "Vector")
    def inv(t, o): t.assume(IMP(vec(t, o), t.vector_inv(o)))
    def el(t, o, i, st=None):
        e = t.e
        return e.msel(e.marr(st or t.st, 64), t.get("vec", o), simp(i * 8), 64)
    def prep(t, a):
        t.bounds(); inv(t, a[0])
    fix(ctx, "vector?", 1, no, lambda t, a, st, v: [("true exactly of vectors", v == t.bool(vec(t, a[0])))])
    fix(ctx, "vector-length", 1, lambda t, a: NOT(vec(t, a[0])), lambda t, a, st, v: [("the length is exact", intval(t, v, t.get("veclen", a[0])))], setup=prep)
    def badix(t, o, k): return OR(NOT(vec(t, o)), NOT(t.isint(k)), t.int(k) < 0, t.int(k) >= t.get("veclen", o))
    fix(ctx, "vector-ref", 2, lambda t, a: badix(t, *a), lambda t, a, st, v: [("exactly the addressed element is returned", v == el(t, a[0], t.int(a[1])))], setup=prep)
    literal = lambda t, o: t.get("mutable", o) == 0
    def vset(t):
        o, k, x = t.objs("vec", "k", "obj")
        prep(t, [o])
        req = OR(badix(t, o, k), literal(t, o))
        def ret(st, v):
            t.prove("returns only where no error is required", NOT(req))
            t.prove("the addressed element is the new object", el(t, o, t.int(k), st) == x)
            t.prove_frame(st, except_=lambda w, f: AND(w[0] == t.get("vec", o), w[1] == t.int(k) * 8) if f == "M64" else F)
        def err(st, n, av):
            t.prove("signals an error only where one is required", req); t.prove_frame(st, name="on error")
        t.call(t.prim("vector-set!"), [o, k, x], ret, err)
    ctx.irv("vector-set!", vset)
    def fill(t):
        o, x = t.objs("vec", "fill")
        prep(t, [o]); j = t.skolem("j")
        req = OR(NOT(vec(t, o)), literal(t, o))
        t.e.assume(t.get("veclen", o) >= 0); t.bounded_by(t.get("veclen", o))
        def ret(st, v):
            t.prove("returns only where no error is required", NOT(req))
            t.prove("every element is the new object", IMP(z3.ULT(j, t.get("veclen", o)), el(t, o, j, st) == x))
            t.prove_frame(st, except_=lambda w, f: w[0] == t.get("vec", o) if f == "M64" else F)
        def err(st, n, av):
            t.prove("signals an error only where one is required", req); t.prove_frame(st, name="on error")
        t.call(t.prim("vector-fill!"), [o, x], ret, err)
    ctx.irv("vector-fill!", fill)
    def newvec(t, st, v, n, elem, j):
        vp = t.get("vec", v, st)
        t.prove("the result is a new vector", AND(vec(t, v), AGE(v) > z3.Int("clk0"), AGE(vp) > z3.Int("clk0")))
        t.prove("it has the required length", t.get("veclen", v, st) == n)
        t.prove("its block has room for its elements", BSIZE(vp) == n * 8)
        t.prove("its elements are as specified", IMP(z3.ULT(j, n), t.e.msel(t.e.marr(st, 64), vp, simp(j * 8), 64) == elem(j)))
        t.prove("it is mutable", t.get("mutable", v, st) != 0)
        t.prove_frame(st)
    def make(t):
        o, args = t.objs("len", "args")
        t.bounds(); j = t.skolem("j")
        n, end = t.finite(args)
        t.assume(end == t.K("NULL"))
        ln = t.int(o)
        req = OR(NOT(t.isint(o)), ln < 0, z3.UGT(ln, B((1 << 61) - 1)), z3.UGT(n, 1))
        fill = z3.If(n == 0, t.K("UNDEF"), t.car(args))
        def ret(st, v):
            t.prove("returns only where no error is required", NOT(req))
            newvec(t, st, v, ln, lambda j: fill, j)
        def err(st, nm, av):
            t.prove("signals an error only where one is required", req); t.prove_frame(st, name="on error")
        t.call(t.prim("make-vector"), [o, args], ret, err)
    ctx.irv("make-vector", make)
    for name in ("list->vector", "vector"):
        def l2v(t):
            lst = t.obj("lst")
            t.bounds(); j = t.skolem("j")
            n, end = t.finite(lst)
            proper = end == t.K("NULL")
            t.use_length(lst, z3.If(proper, n, -n - 1)); t.bounded_by(n)
            if name == "vector": t.assume(proper)
            def ret(st, v):
                t.prove("returns only where no error is required", proper)
                newvec(t, st, v, n, lambda j: t.car(t.nth(lst, j)), j)
            def err(st, nm, av):
                t.prove("signals an error only where one is required", NOT(proper)); t.prove_frame(st, name="on error")
            t.call(t.prim(name), [lst], ret, err)
        ctx.irv(name, l2v)
    def circ(t):
        lst = t.obj("lst"); T = t.circular(lst)
        t.use_length(lst, B(1 << 63))
        t.call(t.prim("list->vector"), [lst], lambda st, v: t.prove("a circular list is rejected", F), lambda st, nm, av: None)
    ctx.irv("list->vector of a circular list", circ)
    def v2l(t):
        o = t.obj("vec")
        prep(t, [o]); j = t.skolem("j")
        n = t.get("veclen", o)
        t.assume(n >= 0); t.bounded_by(n)
        def ret(st, v):
            t.prove("returns only where no error is required", vec(t, o))
            t.built("the result", st, v, n, lambda i: el(t, o, i))
            t.prove_frame(st)
        def err(st, nm, av):
            t.prove("signals an error only where one is required", NOT(vec(t, o))); t.prove_frame(st, name="on error")
        t.call(t.prim("vector->list"), [o], ret, err)
    ctx.irv("vector->list", v2l)
    ctx.assume("vectors have fewer than 2^59 elements, and a vector's block has exactly the size of its elements when a procedure is called", "scm_length obeys its contract (L01)")

    def gen(variant):
        pre = '''(define (mk n) (let loop ((i (- n 1)) (l '())) (if (< i 0) l (loop (- i 1) (cons i l)))))
(define (mkv n) (let ((v (make-vector n 0))) (let loop ((i 0)) (if (= i n) v (begin (vector-set! v i i) (loop (+ i 1)))))))
(define (sum v) (let loop ((i 0) (s 0)) (if (= i (vector-length v)) s (loop (+ i 1) (+ s (vector-ref v i))))))
(define (all-but v i x) (let loop ((j 0)) (cond ((= j (vector-length v)) #t) ((and (not (= i j)) (not (eqv? (vector-ref v j) (if (procedure? x) (x j) x)))) j) (else (loop (+ j 1))))))
'''
        out = []
        ns = [0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 100, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 65535, 65536, 65537]
        for n in ns:
            out += [("(vector-length (mkv %d))" % n, str(n)), ("(vector-length (make-vector %d 'a))" % n, str(n)), ("(vector? (make-vector %d))" % n, "#t"),
                    ("(all-but (make-vector %d 'a) -1 'a)" % n, "#t"), ("(let ((v (mkv %d))) (vector-fill! v 'z) (all-but v -1 'z))" % n, "#t"),
                    ("(all-but (list->vector (mk %d)) -1 (lambda (i) i))" % n, "#t"), ("(equal? (vector->list (mkv %d)) (mk %d))" % (n, n), "#t"),
                    ("(vector-length (list->vector (mk %d)))" % n, str(n)), ("(length (vector->list (mkv %d)))" % n, str(n)),
                    ("(let* ((v (mkv %d)) (l (vector->list v))) (or (null? l) (begin (set-car! l 'q) (equal? (vector-ref v 0) 0))))" % n, "#t"),
                    ("(let* ((l (mk %d)) (v (list->vector l))) (vector-fill! v 'q) (equal? l (mk %d)))" % (n, n), "#t"),
                    ("(let ((v (apply vector (mk %d)))) (list (vector-length v) (all-but v -1 (lambda (i) i))))" % n, "(%d #t)" % n)]
            for k in sorted({0, 1, n // 2, n - 1, n, n + 1, n + 7, -1, -n, n + 256, n + 65536, (1 << 32) + n - 1, (1 << 32), (1 << 59) - 1, -(1 << 59)}):
                out.append(("(vector-ref (mkv %d) %d)" % (n, k), str(k) if 0 <= k < n else "ERR"))
                if n < 2000 or k in (0, n - 1, n): out.append(("(let ((v (mkv %d))) (vector-set! v %d 'x) (list (vector-ref v %d) (all-but v %d (lambda (i) i))))" % (n, k, k, k), "(x #t)" if 0 <= k < n else "ERR"))
        out += [("(vector 1 2 3)", "#(1 2 3)"), ("(vector)", "#()"), ("(make-vector -1)", "ERR"), ("(make-vector 1 2 3)", "ERR"), ("(make-vector 'a)", "ERR"), ("(make-vector 3 '())", "#(() () ())"),
                ("(list->vector '(1 . 2))", "ERR"), ("(list->vector 5)", "ERR"), ("(let ((l (list 1 2))) (set-cdr! (cdr l) l) (list->vector l))", "ERR"),
                ("(vector-set! '#(1 2 3) 0 1)", "ERR"), ("(vector-fill! '#(1 2 3) 0)", "ERR"), ("(vector-ref '#(1 2 3) 1)", "2"), ("(make-vector %d)" % (-(1 << 59)), "ERR")]
        if variant == "fatty": out += [("(make-vector %d)" % x, "ERR") for x in (1 << 61, (1 << 61) + 1, (1 << 62), (1 << 63) - 1)]
        for o in ("1", "'a", "\"s\"", "#\\a", "'()", "#t", "car", "(list 1 2)"):
            out += [("(vector-ref %s 0)" % o, "ERR"), ("(vector-length %s)" % o, "ERR"), ("(vector-set! %s 0 0)" % o, "ERR"), ("(vector-fill! %s 0)" % o, "ERR"), ("(vector->list %s)" % o, "ERR"), ("(vector? %s)" % o, "#f")]
            if o != "1": out += [("(vector-ref (vector 1 2) %s)" % o, "ERR"), ("(vector-set! (vector 1 2) %s 0)" % o, "ERR"), ("(make-vector %s)" % o, "ERR")]
        return pre, out
    ctx.falsifier(fals.both(gen))
