import z3
from spec import *
import fals

def setup(ctx):
    MIN = B(1 << 63)
    def by_contract(t, lst, r):
        """callers of scm_length rely on its contract (proved as "length classification")"""
        def h(e, st, a, k, fi):
            if not (z3.is_expr(a[0]) and a[0].eq(lst)): e.call_fn(e.m.fn("scm_length"), a, st, k)
            else: return r
        if t.m.fn("scm_length"): t.e.contracts["scm_length"] = h
    def on_finite(tag, f, post, errq=lambda t, n, end: z3.BoolVal(False)):
        def task(t):
            lst = t.obj("lst")
            n, end = t.finite(lst)
            t.bounded_by(n)
            if f(t) != "scm_length": by_contract(t, lst, z3.If(proper(t, end), n, -n - 1))
            req = errq(t, n, end)
            def ret(st, v):
                t.determinism(st, lst, n)
                t.prove("returns only where no error is required", NOT(req))
                for m, x in post(t, n, end, v): t.prove(m, x)
                t.prove_frame(st)
            def err(st, name, av):
                t.determinism(st, lst, n)
                t.prove("signals an error only where one is required", req)
            t.call(f(t), [lst], ret, err)
        ctx.irv(tag + " of a finite structure", task)
    def on_circular(tag, f, post, errq=False):
        def task(t):
            lst = t.obj("lst")
            T = t.circular(lst)
            t.bounded_by(T)
            if f(t) != "scm_length": by_contract(t, lst, MIN)
            def ret(st, v):
                t.prove("returns only where no error is required", z3.BoolVal(not errq))
                for m, x in post(t, v): t.prove(m, x)
                t.prove_frame(st)
            t.call(f(t), [lst], ret, lambda st, n, av: t.prove("signals an error only where one is required", z3.BoolVal(errq)))
        ctx.irv(tag + " of a circular list", task)
    proper = lambda t, end: end == t.K("NULL")
    fin = lambda t, n, end, v: [("proper lists give their length, others the number of their pairs (encoded)", v == z3.If(proper(t, end), n, -n - 1))]
    on_finite("length classification", lambda t: "scm_length", fin)
    on_circular("length classification", lambda t: "scm_length", lambda t, v: [("circular lists are reported as such", v == MIN)])
    on_finite("finite length", lambda t: "scm_finite_length", fin)
    on_finite("length", lambda t: t.prim("length"), lambda t, n, end, v: [("the length is exact", intval(t, v, n))], lambda t, n, end: NOT(proper(t, end)))
    on_circular("length", lambda t: t.prim("length"), lambda t, v: [], True)
    for p, f, c in (("list?", lambda t, end: proper(t, end), False), ("dotted-list?", lambda t, end: NOT(proper(t, end)), False), ("circular-list?", lambda t, end: z3.BoolVal(False), True)):
        on_finite(p, lambda t, p=p: t.prim(p), lambda t, n, end, v, f=f: [("the answer is exact", v == t.bool(f(t, end)))])
        on_circular(p, lambda t, p=p: t.prim(p), lambda t, v, c=c: [("the answer is exact", v == t.bool(z3.BoolVal(c)))])
    on_finite("length+", lambda t: t.prim("length+"), lambda t, n, end, v: [("the length is exact", IMP(proper(t, end), intval(t, v, n)))])
    on_circular("length+", lambda t: t.prim("length+"), lambda t, v: [("circular lists give #f", v == t.K("FALSE"))])
    for p, ty in (("pair?", "Cons"),):
        fix(ctx, p, 1, lambda t, a: z3.BoolVal(False), lambda t, a, st, v: [("the answer is exact", v == t.bool(t.istype(a[0], "Cons")))])
    fix(ctx, "null?", 1, lambda t, a: z3.BoolVal(False), lambda t, a, st, v: [("the answer is exact", v == t.bool(a[0] == t.K("NULL")))])
    ctx.assume("lists have fewer than 2^58 pairs", "every list structure is finite or eventually periodic (it lives in a finite heap)",
               "scm_finite_length is only called on structures which are not circular")

    def gen(variant):
        pre = '''(use srfi-1)
(define (mk n end) (let loop ((i 0) (l end)) (if (= i n) l (loop (+ i 1) (cons i l)))))
(define (circ n m) (let* ((c (mk m '())) (last (let f ((x c)) (if (null? (cdr x)) x (f (cdr x)))))) (set-cdr! last c) (mk n c)))
'''
        out = []
        for n in list(range(0, 40)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4096, 4097, 65536, 65537]:
            x = "(mk %d '())" % n
            out += [("(list? %s)" % x, "#t"), ("(proper-list? %s)" % x, "#t"), ("(length %s)" % x, str(n)), ("(length+ %s)" % x, str(n)), ("(dotted-list? %s)" % x, "#f"), ("(circular-list? %s)" % x, "#f"), ("(pair? %s)" % x, "#t" if n else "#f"), ("(null? %s)" % x, "#f" if n else "#t")]
            for e in ("1", "'a", "#t", "\"s\"", "(vector)", "car", "#f", "0", "-1"):
                if n > 1000 and e != "1": continue
                x = "(mk %d %s)" % (n, e)
                out += [("(list? %s)" % x, "#f"), ("(length %s)" % x, "ERR"), ("(dotted-list? %s)" % x, "#t"), ("(circular-list? %s)" % x, "#f"), ("(null? %s)" % x, "#f")]
        for n in list(range(0, 14)) + [31, 64, 100]:
            for m in list(range(1, 14)) + [16, 31, 64, 101]:
                x = "(circ %d %d)" % (n, m)
                out += [("(list? %s)" % x, "#f"), ("(length %s)" % x, "ERR"), ("(length+ %s)" % x, "#f"), ("(dotted-list? %s)" % x, "#f"), ("(circular-list? %s)" % x, "#t"), ("(pair? %s)" % x, "#t")]
        return pre, out
    ctx.falsifier(fals.both(gen))
