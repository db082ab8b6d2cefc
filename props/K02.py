import z3
from spec import *
from engine import P
import fals

def setup(ctx):
    F = z3.BoolVal(False)
    def tag(t):
        """the mark of promises not yet forced: a private pair"""
        g, off = t.symbols("scm_init_promise")["(%%unforced-promise)"]
        x = t.glob("scm_p_force", g, off, 64)
        t.assume(t.istype(x, "Cons"), AGE(x) == 0)
        return x
    def init(t):
        """the mark is a private pair: nothing else can be it"""
        e = t.e
        e.contracts["scm_register_funcs"] = lambda e, st, a, k, fi: e.sym("res")
        s = e.sym("symbol"); e.assume(t.istype(s, "Symbol"))
        e.contracts["scm_intern"] = lambda e, st, a, k, fi: s
        def prot(e, st, a, k, fi):
            st.aux["prot"] = st.aux.get("prot", 0) + 1
            v = e.bv(a[1])
            t.prove("the mark is a new pair", AND(t.istype(v, "Cons"), AGE(v) > z3.Int("clk0")))
            e.store(fi[0], st, a[0], v, ('i', 64), fi[0].fn.mod); return e.sym("res")
        e.contracts["scm_gc_protect_with_init"] = prot
        t.call("scm_init_promise", [], lambda st, v: t.prove("the mark is protected from collection", z3.BoolVal(st.aux.get("prot") == 1)), lambda *a: t.prove("no error", F))
    ctx.irv("the mark of unforced promises", init)
    def delay(t):
        e = t.e
        exp, env = t.objs("exp", "env")
        m = tag(t)
        proc = t.obj("proc")
        def lam(e, st, a, k, fi):
            st.aux["lambdas"] = st.aux.get("lambdas", 0) + 1
            b = e.bv(a[1])
            t.prove("the delayed procedure takes no arguments, evaluates the expression and closes over the environment", AND(e.bv(a[0]) == t.K("NULL"), t.istype(b, "Cons"), t.car(b, st) == exp, t.cdr(b, st) == t.K("NULL"), e.bv(a[2]) == env))
            t.prove("the body is new", AGE(b) > z3.Int("clk0"))
            return proc
        e.contracts["scm_s_lambda"] = lam
        def ret(st, v):
            t.prove("one procedure is made", z3.BoolVal(st.aux.get("lambdas") == 1))
            t.prove("a promise is a new pair", AND(t.istype(v, "Cons"), AGE(v) > z3.Int("clk0"), t.get("mutable", v, st) != 0))
            t.prove("it is not yet forced", t.car(v, st) == m)
            t.prove("it carries the delayed procedure", t.cdr(v, st) == proc)
            t.prove_frame(st)
        t.call("scm_s_delay", [exp, env], ret, lambda *a: t.prove("no error", F))
    ctx.irv("delay", delay)
    def force(t):
        e = t.e
        p = t.obj("promise"); m = tag(t)
        q = e.sym("q"); t.assume(t.istype(q, "Cons"), AGE(q) <= z3.Int("clk0"))
        proc = t.cdr(p)
        result = t.obj("result")
        t.assume(result != m)                # the mark is private
        isproc = OR(t.istype(proc, "Closure"), t.istype(proc, "Continuation"), AND(t.istype(proc, "Func"), (t.get("functype", proc) & 0x10) == 0))
        def call(e, st, a, k, fi):
            """evaluation: any effect, except that promises which were determined stay as they are (the property itself, for the calls it makes)"""
            st.aux["calls"] = st.aux.get("calls", 0) + 1
            t.prove("the delayed procedure is called without arguments", AND(e.bv(a[0]) == proc, e.bv(a[1]) == t.K("NULL")))
            t.prove("nothing is evaluated for a promise which is determined", t.car(p, st) == m)
            before = dict(st.fld)
            for f in sorted(set(list(st.fld) + ["car", "cdr", "vcell", "mutable", "vec", "veclen", "str", "strlen", "env", "exp", "values"])):
                st.fld[f] = z3.Array("%s!%d" % (f, next(e.cnt)), BV64, e.fld0(f).sort().range())
            nclk = z3.Int("clk!%d" % next(e.cnt)); e.assume(nclk >= st.clk); st.clk = nclk
            for x in (p, q):
                c0 = e.asel(before["car"] if "car" in before else e.fld0("car"), x)
                e.assume(IMP(c0 != m, t.car(x, st) == c0))
                d0 = e.asel(before["cdr"] if "cdr" in before else e.fld0("cdr"), x)
                e.assume(t.cdr(x, st) == d0)
            st.aux["after"] = dict(st.fld)
            return result
        e.contracts["scm_call"] = call
        ok = AND(t.istype(p, "Cons"), isproc)
        def ret(st, v):
            t.prove("only promises can be forced", ok)
            n = st.aux.get("calls", 0)
            if n == 0:
                t.prove("a determined promise yields its value", AND(t.car(p) != m, v == t.car(p)))
                t.prove_frame(st)
            else:
                t.prove("the expression is evaluated once", z3.BoolVal(n == 1))
                t.prove("only a promise which is not determined is evaluated", t.car(p) == m)
                after = st.aux["after"]
                g = lambda f, x: e.asel(after[f] if f in after else e.fld0(f), x)
                t.prove("a value determined meanwhile is kept and returned", IMP(g("car", p) != m, AND(v == g("car", p), t.car(p, st) == v)))
                t.prove("otherwise the result is recorded and returned", IMP(g("car", p) == m, AND(v == result, t.car(p, st) == result)))
                x = e.sym("frame")
                for f in after:
                    a = st.fld.get(f)
                    if a is None or a.eq(after[f]): continue
                    keep = e.asel(a, x) == e.asel(after[f], x)
                    t.prove("nothing else is changed after the evaluation (%s)" % f, IMP(x != p, keep) if f == "car" else keep)
            t.prove("afterwards the promise is determined and holds what was returned", AND(t.car(p, st) == v, v != m))
            t.prove("the value of a determined promise never changes", IMP(t.car(q) != m, t.car(q, st) == t.car(q)))
        def err(st, nm, av):
            t.prove("an error is signalled only for what is no promise", NOT(OR(ok, AND(t.istype(p, "Cons"), t.istype(proc, "Closure")))))
            t.prove_frame(st, name="on error")
        t.call("scm_p_force", [p], ret, err)
    ctx.irv("force", force)
    ctx.assume("evaluation of the delayed expression is a contract: any effect on the heap, but it keeps determined promises (what force itself is proved to do; a program which uses set-car! on a promise is excluded)",
               "an expression never yields the private mark of unforced promises (it is stored nowhere but in unforced promises)")
    ctx.falsifier(fals.both(gen))

def gen(variant):
    import random
    rnd = random.Random(9)
    out = []
    pre = "(define %n 0) (define (%tick) (set! %n (+ %n 1)) %n)\n"
    # once, several, over and again
    for v in ["1", "#f", "'()", "\"s\"", "(list 1 2)", "car", "(lambda () 1)", "(if #f #f)"]:
        out.append(("(let* ((n 0) (p (delay (begin (set! n (+ n 1)) %s))) (a (force p)) (b (force p)) (c (force p))) (list n (eq? a b) (eq? b c)))" % v, "(1 #t #t)"))
        out.append(("(let* ((n 0) (p (delay (begin (set! n (+ n 1)) %s)))) n)" % v, "0"))
    # reentrant: forced again while its value is determined; the first value counts
    for d in range(1, 8):
        for order in ("pre", "post"):
            body = "(begin (set! n (+ n 1)) (let ((me n)) (if (< n %d) (force p)) me))" % d if order == "post" else "(begin (set! n (+ n 1)) (if (>= n %d) n (let ((x (force p))) (+ x 100))))" % d
            w = d
            out.append(("(letrec ((n 0) (p (delay %s))) (set! n 0) (let* ((a (force p)) (b (force p))) (list a b n)))" % body, "(%d %d %d)" % (w, w, d)))
    out.append(("(define p #f)", None))
    out.append(("(let ((x 5)) (define p (delay (begin (set! x (+ x 1)) (if (> x 9) x (force p))))) (let ((a (force p))) (set! x 10) (list a (force p))))", "(10 10)"))
    # a reentrant value which is false or a list, then a different outer one
    for inner, w in (("#f", "#f"), ("'()", "()"), ("'(a)", "(a)"), ("0", "0")):
        out.append(("(let ((first #t)) (define p (delay (if first (begin (set! first #f) (force p) 'outer) %s))) (let* ((a (force p)) (b (force p))) (list a b)))" % inner, "(%s %s)" % (w, w)))
    # escapes from the evaluation leave the promise unforced
    out.append(("(let ((n 0)) (define p (delay (begin (set! n (+ n 1)) (if (= n 1) (error \"x\") n)))) (guard (e (#t #f)) (force p)) (list (force p) (force p) n))", "(2 2 2)"))
    out.append(("(let ((n 0)) (define p (delay (call/cc (lambda (k) (set! n (+ n 1)) (k n))))) (list (force p) (force p) n))", "(1 1 1)"))
    # scope of the delayed expression
    out.append(("(let ((x 1)) (define p (delay x)) (let ((x 2)) (list (force p) x)))", "(1 2)"))
    out.append(("(let ((x 1)) (define p (delay x)) (set! x 3) (list (force p) (begin (set! x 4) (force p))))", "(3 3)"))
    # a promise whose value is a promise, a procedure or a pair which looks like one
    out.append(("(let* ((n 0) (q (delay (begin (set! n (+ n 1)) n))) (p (delay q))) (let* ((a (force p)) (b (force p)) (m n)) (list (eq? a q) (eq? b q) m (force a) (force (force p)) n)))", "(#t #t 0 1 1 1)"))
    out.append(("(let* ((x (cons 1 car)) (p (delay x))) (list (eq? x (force p)) (eq? x (force p)) (car x)))", "(#t #t 1)"))
    out.append(("(let* ((x (lambda () 5)) (p (delay x))) (list (eq? x (force p)) (eq? x (force p))))", "(#t #t)"))
    # streams
    out.append(("(let () (define (ints n) (cons n (delay (ints (+ n 1))))) (define (ref s k) (if (= k 0) (car s) (ref (force (cdr s)) (- k 1)))) (let ((s (ints 0))) (list (ref s 500) (ref s 3) (ref s 500))))", "(500 3 500)"))
    for x in ["1", "'()", "#f", "'(1)", "'(1 . 2)", "\"s\"", "#(1)", "'a", "car", "(cons 1 if)"]:
        out.append(("(force %s)" % x, "ERR"))
    for i in range(60):
        k = rnd.randrange(2, 9)
        vals = [rnd.choice(["#f", "'()", str(rnd.randrange(9)), "'q"]) for _ in range(k)]
        # nested forcing of a chain of promises, each memoized
        d = "".join("(define p%d (delay (begin (set! n (+ n 1)) (cons %s %s))))" % (j, vals[j], "(force p%d)" % (j + 1) if j + 1 < k else "'()") for j in range(k))
        js = rnd.randrange(k)
        lst = "(%s)" % " ".join(v.replace("'", "") for v in vals[js:])
        out.append(("(let ((n 0)) %s (force p%d) (force p%d) (list (force p%d) n (eq? (force p%d) (force p%d))))" % (d, js, rnd.randrange(js, k), js, js, js), "(%s %d #t)" % (lst, k - js)))
    return pre, out
