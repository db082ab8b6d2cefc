import itertools
import z3
from spec import *
import fals

def relation(kind):
    if kind == "equal":
        return lambda t, a, b: EQUAL(a, b) == 1
    return {"eq": lambda t, a, b: a == b, "eqv": eqv}[kind]
def use_equal(t):
    """callers of equal? rely on its contract (Q01): a symmetric relation, true of identical objects, which changes nothing"""
    def h(e, st, a, k, fi):
        x, y = e.bv(a[0]), e.bv(a[1])
        e.assume(EQUAL(x, y) == EQUAL(y, x)); e.assume(IMP(x == y, EQUAL(x, y) == 1))
        return simp(t.bool(EQUAL(x, y) == 1))
    t.e.contracts["scm_p_equalp"] = h

def setup(ctx):
    # --- member and assoc families
    def search(name, kind, assoc):
        rel0 = relation(kind)
        def prep(t):
            if kind == "equal": use_equal(t)
            obj, lst = t.objs("obj", "lst")
            def rel(x):
                if kind == "equal":
                    t.e.assume(EQUAL(obj, x) == EQUAL(x, obj)); t.e.assume(IMP(x == obj, EQUAL(obj, x) == 1))
                return rel0(t, obj, x)
            def miss(k, x):
                if assoc:
                    p = t.car(x)
                    return AND(t.istype(x, "Cons"), t.istype(p, "Cons"), NOT(rel(t.car(p))))
                return AND(t.istype(x, "Cons"), NOT(rel(t.car(x))))
            return obj, lst, rel, miss
        def found(t):
            obj, lst, rel, miss = prep(t)
            I = t.bv("I")
            t.bounded_by(I)
            t.upto(lst, I, miss)
            t.nth_facts(lst, B(0)); x = t.nth_facts(lst, I)
            t.assume(t.istype(x, "Cons"))
            if assoc: t.assume(t.istype(t.car(x), "Cons"), rel(t.car(t.car(x))))
            else: t.assume(rel(t.car(x)))
            def ret(st, v):
                t.prove("the first match is returned", v == (t.car(x) if assoc else x))
                t.prove_frame(st)
            t.call(t.prim(name), [obj, lst], ret, lambda st, n, av: t.prove("no error where a match exists", z3.BoolVal(False)))
        ctx.irv(name + " with a match", found)
        def absent(t):
            obj, lst, rel, miss = prep(t)
            n = t.bv("N")
            t.bounded_by(n)
            t.upto(lst, n, miss)
            t.nth_facts(lst, B(0)); end = t.nth_facts(lst, n)
            t.assume(NOT(t.istype(end, "Cons")))
            def ret(st, v):
                t.prove("#f is returned for a list without a match", AND(end == t.K("NULL"), v == t.K("FALSE")))
                t.prove_frame(st)
            t.call(t.prim(name), [obj, lst], ret, lambda st, nm, av: t.prove("an error is signalled only for an improper list", end != t.K("NULL")))
        ctx.irv(name + " without a match", absent)
        if assoc:
            def bad(t):
                obj, lst, rel, miss = prep(t)
                I = t.bv("I")
                t.bounded_by(I)
                t.upto(lst, I, miss)
                t.nth_facts(lst, B(0)); x = t.nth_facts(lst, I)
                t.assume(t.istype(x, "Cons"), NOT(t.istype(t.car(x), "Cons")))
                t.call(t.prim(name), [obj, lst], lambda st, v: t.prove("an element which is no pair is rejected", z3.BoolVal(False)), lambda st, nm, av: None)
            ctx.irv(name + " with an ill-formed element", bad)
    for n, k in (("memq", "eq"), ("memv", "eqv"), ("member", "equal")): search(n, k, False)
    for n, k in (("assq", "eq"), ("assv", "eqv"), ("assoc", "equal")): search(n, k, True)
    # --- positions
    for name in ("list-ref", "list-tail"):
        ref = name == "list-ref"
        def inside(t, name=name, ref=ref):
            lst, k = t.objs("lst", "k")
            kv = t.int(k)
            t.assume(t.isint(k), kv >= 0)
            t.bounded_by(kv)
            t.upto(lst, kv, lambda i, x: t.istype(x, "Cons"))
            t.nth_facts(lst, B(0)); x = t.nth_facts(lst, kv)
            if ref: t.assume(t.istype(x, "Cons"))
            t.assume(x != t.K("INVALID"))
            def ret(st, v):
                t.prove("exactly the addressed %s is returned" % ("element" if ref else "tail"), v == (t.car(x) if ref else x))
                t.prove_frame(st)
            t.call(t.prim(name), [lst, k], ret, lambda st, n, av: t.prove("no error inside the list", z3.BoolVal(False)))
        ctx.irv(name + " inside the list", inside)
        def outside(t, name=name, ref=ref):
            lst, k = t.objs("lst", "k")
            kv = t.int(k)
            n, end = t.finite(lst)
            t.assume(OR(NOT(t.isint(k)), kv < 0, kv >= n if ref else kv > n))
            t.bounded_by(n)
            t.call(t.prim(name), [lst, k], lambda st, v: t.prove("an index outside the list is rejected", z3.BoolVal(False)), lambda st, nm, av: None)
        ctx.irv(name + " outside the list", outside)
    # --- c[ad]+r
    for d in range(1, 5):
        for path in itertools.product("ad", repeat=d):
            def walk(t, o, path=path):
                xs, x = [], o
                for c in reversed(path):
                    xs.append(x); x = t.car(x) if c == "a" else t.cdr(x)
                return xs, x
            fix(ctx, "c%sr" % "".join(path), 1, lambda t, a, walk=walk: NOT(AND(*[t.istype(x, "Cons") for x in walk(t, a[0])[0]])),
                lambda t, a, st, v, walk=walk: [("exactly the addressed component is returned", v == walk(t, a[0])[1])])
    # --- construction and mutation of a pair
    def cons(t, a, st, v):
        return [("the result is a new pair", AND(t.istype(v, "Cons"), AGE(v) > z3.Int("clk0"))), ("its car is the first argument", t.car(v, st) == a[0]),
                ("its cdr is the second argument", t.cdr(v, st) == a[1]), ("it is mutable", t.get("mutable", v, st) != 0)]
    fix(ctx, "cons", 2, lambda t, a: z3.BoolVal(False), cons)
    for f in ("car", "cdr"):
        name = "set-%s!" % f
        def task(t, name=name, f=f):
            p, x = t.objs("pair", "obj")
            req = NOT(t.istype(p, "Cons"))
            imm = t.get("mutable", p) == 0 if t.variant == "fatty" else z3.BoolVal(False)
            def ret(st, v):
                t.prove("returns only where no error is required", NOT(OR(req, imm)))
                t.prove("the %s is the new object" % f, t.get(f, p, st) == x)
                t.prove_frame(st, except_=lambda o, g: o == p if g == f else z3.BoolVal(False))
            def err(st, n, av):
                t.prove("signals an error only where one is required", OR(req, imm))
                t.prove_frame(st, name="on error")
            t.call(t.prim(name), [p, x], ret, err)
        ctx.irv(name, task)
    ctx.assume("lists have fewer than 2^59 pairs", "equal? obeys its contract (Q01)")

    def gen(variant):
        pre = '''(define (mk n end) (let loop ((i (- n 1)) (l end)) (if (< i 0) l (loop (- i 1) (cons i l)))))
(define (al n end) (let loop ((i (- n 1)) (l end)) (if (< i 0) l (loop (- i 1) (cons (cons i (* i 2)) l)))))
(define (circ n) (let ((c (mk n '()))) (set-cdr! (list-tail c (- n 1)) c) c))
(define (pos x l) (let loop ((i 0) (l l)) (if (eq? x l) i (if (pair? l) (loop (+ i 1) (cdr l)) (quote none)))))
(define o1 (list 1 2)) (define o2 (list 1 2)) (define s1 (string-copy "ab")) (define s2 (string-copy "ab"))
(define ks (list o1 s1 #\\a 5 'x #t '() car (vector 1 2) -7 "" 4611686018427387 o2 s2))
(define as (map (lambda (k) (list k)) ks))
'''
        out = []
        for n in (0, 1, 2, 3, 10, 255, 256, 257, 1000, 70000):
            for k in sorted({0, 1, n // 2, n - 1, n, n + 1, -1, n + 256, n + 65536, (1 << 32) + 1, (1 << 59) - 1, -(1 << 59)}):
                for e in ("'()", "'z"):
                    l = "(mk %d %s)" % (n, e)
                    out.append(("(list-ref %s %d)" % (l, k), str(k) if 0 <= k < n else "ERR"))
                    out.append(("(let ((l %s)) (pos (list-tail l %d) l))" % (l, k), str(k) if 0 <= k <= n and (k < n or e != "'z" or True) else "ERR"))
                    if k < 80000:
                        for f in ("memv", "member") + (("memq",) if variant == "compact" else ()):
                            out.append(("(let ((l %s)) (pos (%s %d l) l))" % (l, f, k), str(k) if 0 <= k < n else "none" if e == "'()" else "ERR"))
                        for f in ("assv", "assoc") + (("assq",) if variant == "compact" else ()):
                            out.append(("(%s %d (al %d %s))" % (f, k, n, e), "(%d . %d)" % (k, k * 2) if 0 <= k < n else "#f" if e == "'()" else "ERR"))
        out += [("(list-ref (circ 5) 12)", "2"), ("(list-ref (circ 5) 1000004)", "4"), ("(car (list-tail (circ 3) 100))", "1"), ("(car (memv 3 (circ 5)))", "3"), ("(memv 2 '(1 2 . 3))", "(2 . 3)"), ("(memv 3 '(1 2 . 3))", "ERR")]
        for x in ("'a", "1.5" if False else "\"1\"", "#\\a", "#t", "'()"): out += [("(list-ref '(1 2 3) %s)" % x, "ERR"), ("(list-tail '(1 2 3) %s)" % x, "ERR")]
        # keys of every kind: eq, eqv, equal positions
        keys = [("o1", 0, 0, 0), ("o2", 12, 12, 0), ("(list 1 2)", None, None, 0), ("(list 1 3)", None, None, None), ("s1", 1, 1, 1), ("s2", 13, 13, 1), ("(string-copy \"ab\")", None, None, 1),
                ("#\\a", 2 if variant == "compact" else None, 2, 2), ("5", 3 if variant == "compact" else None, 3, 3), ("'x", 4, 4, 4), ("#t", 5, 5, 5), ("'()", 6, 6, 6), ("car", 7, 7, 7), ("(vector 1 2)", None, None, 8), ("(vector 2 1)", None, None, None),
                ("-7", 9 if variant == "compact" else None, 9, 9), ("(string)", None, None, 10), ("4611686018427387", 11 if variant == "compact" else None, 11, 11), ("cdr", None, None, None), ("'y", None, None, None), ("#\\b", None, None, None), ("#f", None, None, None)]
        for x, q, v, e in keys:
            for f, p in (("q", q), ("v", v), ("ber", e)):
                out.append(("(pos (mem%s %s ks) ks)" % ("ber" if f == "ber" else f, x), "none" if p is None else str(p)))
                g = "oc" if f == "ber" else f
                out.append(("(let ((r (ass%s %s as))) (if r (pos (memq r as) as) 'none))" % (g, x), "none" if p is None else str(p)))
        for f in ("assq", "assv", "assoc"):
            out += [("(%s 'b '((a . 1) b (b . 2)))" % f, "ERR"), ("(%s 'b '((b . 2) b))" % f, "(b . 2)"), ("(%s 'b 'b)" % f, "ERR"), ("(%s 'c '((a) (b) . (c)))" % f, "ERR"), ("(%s 'b '((b . 1) (b . 2)))" % f, "(b . 1)")]
        for d in range(1, 5):
            for path in itertools.product("ad", repeat=d):
                n = "c%sr" % "".join(path)
                # full binary tree of distinct leaves
                def tree(p, k): return "%s" % p if k == 0 else "(%s . %s)" % (tree(p * 2, k - 1), tree(p * 2 + 1, k - 1))
                x = 1
                for c in reversed(path): x = x * 2 + (c == "d")
                out.append(("(%s '%s)" % (n, tree(1, d)), str(x)))
                for k in range(d): out.append(("(%s '%s)" % (n, tree(1, k)), "ERR"))
                y = 1
                # a tree which is missing exactly the pair at each step
                for i in range(d):
                    pp = list(reversed(path))[:i]
                    def tr(p, k, at):
                        if at == []: return "nil"
                        if k == 0: return str(p)
                        l, r = tree(p * 2, k - 1), tree(p * 2 + 1, k - 1)
                        if at[0] == "a": l = tr(p * 2, k - 1, at[1:]) if at[1:] else "nil"
                        else: r = tr(p * 2 + 1, k - 1, at[1:]) if at[1:] else "nil"
                        return "(%s . %s)" % (l, r)
                    out.append(("(%s '%s)" % (n, tr(1, d, pp)), "ERR"))
        # short lists with repeated keys
        import random
        rnd = random.Random(7)
        for i in range(600):
            n = rnd.randrange(0, 9)
            ks = [rnd.choice("abcd") for _ in range(n)]
            x = rnd.choice("abcde")
            at = ks.index(x) if x in ks else None
            l = "(list %s)" % " ".join("'" + k for k in ks)
            a = "(list %s)" % " ".join("(cons '%s %d)" % (k, j) for j, k in enumerate(ks))
            for f in ("memq", "memv", "member"): out.append(("(let ((l %s)) (pos (%s '%s l) l))" % (l, f, x), "none" if at is None else str(at)))
            for f in ("assq", "assv", "assoc"): out.append(("(%s '%s %s)" % (f, x, a), "#f" if at is None else "(%s . %d)" % (x, at)))
        out += [("(cons 1 2)", "(1 . 2)"), ("(let ((p (cons 1 2))) (set-car! p 3) p)", "(3 . 2)"), ("(let ((p (cons 1 2))) (set-cdr! p 3) p)", "(1 . 3)"),
                ("(set-car! '() 1)", "ERR"), ("(set-cdr! 5 1)", "ERR"), ("(set-car! (vector 1) 1)", "ERR"), ("(let ((a (cons 1 2))) (eq? (cons 1 a) (cons 1 a)))", "#f")]
        for o in ("1", "'a", "\"s\"", "#\\a", "'()", "#t", "car", "(vector 1 2)"):
            for f in ("set-car!", "set-cdr!"): out.append(("(%s %s 1)" % (f, o), "ERR"))
        return pre, out
    ctx.falsifier(fals.both(gen))
