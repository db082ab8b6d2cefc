import itertools
import z3
from spec import *
import fals

def setup(ctx):
    F = z3.BoolVal(False)
    no = lambda t, a: F
    fix(ctx, "eq?", 2, no, lambda t, a, st, v: [("true exactly of identical objects", v == t.bool(a[0] == a[1]))])
    fix(ctx, "eqv?", 2, no, lambda t, a, st, v: [("numbers and characters by value, others by identity", v == t.bool(eqv(t, *a)))])
    fix(ctx, "not", 1, no, lambda t, a, st, v: [("true exactly of #f", v == t.bool(a[0] == t.K("FALSE")))])
    fix(ctx, "boolean?", 1, no, lambda t, a, st, v: [("true exactly of #t and #f", v == t.bool(OR(a[0] == t.K("FALSE"), a[0] == t.K("TRUE"))))])
    fix(ctx, "symbol?", 1, no, lambda t, a, st, v: [("true exactly of symbols", v == t.bool(t.istype(a[0], "Symbol")))])
    fix(ctx, "procedure?", 1, no, lambda t, a, st, v: [("true exactly of procedures", v == t.bool(OR(t.istype(a[0], "Closure"), t.istype(a[0], "Continuation"),
        AND(t.istype(a[0], "Func"), t.get("functype", a[0]) & B(t.c["SCM_FUNCTYPE_SYNTAX"], 32) == 0))))])
    STRSAME = z3.Function("STRSAME", BV64, BV64, z3.BoolSort())
    VECEQ = z3.Function("VECEQ", BV64, BV64, z3.BoolSort())
    def equal(t):
        e = t.e
        a, b = t.objs("obj1", "obj2")
        root = t.root0()
        def DEF(x, y):
            """one step of the definition of equal?"""
            ty = lambda n: t.istype(x, n)
            same = lambda f: e.asel(e.fld0(f), x) == e.asel(e.fld0(f), y)
            return AND((EQUAL(x, y) == 1) == OR(x == y, AND(TYPE(x) == TYPE(y), OR(
                AND(ty("Int"), t.int(x) == t.int(y)), AND(ty("Char"), t.char(x) == t.char(y)),
                AND(ty("String"), STRSAME(t.get("str", x), t.get("str", y))),
                AND(ty("Cons"), EQUAL(t.car(x), t.car(y)) == 1, EQUAL(t.cdr(x), t.cdr(y)) == 1),
                AND(ty("Vector"), VECEQ(x, y)),
                AND(ty("CPointer"), same("cptr")), AND(ty("CFuncPointer"), same("cfptr"))))),
                IMP(AND(ty("String"), t.istype(y, "String"), STRSAME(t.get("str", x), t.get("str", y))), same("strlen")))
        t.assume(DEF(a, b))
        # list positions
        t.upto(a, None, lambda k, x: AND(DEF(x, t.nth(b, k)), DEF(t.car(x), t.car(t.nth(b, k)))))
        t.nth_facts(a, B(0)); t.nth_facts(b, B(0))
        def follow(view):
            cs = [v for v in view.lp.vars if v.t[0] == 'chain' and v.t[1] == 1]
            fs = []
            for v, w in itertools.permutations(cs, 2):
                if v.x0.eq(a) and w.x0.eq(b): fs.append((EQUAL(a, b) == 1) == (EQUAL(e.bv(view.vals[v.key]), e.bv(view.vals[w.key])) == 1))
            return AND(*fs) if fs else None
        e.cands.append(follow)
        # vectors
        J = t.bv("J")
        va, vb, n, m = t.get("vec", a), t.get("vec", b), t.get("veclen", a), t.get("veclen", b)
        bothv = AND(t.istype(a, "Vector"), t.istype(b, "Vector"))
        M = e.marr(St(), 64)
        el = lambda v, o: z3.Select(z3.Select(M, v), o)
        t.assume(IMP(bothv, AND(n >= 0, m >= 0, z3.ULT(n, B(1 << 59)), z3.ULT(m, B(1 << 59)))))
        t.assume(IMP(AND(bothv, VECEQ(a, b)), n == m))
        t.assume(IMP(AND(bothv, NOT(VECEQ(a, b))), OR(n != m, AND(z3.ULT(J, n), EQUAL(el(va, J * 8), el(vb, J * 8)) != 1))))
        def inst(base, o):
            i = z3.LShR(o, B(3))
            return AND(IMP(AND(bothv, VECEQ(a, b), z3.ULT(i, n)), EQUAL(el(va, i * 8), el(vb, i * 8)) == 1), DEF(el(va, o), el(vb, o)))
        e.uinv.setdefault(("M", M.get_id()), []).append(inst)
        t.assume(inst(va, J * 8))
        for step in (8, 1):
            for base in (0, 1, 2):
                def passed(view, step=step, base=base): 
                    return IMP(AND(bothv, z3.ULT(J, view.it + base)), EQUAL(el(va, J * 8), el(vb, J * 8)) == 1) if step == 8 else None
                if step == 8: e.cands.append(passed)
        def rec(eng, st, args, k, fi):
            x, y = eng.bv(args[0]), eng.bv(args[1])
            eng.assume(DEF(x, y))
            return simp(t.bool(EQUAL(x, y) == 1))
        e.contracts["scm_p_equalp"] = rec
        def strcmp(eng, st, args, k, fi):
            r = eng.sym("strcmp", 32)
            eng.assume((r == 0) == STRSAME(eng.bv(args[0]), eng.bv(args[1])))
            return r
        e.handlers["strcmp"] = strcmp
        def ret(st, v):
            t.prove("the answer is that of the definition", v == t.bool(EQUAL(a, b) == 1))
            t.prove_frame(st)
        t.call(t.prim("equal?"), [a, b], ret, lambda st, nm, av: t.prove("equal? signals no error", F))
    ctx.irv("equal?", equal)
    ctx.assume("equal? is applied to structures which are not circular (partial correctness)", "strcmp tells equal and different C strings apart", "strings with the same bytes have the same length (T01)")

    def gen(variant):
        pre = '''(define (mk n end) (let loop ((i (- n 1)) (l end)) (if (< i 0) l (loop (- i 1) (cons i l)))))
(define (mkv n) (let ((v (make-vector n 0))) (let loop ((i 0)) (if (= i n) v (begin (vector-set! v i i) (loop (+ i 1)))))))
(define (vset v i x) (vector-set! v i x) v)
(define (lset l i x) (set-car! (list-tail l i) x) l)
'''
        big = 576460752303423487 if variant == "compact" else 9223372036854775807
        # (expression, value for equal?, eqv class or None = fresh)
        vals = [("0", "i0"), ("1", "i1"), ("-1", "i-1"), ("65536", "ib"), ("4294967296", "ic"), ("4294967297", "id"), (str(big), "imx"), (str(-big - 1), "imn"), ("256", "ie"), ("-256", "if"),
                ("#\\a", "ca"), ("#\\A", "cA"), ("#\\x100", "c100"), ("#\\x0", "c0"), ("#\\x10ffff", "cm"), ("#\\x10000", "cz"), ("'a", "sa"), ("'A", "sA"), ("'b", "sb"), ("#t", "t"), ("#f", "f"), ("'()", "n"), ("car", "pc"), ("cdr", "pd"), ("(eof)" if False else "(if #f #f)", "u")]
        comp = ["(string)", "(string #\\a)", "(string #\\b)", "(string #\\a #\\b)", "(string #\\A)", "(string #\\x3042)", "(string #\\x3044)", "(make-string 300 #\\a)", "(make-string 299 #\\a)",
                "(vector)", "(vector 1)", "(vector 1 2)", "(vector 1 3)", "(vector 2 1)", "(vector (vector))", "(vector '())", "(mkv 300)", "(vset (mkv 300) 299 'x)", "(vset (mkv 300) 0 'x)", "(vset (mkv 300) 255 'x)", "(mkv 299)", "(vset (mkv 300) 150 (string))",
                "(list 1)", "(list 1 2)", "(list 2 1)", "(cons 1 2)", "(list 1 2 3)", "(list (list 1) 2)", "(list 1 (list 2))", "(list (vector 1) (string #\\a))", "(list \"a\" #\\a)", "(mk 300 '())", "(mk 300 1)", "(mk 299 '())", "(lset (mk 300 '()) 299 'x)", "(lset (mk 300 '()) 0 'x)", "(lset (mk 300 '()) 128 (list))",
                "(cons (string) '())", "(cons '() '())", "(list '() '())", "(cons 1 (string #\\a))", "(cons 1 (string #\\b))", "(cons 1 (vector 1))", "(cons (cons 1 2) (cons 3 4))", "(cons (cons 1 2) (cons 3 5))", "(cons (cons 1 3) (cons 3 4))"]
        out = []
        b = lambda c: "#t" if c else "#f"
        allv = [(x, c, True) for x, c in vals] + [(x, x, False) for x in comp]
        for i, (x, c, imm) in enumerate(allv):
            for j, (y, d, imm2) in enumerate(allv):
                if imm != imm2 and (i + j) % 3: continue
                if "'()" == y and x in (): continue
                ce, de = c, d
                out.append(("(equal? %s %s)" % (x, y), b(ce == de)))
                if imm or imm2 or i <= j: out.append(("(eqv? %s %s)" % (x, y), b(ce == de and imm)))
                if not (imm and (x[0] in "-0123456789#" and c[0] in "ic")): out.append(("(eq? %s %s)" % (x, y), b(ce == de and imm)))
            out += [("(let ((o %s)) (list (eq? o o) (eqv? o o) (equal? o o)))" % x, "(#t #t #t)"),
                    ("(not %s)" % x, b(c == "f")), ("(boolean? %s)" % x, b(c in "tf")), ("(symbol? %s)" % x, b(imm and c[0] == "s")), ("(procedure? %s)" % x, b(imm and c[0] == "p"))]
        out += [("(procedure? (lambda () 1))", "#t"), ("(call/cc (lambda (k) (procedure? k)))" if False else "(call-with-current-continuation (lambda (k) (procedure? k)))", "#t"),
                ("(eqv? (lambda () 1) (lambda () 1))", "#f"), ("(equal? (lambda () 1) (lambda () 1))", "#f"), ("(let ((f (lambda () 1))) (eqv? f f))", "#t"), ("(symbol? (string->symbol \"\"))", "#t")]
        return pre, out
    ctx.falsifier(fals.both(gen))
