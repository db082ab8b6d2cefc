import z3
from spec import *
from engine import P
import fals, irv

VALUE = z3.Function("VALUE", BV64, BV64)        # value of the k-th evaluation
FOUND = z3.Function("MEMV", BV64, BV64, BV64)   # result of memv (L02)
SYNTAX = 0x10
def setup(ctx):
    F, T = z3.BoolVal(False), z3.BoolVal(True)
    def bad(t, x):
        """no ordinary value: a syntactic keyword, a bundle of multiple values"""
        synenv = t.glob("call", "scm_g_instance_legacy_macro", t.e.c["off_syntactic_closure_env"], 64)
        return OR(t.istype(x, "ValuePacket"), AND(t.istype(x, "Func"), (t.get("functype", x) & SYNTAX) != 0), AND(t.istype(x, "Closure"), t.get("env", x) == synenv))
    def procedure(t, x): return OR(t.istype(x, "Closure"), t.istype(x, "Continuation"), AND(t.istype(x, "Func"), (t.get("functype", x) & SYNTAX) == 0))
    class Form:
        """a form under evaluation: state, counted evaluations"""
        def __init__(f, t):
            f.t, e = t, t.e
            f.env, f.rt, f.nest = t.obj("env"), t.bv("ret_type", 32), t.bv("nest", 32)
            f.S = t.struct("state", 16, [(0, 64, f.env), (8, 32, f.rt), (12, 32, f.nest)])
            f.cnt = t.slot("evaluations", 64, B(0))
            f.n = lambda st: t.cell(st, f.cnt, 0, 64)
            f.result = t.obj("result")
        def evaluates(f, expected):
            """contract of scm_eval: the k-th evaluation is of expected(k), which is (condition, expression); the form stays unchanged"""
            t, e = f.t, f.t.e
            def ev(e, st, a, k, fi):
                i = f.n(st)
                c, x = expected(st, i)
                t.prove("the sub-expressions are evaluated in order, each once", AND(c, e.bv(a[0]) == x))
                v = e.bv(a[1])
                t.prove("sub-expressions are evaluated in the environment of the form", OR(v == f.env, AND(f.env == t.K("NULL"), v == t.K("EOF"))))
                e.store(fi[0], st, f.cnt, simp(i + 1), ('i', 64), fi[0].fn.mod)
                nclk = z3.Int("clk!%d" % next(e.cnt)); e.assume(nclk >= st.clk); st.clk = nclk; e.wkey('clk')
                r = VALUE(i); e.assume(r != t.K("INVALID")); e.assume(AGE(r) <= st.clk); e.assume(AGE(r) >= 0)
                st.aux["last"] = r; st.aux["lastx"] = x
                return r
            e.contracts["scm_eval"] = ev
        def hands_on(f, name="scm_s_begin"):
            """contract of scm_s_begin (below): evaluation continues with that sequence"""
            t = f.t
            def h(e, st, a, k, fi):
                st.aux["seq"] = e.bv(a[0]); st.aux["seqs"] = st.aux.get("seqs", 0) + 1
                t.prove("the rest is evaluated in the state of the form", z3.BoolVal(isinstance(a[1], P) and a[1].kind == 'obj' and a[1].base == f.S.base and a[1].off == 0))
                t.prove("the rest is evaluated in the environment of the form", t.cell(st, f.S, 0, 64) == f.env)
                return f.result
            t.e.contracts[name] = h
        def final(f, st):
            """the result is a value (not an expression to be evaluated)"""
            rt = f.t.cell(st, f.S, 8, 32)
            return rt == f.t.e.c["valtype_as_is"]
        def untouched(f, st): return f.t.cell(st, f.S, 8, 32) == f.rt
        def env_ok(f, st):
            f.t.prove("the environment of the state is kept", f.t.cell(st, f.S, 0, 64) == f.env)
    nil = lambda t, x: x == t.K("NULL")
    pair = lambda t, x: t.istype(x, "Cons")
    # --- if
    def s_if(t):
        f = Form(t)
        test, conseq, rest = t.objs("test", "consequent", "rest")
        t.nth_facts(rest, B(0)); t.nth_facts(rest, B(1))
        f.evaluates(lambda st, i: (i == 0, test))
        v0 = VALUE(B(0)); isf = v0 == t.K("FALSE")
        wf = OR(nil(t, rest), AND(pair(t, rest), nil(t, t.cdr(rest))))
        def ret(st, v):
            t.prove("the test is evaluated exactly once", f.n(st) == 1)
            t.prove("no branch is chosen for what is no value", NOT(bad(t, v0)))
            t.prove("a true test selects the consequent", IMP(NOT(isf), v == conseq))
            t.prove("a false test selects the alternative", IMP(AND(isf, pair(t, rest)), v == t.car(rest)))
            t.prove("a false test without alternative is unspecified", IMP(AND(isf, NOT(pair(t, rest))), v == t.K("UNDEF")))
            t.prove("an ill-formed conditional is refused", wf)
            t.prove("the selected branch is evaluated in tail position", f.untouched(st))
            f.env_ok(st); t.prove_frame(st)
        t.call("scm_s_if", [test, conseq, rest, f.S], ret, lambda st, nm, av: t.prove("an error is signalled only for an ill-formed conditional or what is no value", OR(NOT(wf), bad(t, v0))))
    ctx.irv("if", s_if)
    # --- and, or, begin
    def sequence(name, stop):
        def task(t):
            e = t.e
            f = Form(t)
            args = t.obj("args"); j = t.skolem("j")
            n, end = t.finite(args); t.bounded_by(n, steps=(1,))
            t.nth_facts(args, j); t.nth_facts(args, n - 1)
            def expd(st, i):
                t.nth_facts(args, i)
                return (z3.ULT(i + 1, n), t.car(t.nth(args, i)))
            f.evaluates(expd)
            halts = lambda x: {"and": x == t.K("FALSE"), "or": x != t.K("FALSE"), "begin": F}[stop]
            goes = lambda x: AND(NOT(bad(t, x)), NOT(halts(x)))
            e.cands.append(lambda v: IMP(z3.ULT(j, v.it), goes(VALUE(j))))
            e.cands.append(lambda v: z3.ULT(v.it, n))
            proper = nil(t, end)
            def length(e, st, a, k, fi):
                """contract of scm_length (L01) for a tail of the form"""
                t.nth_facts(args, f.n(st))
                t.prove("properness is decided for the form", e.bv(a[0]) == t.nth(args, f.n(st)))
                r = e.sym("length"); e.assume((r >= 0) == proper)
                return r
            e.contracts["scm_length"] = length
            def ret(st, v):
                k = f.n(st)
                t.nth_facts(args, k)
                t.prove("a dotted form is refused", proper)
                as_is = f.final(st)
                last = VALUE(k - 1)
                t.prove("without sub-expressions the value is the neutral one", IMP(AND(n == 0, as_is), v == {"and": t.K("TRUE"), "or": t.K("FALSE"), "begin": t.K("UNDEF")}[stop]))
                t.prove("without sub-expressions nothing is evaluated", IMP(n == 0, k == 0))
                t.prove("without sub-expressions there is a value", IMP(n == 0, as_is))
                sh = AND(n != 0, NOT(f.untouched(st)))
                t.prove("evaluation ends early only with the deciding value", IMP(sh, AND(as_is, z3.ULT(k, n), k != 0, halts(last), v == last, NOT(bad(t, last)), IMP(z3.ULT(j, k - 1), goes(VALUE(j))))))
                tl = AND(n != 0, f.untouched(st), NOT(AND(k != 0, halts(last))))
                t.prove("otherwise the last sub-expression is evaluated in tail position", IMP(tl, AND(k == n - 1, v == t.car(t.nth(args, n - 1)))))
                t.prove("no sub-expression is skipped", IMP(AND(tl, z3.ULT(j, k)), goes(VALUE(j))))
                t.prove("evaluation never goes on after the deciding value", IMP(AND(z3.ULT(j, k), j + 1 != k), goes(VALUE(j))))
                f.env_ok(st); t.prove_frame(st)
            def err(st, nm, av):
                last = st.aux.get("last")
                t.prove("an error is signalled only for an ill-formed form or what is no value", OR(NOT(proper), AND(z3.BoolVal(stop == "begin"), n == 0), F if last is None else bad(t, last)))
            # which value type the caller expects must not matter
            t.assume(f.rt != e.c["valtype_as_is"])
            t.call("scm_s_" + name, [args, f.S], ret, err)
        ctx.irv(name, task)
    sequence("and", "and"); sequence("or", "or"); sequence("begin", "begin")
    # --- cond and case
    def clauses_of(t):
        cl = t.obj("clauses"); j = t.skolem("j")
        n, end = t.finite(cl); t.bounded_by(n, steps=(1,))
        def facts(i):
            x = t.nth_facts(cl, i); c = t.car(x)
            t.nth_facts(c, B(0)); t.nth_facts(c, B(1)); t.nth_facts(c, B(2)); t.nth_facts(c, B(3))
            return c
        facts(j); t.nth_facts(cl, n)
        return cl, n, end, j, facts
    def keyword(t, name):
        s = t.symbols("scm_init_syntax")
        g, off = s[name]
        k = t.glob("scm_s_cond_internal", g, off, 64)
        t.assume(t.istype(k, "Symbol"), AGE(k) == 0)
        return k
    def s_cond(t):
        e = t.e
        f = Form(t)
        cl, n, end, j, facts = clauses_of(t)
        ELSE, YIELDS = keyword(t, "else"), keyword(t, "=>")
        QUOTE = t.glob("scm_s_cond_internal", *(t.symbols("scm_init_syntax")["quote"] + (64,)))
        t.assume(ELSE != YIELDS)
        clause = lambda i: t.car(t.nth(cl, i))
        test = lambda i: t.car(clause(i))
        exps = lambda i: t.cdr(clause(i))
        two = lambda x: AND(pair(t, x), pair(t, t.cdr(x)), nil(t, t.cdr(t.cdr(x))))
        arrow = lambda i: AND(two(exps(i)), t.car(exps(i)) == YIELDS)
        # before clause i everything was false
        passed = lambda i: AND(pair(t, clause(i)), test(i) != ELSE, VALUE(i) == t.K("FALSE"))
        e.cands.append(lambda v: IMP(z3.ULT(j, v.it), passed(j)))
        pos = lambda st: st.its[-1][1] if st.its else B(0)
        def expd(st, i):
            p = pos(st); facts(p); facts(i)
            return (T, z3.If(i == p, test(p), t.car(t.cdr(exps(p)))))
        def guard(st, i):
            p = pos(st)
            c, x = expd(st, i)
            return (OR(AND(i == p, z3.ULT(p, n), pair(t, clause(p)), test(p) != ELSE),
                       AND(i == p + 1, VALUE(p) != t.K("FALSE"), NOT(bad(t, VALUE(p))), arrow(p))), x)
        f.evaluates(guard); f.hands_on()
        def ret(st, v):
            p, k = pos(st), f.n(st)
            facts(p)
            before = IMP(z3.ULT(j, p), passed(j))
            val = VALUE(p)
            sel = AND(z3.ULT(p, n), pair(t, clause(p)))
            if st.aux.get("seqs"):
                t.prove("a sequence is evaluated once", z3.BoolVal(st.aux["seqs"] == 1))
                t.prove("the clauses before the selected one have false tests", before)
                t.prove("the selected clause has a true test or is the last one with else", AND(sel, OR(
                    AND(test(p) == ELSE, k == p, n == p + 1, nil(t, end)),
                    AND(test(p) != ELSE, k == p + 1, val != t.K("FALSE"), NOT(bad(t, val)), exps(p) != t.K("NULL"), NOT(arrow(p))))))
                t.prove("the sequence is that of the selected clause", st.aux["seq"] == exps(p))
                t.prove("the value is that of the sequence", v == f.result)
            else:
                none = v == t.K("INVALID")
                lone = AND(NOT(none), k == p + 1)
                t.prove("without a selected clause every test is false", IMP(none, AND(p == n, k == n, n != 0, nil(t, end), IMP(z3.ULT(j, n), passed(j)), f.final(st))))
                t.prove("a clause of a test only gives the value of the test", IMP(lone, AND(sel, test(p) != ELSE, before, val != t.K("FALSE"), NOT(bad(t, val)), nil(t, exps(p)), v == val, f.final(st))))
                pr = VALUE(p + 1)
                d1 = t.cdr(v, st); a1 = t.car(d1, st); d2 = t.cdr(a1, st)
                t.prove("a clause with a recipient calls it with the value of the test", IMP(AND(NOT(none), NOT(lone)), AND(k == p + 2, sel, test(p) != ELSE, before, val != t.K("FALSE"), arrow(p), f.untouched(st),
                    pair(t, v), t.car(v, st) == pr, pair(t, d1), nil(t, t.cdr(d1, st)), pair(t, a1), t.car(a1, st) == QUOTE, pair(t, d2), t.car(d2, st) == val, nil(t, t.cdr(d2, st)))))
                t.prove("a recipient is a procedure", IMP(AND(NOT(none), NOT(lone)), procedure(t, pr)))
            f.env_ok(st); t.prove_frame(st)
        def err(st, nm, av):
            p, k = pos(st), f.n(st)
            facts(p)
            pr = VALUE(p + 1)
            t.prove("an error is signalled only for an ill-formed clause, what is no value or a recipient which is no procedure", OR(
                n == 0, AND(p == n, end != t.K("NULL")), AND(z3.ULT(p, n), NOT(pair(t, clause(p)))), AND(z3.ULT(p, n), test(p) == ELSE, OR(n != p + 1, end != t.K("NULL"))),
                AND(k == p + 1, bad(t, VALUE(p))), AND(k == p + 2, NOT(procedure(t, pr)))))
        t.assume(f.rt != e.c["valtype_as_is"], VALUE(B(0)) != t.K("INVALID"))
        t.assume(j == j)
        e.uvalue = True
        t.call("scm_s_cond_internal", [cl, f.S], ret, err)
    ctx.irv("cond", s_cond)
    def s_cond_outer(t):
        e = t.e
        f = Form(t)
        cl = t.obj("clauses")
        inner = t.obj("inner")
        def h(e, st, a, k, fi):
            t.prove("all clauses are considered", AND(e.bv(a[0]) == cl, z3.BoolVal(a[1].base == f.S.base)))
            st.aux["c"] = st.aux.get("c", 0) + 1
            return inner
        e.contracts["scm_s_cond_internal"] = h
        def ret(st, v):
            t.prove("the clauses are considered once", z3.BoolVal(st.aux.get("c") == 1))
            t.prove("without a selected clause the value is unspecified, otherwise that of the clause", v == z3.If(inner == t.K("INVALID"), t.K("UNDEF"), inner))
            t.prove("the kind of the result is kept", f.untouched(st))
            f.env_ok(st); t.prove_frame(st)
        t.call("scm_s_cond", [cl, f.S], ret, lambda *a: t.prove("no error", F))
    ctx.irv("cond as a whole", s_cond_outer)
    def s_case(t):
        e = t.e
        f = Form(t)
        key = t.obj("key")
        cl, n, end, j, facts = clauses_of(t)
        ELSE = keyword(t, "else")
        clause = lambda i: t.car(t.nth(cl, i))
        data = lambda i: t.car(clause(i))
        f.evaluates(lambda st, i: (i == 0, key)); f.hands_on()
        val = VALUE(B(0))
        pos = lambda st: st.its[-1][1] if st.its else B(0)
        def memv(e, st, a, k, fi):
            p = pos(st); facts(p)
            t.prove("the value of the key is compared with the data of the clause", AND(f.n(st) == 1, e.bv(a[0]) == val, z3.ULT(p, n), pair(t, clause(p)), e.bv(a[1]) == data(p)))
            bad_list = e.sym("memv_error", 8)
            def fail(s):
                s.aux["memv failed"] = True; return e.terminal(fi[0], s, "scm_error_with_implicit_func", [])
            e.branch(st, bad_list == 1, fail, lambda s: k(s, FOUND(val, data(p))))
            return None
        e.contracts["scm_p_memv"] = memv
        passed = lambda i: AND(pair(t, clause(i)), data(i) != ELSE, FOUND(val, data(i)) == t.K("FALSE"))
        e.cands.append(lambda v: IMP(z3.ULT(j, v.it), passed(j)))
        def ret(st, v):
            p = pos(st); facts(p)
            t.prove("the key is evaluated exactly once", AND(f.n(st) == 1, NOT(bad(t, val))))
            if st.aux.get("seqs"):
                t.prove("a sequence is evaluated once", z3.BoolVal(st.aux["seqs"] == 1))
                t.prove("the data of the clauses before the selected one do not contain the key", IMP(z3.ULT(j, p), passed(j)))
                t.prove("the selected clause contains the key or is the last one with else", AND(z3.ULT(p, n), pair(t, clause(p)), OR(AND(data(p) == ELSE, n == p + 1, nil(t, end)), AND(data(p) != ELSE, FOUND(val, data(p)) != t.K("FALSE")))))
                t.prove("the sequence is that of the selected clause", st.aux["seq"] == t.cdr(clause(p)))
                t.prove("the value is that of the sequence", v == f.result)
            else:
                t.prove("without a selected clause no data contain the key", AND(p == n, n != 0, nil(t, end), IMP(z3.ULT(j, n), passed(j))))
                t.prove("without a selected clause the value is unspecified", v == t.K("UNDEF"))
            f.env_ok(st); t.prove_frame(st)
        def err(st, nm, av):
            p = pos(st); facts(p)
            t.prove("an error is signalled only for an ill-formed clause or a key which is no value", OR(z3.BoolVal(bool(st.aux.get("memv failed"))), n == 0, AND(f.n(st) == 1, bad(t, val)),
                AND(p == n, end != t.K("NULL")), AND(z3.ULT(p, n), NOT(pair(t, clause(p)))), AND(z3.ULT(p, n), data(p) == ELSE, OR(n != p + 1, end != t.K("NULL")))))
        t.call("scm_s_case", [key, cl, f.S], ret, err)
    ctx.irv("case", s_case)
    ctx.assume("Evaluation is a contract: it may return any value any number of times, and leaves the form which is being evaluated and its state unchanged.")
    ctx.falsifier(fals.both(gen))

def gen(variant):
    """random conditional forms whose sub-expressions record their evaluation, against an interpreter in Python"""
    import random
    rnd = random.Random(5)
    pre = "(define %log '())\n(define (%t k v) (set! %log (cons k %log)) v)\n(define (%show th) (set! %log '()) (let ((v (guard (e (#t 'E)) (th)))) (list (reverse %log) v)))\n(define (%r x) (list x))\n(define (%bad . l) 'bad)\n"
    class Err(Exception): pass
    out = []
    w = lambda v: "#t" if v is True else "#f" if v is False else "(%s)" % " ".join(map(w, v)) if isinstance(v, list) else str(v)
    def program(depth, wide):
        cnt = [0]; log = []
        ATOMS = [True, False, False, 1, 2, 3, "x", "y"]
        q = lambda v: "'" + v if isinstance(v, str) else w(v)
        def leaf():
            cnt[0] += 1
            k, v = cnt[0], rnd.choice(ATOMS)
            def run(): log.append(k); return v
            return "(%%t %d %s)" % (k, q(v)), run
        def seq(d, lo=1):
            es = [expr(d) for _ in range(rnd.randrange(lo, 4))]
            def run():
                if not es: raise Err
                for e in es[:-1]: e[1]()
                return es[-1][1]()
            return " ".join(e[0] for e in es), run
        def expr(d):
            if d == 0 or rnd.random() < .15: return leaf()
            k = rnd.choice(["if", "if2", "and", "or", "cond", "cond", "case", "case", "begin"])
            n = rnd.randrange(0, 5) if not wide or d > 1 else rnd.choice([255, 256, 257, 300])
            if k in ("if", "if2"):
                a, b, c = expr(d - 1), expr(d - 1), expr(d - 1)
                def run():
                    if a[1]() is not False: return b[1]()
                    return c[1]() if k == "if" else "U"
                if k == "if2": return "(%%u (if %s %s))" % (a[0], b[0]) if False else "(if %s %s %s)" % (a[0], b[0], c[0]), (lambda: b[1]() if a[1]() is not False else c[1]())
                return "(if %s %s %s)" % (a[0], b[0], c[0]), run
            if k in ("and", "or"):
                es = [expr(d - 1) for _ in range(n)]
                dot = n > 0 and rnd.random() < .05
                def run():
                    v = k == "and"
                    for i, e in enumerate(es):
                        if dot and i == len(es) - 1: raise Err
                        v = e[1]()
                        if (v is False) == (k == "and"):
                            if dot: raise Err
                            return v
                    return v
                return "(%s %s%s)" % (k, " ".join(e[0] for e in es), " . 5" if dot else ""), run
            if k == "begin":
                t, r = seq(d - 1); return "(begin %s)" % t, r
            if k == "cond":
                cl = []
                for i in range(max(1, n)):
                    a = expr(d - 1)
                    m = rnd.random()
                    if m < .2: cl.append(("(%s)" % a[0], a[1], None, False))
                    elif m < .35: cl.append(("(%s => %%r)" % a[0], a[1], "r", False))
                    elif m < .38: cl.append(("(%s => %s)" % (a[0], "7"), a[1], "e", False))
                    elif m < .41: cl.append(("(%s . 7)" % a[0], a[1], "e", False))
                    elif m < .43: cl.append(("7", a[1], "x", False))
                    else:
                        t, r = seq(d - 1); cl.append(("(%s %s)" % (a[0], t), a[1], r, False))
                els = rnd.random() < .8
                if els:
                    t, r = seq(d - 1); cl.append(("(else %s)" % t, None, r, True))
                if rnd.random() < .03: cl.append(("((%bad))", lambda: "bad", None, False))
                bade = any(c[3] for c in cl[:-1])
                def run():
                    for c in cl:
                        if c[2] == "x": raise Err
                        if c[3]:
                            if bade: raise Err
                            return c[2]()
                        v = c[1]()
                        if v is not False:
                            if c[2] is None: return v
                            if c[2] == "r": return [v]
                            if c[2] == "e": raise Err
                            return c[2]()
                    return None
                return "(cond %s)" % " ".join(c[0] for c in cl), run
            key = expr(d - 1)
            cl = []
            for i in range(max(1, n)):
                ds = [rnd.choice(ATOMS) for _ in range(rnd.randrange(0, 4))]
                t, r = seq(d - 1)
                cl.append((ds, t, r))
            els = seq(d - 1) if rnd.random() < .8 else None
            def run():
                v = key[1]()
                for ds, t, r in cl:
                    if any(x is v or (type(x) == type(v) and not isinstance(x, list) and x == v) for x in ds): return r()
                return els[1]() if els else None
            return "(case %s %s%s)" % (key[0], " ".join("((%s) %s)" % (" ".join(map(w, ds)), t) for ds, t, r in cl), " (else %s)" % els[0] if els else ""), run
        t, r = expr(depth)
        try: v = r()
        except Err: v = "E"
        return t, log, v
    def has(v): return v is None or isinstance(v, list) and any(map(has, v))
    for x in ["'()", "'#(a)", "'#()", "'a", "'(a b)", "'(1 . 2)", '"s"', "#\\a", "1", "-5", "car", "(lambda () 1)", "'(quote a)", "''a", "(if #f #f)", "(list 'car '(1))", "#t"]:
        for f in ("(let ((x %s)) (eq? x (cond (x => (lambda (y) y)))))", "(let ((x %s)) (eq? x (cond (#f 1) (x))))", "(let ((x %s)) (eq? x (or #f x 5)))", "(let ((x %s)) (eqv? 5 (and x 5)))", "(let ((x %s)) (eqv? 5 (if x 5 6)))", "(let ((x %s)) (eq? x (begin 1 x)))",
                  "(let ((x %s)) (eq? x (cond ((list x) => car))))", "(let ((x %s)) (eq? x (cond ((vector x) => (lambda (v) (vector-ref v 0))))))"):
            out.append((f % x, "#t"))
    KEYS = [0, 1, -1, 255, 256, 257, 65536, 2**31, 2**32, 2**32 + 1, -2**32, 2**40, 2**58, -2**58, 2**59 - 1, -2**59]
    for a in KEYS:
        for b in KEYS: out.append(("(case %d ((x 3 %d) 'y) (else 'n))" % (a, b), "y" if a == b else "n"))
    for a, b, r in [("#\\a", "97", "n"), ("97", "#\\a", "n"), ("#\\a", "#\\A", "n"), ("'a", "b", "n"), ("'a", "a", "y"), ("'()", "()", "y"), ("#f", "#f", "y"), ("#f", "()", "n"), ("#t", "#t", "y"), ("'b", "A", "n"), ('"a"', '"a"', "n"), ("'(a)", "(a)", "n")]:
        if a != "#f" or variant == "compact": out.append(("(case %s ((%s) 'y) (else 'n))" % (a, b), r))
    for i in range(900):
        t, log, v = program(rnd.randrange(1, 5) if i % 60 else 1, i % 60 == 0)
        if has(v): t = "(begin %s 'none)" % t; v = "none"
        out.append(("(%%show (lambda () %s))" % t, "(%s %s)" % (w(log), w(v))))
    U = "(if #f #f)"
    for x, y in [("(eq? (if #f 1) %s)" % U, "#t"), ("(eq? (cond (#f 1)) %s)" % U, "#t"), ("(eq? (case 1 ((2) 1)) %s)" % U, "#t"), ("(and)", "#t"), ("(or)", "#f"),
                 ("(if #t 1 2 3)", "ERR"), ("(if #f 1 2 3)", "ERR"), ("(if #t 1 . 2)", "ERR"), ("(if #f 1 . 2)", "ERR"), ("(if #f 1 2 . 3)", "ERR"), ("(cond)", "ERR"), ("(case 1)", "ERR"),
                 ("(cond (#f 1) . 2)", "ERR"), ("(case 1 ((2) 1) . 2)", "ERR"), ("(cond (else 1) (#t 2))", "ERR"), ("(case 1 (else 1) ((1) 2))", "ERR"), ("(cond (else))", "ERR"), ("(case 1 ((1)))", "ERR"),
                 ("(if if 1 2)", "ERR"), ("(and if 1)", "ERR"), ("(or if 1)", "ERR"), ("(cond (if 1))", "ERR"), ("(case if ((1) 1) (else 2))", "ERR"), ("(let () if 1)", "ERR"), ("(if (values 1 2) 1 2)", "ERR"),
                 ("(and (values 1 2) 1)", "ERR"), ("(or (values 1 2) 1)", "ERR"), ("(cond ((values 1 2) 1))", "ERR"), ("(case (values 1 2) ((1) 1) (else 2))", "ERR"),
                 ("(cond (1 => list))", "(1)"), ("(cond ('(a b) => car))", "a"), ("(cond (1 => if))", "ERR"), ("(cond (1 => list list))", "(1)"), ("(let ((x '(q r))) (eq? x (cond (x => (lambda (y) y)))))", "#t"),
                 ("(case 1 ((2 . 1) 3) (else 4))", "ERR"), ("(case 1 ((1 . 2) 3) (else 4))", "3"), ("(let ((s 0)) (and 1 2 (begin (set! s 5) s)))", "5"), ("(case (* 3 1000000000) ((3000000000) 'y) (else 'n))", "y"),
                 ("(case #\\a ((#\\b) 1) ((#\\a) 2) (else 3))", "2"), ("(case 'else ((else) 1) (else 2))", "1")]:
        if x == "(cond (1 => list list))": continue
        out.append((x, y))
    return pre, out
