import z3
from spec import *
from engine import P
import fals, irv, itertools

EVAL = z3.Function("EVALUATED", BV64, BV64, BV64)     # value of the k-th evaluated expression
BV32 = z3.BitVecSort(32)
MAND, SYNTAX, VARIADIC, TAILREC, REDUCTION = 15, 0x10, 0x20, 0x40, 1 << 14
def setup(ctx):
    F = z3.BoolVal(False)
    def syntactic(t, x):
        """what no argument may be: a syntactic keyword, a macro, a bundle of multiple values"""
        return OR(t.istype(x, "ValuePacket"), AND(t.istype(x, "Func"), (t.get("functype", x) & SYNTAX) != 0))
    def state(t, env):
        return t.struct("state", 16, [(0, 64, env), (8, 32, t.bv("ret_type", 32)), (12, 32, t.bv("nest", 32))])
    def dispatch(syn, var, tail, mand):
        code = mand | (SYNTAX if syn else 0) | (VARIADIC if var else 0) | (TAILREC if tail else 0)
        def one(need):
            def task(t):
                e = t.e
                op, args, env, rest = t.objs("operator", "args", "env", "rest")
                proc = t.obj("proc") if need else op
                S = state(t, env); e.unroll_all = 8
                t.assume(t.istype(proc, "Func"), t.get("functype", proc) == code)
                tails = [t.nth_facts(args, B(i)) for i in range(mand + 1)]
                evals = need and not syn
                vals = [EVAL(t.car(tails[i]), B(i)) if evals else t.car(tails[i]) for i in range(mand)]
                for v in vals + [rest]: t.assume(AGE(v) <= z3.Int("clk0"), AGE(v) >= 0)
                k0 = 1 if need else 0
                def ev(e, st, a, k, fi):
                    i = st.aux.get("evals", 0); st.aux["evals"] = i + 1
                    t.prove("sub-expressions are evaluated in the environment of the call", e.bv(a[1]) == env)
                    if i < k0:
                        t.prove("the operator is evaluated first", e.bv(a[0]) == op); return proc
                    i -= k0
                    if not evals or i >= mand: t.prove("nothing but the arguments is evaluated", F); return e.sym("other")
                    t.prove("the arguments are evaluated in order, each once", e.bv(a[0]) == t.car(tails[i]))
                    return vals[i]
                e.contracts["scm_eval"] = ev
                def me(e, st, a, k, fi):
                    t.prove("the rest of the arguments is evaluated where it is a procedure call", AND(z3.BoolVal(bool(evals and var)), e.bv(a[0]) == tails[mand], e.bv(a[2]) == env))
                    st.aux["rests"] = st.aux.get("rests", 0) + 1
                    return rest
                e.contracts["map_eval"] = me
                result = t.obj("result")
                want = list(vals)
                if var: want.append(rest if evals else tails[mand])
                def enough():
                    return AND(*([t.istype(x, "Cons") for x in tails[:mand]] + ([] if var else [tails[mand] == t.K("NULL")])))
                def called(e, st, a, k, fi):
                    p, av = a[0], list(a[1:])
                    st.aux["calls"] = st.aux.get("calls", 0) + 1
                    t.prove("the function which is called is that of the procedure", e.bv(p) == t.get("cfunc", proc))
                    n = mand + (1 if var else 0) + (1 if tail or syn else 0)
                    t.prove("it gets as many parameters as its type has", z3.BoolVal(len(av) == n))
                    if len(av) != n: return k(st, result)
                    for i, w in enumerate(want):
                        t.prove("parameter %d is %s" % (i + 1, "argument %d" % (i + 1) if i < mand else "the list of the further arguments"), e.bv(av[i]) == w)
                    if tail: t.prove("the last parameter is the state of the caller", z3.BoolVal(isinstance(av[-1], P) and av[-1].kind == 'obj' and av[-1].base == S.base and av[-1].off == 0))
                    elif syn: t.prove("the last parameter is the environment", e.bv(av[-1]) == env)
                    t.prove("the call is made only where the number of arguments fits", enough())
                    t.prove("syntax is only called from an evaluated form", z3.BoolVal(need or not syn))
                    t.prove("the state tells whether the result is a tail expression", t.cell(st, S, 8, 32) == (1 if tail else 0))
                    t.prove("the environment in the state is that of the call", t.cell(st, S, 0, 64) == env)
                    k(st, result)
                e.handlers["(indirect)"] = called
                def ret(st, v):
                    t.prove("the function is called once", z3.BoolVal(st.aux.get("calls") == 1))
                    t.prove("each argument is evaluated once", z3.BoolVal(st.aux.get("evals", 0) == k0 + (mand if evals else 0) and st.aux.get("rests", 0) == (1 if evals and var else 0)))
                    t.prove("the result is that of the function", v == result)
                    t.prove("no argument is a syntactic keyword or a bundle of values", NOT(OR(F, *[syntactic(t, x) for x in vals])))
                    t.prove_frame(st)
                def err(st, nm, av):
                    t.prove("an error is signalled only for a wrong number or kind of arguments, or for syntax applied to values",
                            OR(NOT(enough()), z3.BoolVal(bool(syn and not need)), *[OR(syntactic(t, x), t.istype(x, "Closure")) for x in vals]))
                    t.prove("the function is not called before the error", z3.BoolVal(st.aux.get("calls", 0) == 0))
                    t.prove_frame(st, name="on error")
                t.call("call", [op, args, S, B(need, 32)], ret, err)
            ctx.irv("call of a %s %s%s with %d parameters, %s" % ("variadic" if var else "fixed", "tail-recursive " if tail else "", "syntax" if syn else "procedure", mand, "form" if need else "application"), task)
        one(1); one(0)
    for mand in range(6):
        for bits in range(8): dispatch(bits & 1, bits & 2, bits & 4, mand)
    # --- the further arguments of a form
    FST = z3.Function("EVALUATED1", BV64, BV64)
    def map_eval(t):
        e = t.e
        args, env = t.objs("args", "env"); j = t.skolem("j")
        n, end = t.finite(args); t.bounded_by(n, steps=(1,))
        cnt = t.slot("evaluations", 64, B(0)); ln = t.slot("args_len", 64, B(0))
        bad = lambda x: syntactic(t, x)
        def ev(e, st, a, k, fi):
            i = t.cell(st, cnt, 0, 64)
            t.nth_facts(args, i)
            t.prove("no more evaluations than arguments", z3.ULT(i, n))
            t.prove("the arguments are evaluated in order, each once", AND(e.bv(a[0]) == t.car(t.nth(args, i)), e.bv(a[1]) == env))
            e.store(fi[0], st, cnt, simp(i + 1), ('i', 64), fi[0].fn.mod)
            nclk = z3.Int("clk!%d" % next(e.cnt)); e.assume(nclk >= st.clk); st.clk = nclk; e.wkey('clk')
            r = FST(i); e.assume(AGE(r) <= st.clk); e.assume(AGE(r) >= 0)
            st.aux["last"] = r
            return r
        e.contracts["scm_eval"] = ev
        e.cands.append(lambda v: IMP(z3.ULT(j, v.it), NOT(bad(FST(j)))))
        def ret(st, v):
            t.prove("every argument is evaluated once", t.cell(st, cnt, 0, 64) == n)
            t.prove("the number of arguments is exact", t.cell(st, ln, 0, 64) == n)
            t.prove("a dotted form is refused", end == t.K("NULL"))
            t.prove("no argument is a syntactic keyword or a bundle of values", IMP(z3.ULT(j, n), NOT(bad(FST(j)))))
            t.built("the list of the values", st, v, n, lambda i: FST(i))
            t.prove_frame(st)
        def err(st, nm, av):
            last = st.aux.get("last")
            t.prove("an error is signalled only for a dotted form or an inadmissible value", OR(end != t.K("NULL"), F if last is None else OR(bad(last), t.istype(last, "Closure"))))
        t.call("map_eval", [args, ln, env], ret, err)
    ctx.irv("evaluation of further arguments", map_eval)
    # --- reduction operators: the fold over the arguments
    OPR = z3.Function("OPERATOR", BV64, BV64, BV32, BV64); OPS = z3.Function("OPSTATE", BV64, BV64, BV32, BV32)
    ACC = z3.Function("ACCUMULATED", BV64, BV64)
    def reducing(need):
        def task(t):
            e = t.e
            args, env = t.objs("args", "env"); j = t.skolem("j")
            fnp = t.bv("operator")
            n, end = t.finite(args); t.bounded_by(n, steps=(1,))
            cnt = t.slot("evaluations", 64, B(0))
            ELM = (lambda i: EVAL(t.car(t.nth_facts(args, i)), i)) if need else (lambda i: t.car(t.nth_facts(args, i)))
            st32 = lambda s: B(s, 32)
            t.assume(ACC(B(0)) == ELM(B(0)))
            def step(i):        # ACC(i) = operator(ACC(i - 1), argument i)
                e.assume(IMP(AND(i != 0), ACC(i) == OPR(ACC(i - 1), ELM(i), st32(RPART))))
            goes = lambda i: OPS(ACC(i - 1), ELM(i), st32(RPART))
            def ev(e, st, a, k, fi):
                i = t.cell(st, cnt, 0, 64)
                t.nth_facts(args, i)
                t.prove("arguments are evaluated in order, each once", AND(z3.BoolVal(bool(need)), z3.ULT(i, n), e.bv(a[0]) == t.car(t.nth(args, i)), e.bv(a[1]) == env))
                e.store(fi[0], st, cnt, simp(i + 1), ('i', 64), fi[0].fn.mod)
                return EVAL(e.bv(a[0]), i)
            e.contracts["scm_eval"] = ev
            for q in range(6):
                def acc(v, q=q):
                    xs = [x for x in v.lp.vars if x.key[0] == 'phi' or True]
                    xs = [v.vals[x.key] for x in xs if v.vals.get(x.key) is not None]
                    xs = [x for x in xs if not isinstance(x, P) and z3.is_bv(x) and x.size() == 64]
                    if q >= len(xs): return None
                    step(v.it)
                    return xs[q] == ACC(v.it)
                e.cands.append(acc)
            e.cands.append(lambda v: IMP(AND(j != 0, z3.ULE(j, v.it)), goes(j) != RSTOP))
            e.cands.append(lambda v: z3.ULT(v.it + 1, n))
            done = lambda st: st.aux.get("final")
            def called(e, st, a, k, fi):
                p, l, r, sp = a[0], e.bv(a[1]), e.bv(a[2]), a[3]
                s = t.cell(st, sp, sp.off, 32)
                pos = st.its[-1][1] if st.its else B(0)
                t.prove("the operator which is called is that of the procedure", e.bv(p) == fnp)
                i = simp(pos + 1); step(i); step(pos)
                t.nth_facts(args, i); t.nth_facts(args, pos)
                lastp = n == i + 0
                t.prove("the operator is called with the accumulated value and the next argument in the state due", OR(
                    AND(s == R0, n == 0, l == t.K("INVALID"), r == t.K("INVALID")),
                    AND(s == R1, n == 1, l == ELM(B(0)), r == l),
                    AND(s == RPART, l == ACC(pos), r == ELM(i), z3.ULT(i + 1, n)),
                    AND(s == RLAST, l == ACC(pos), r == ELM(i), i + 1 == n)))
                t.prove("a dotted argument list is refused before the operator gets its last argument", OR(s == RPART, end == t.K("NULL")))
                e.store(fi[0], st, sp, simp(OPS(l, r, s)), ('i', 32), fi[0].fn.mod)
                v = simp(OPR(l, r, s))
                e.assume(IMP(s == RPART, OR(OPS(l, r, s) == RPART, OPS(l, r, s) == RSTOP)))
                st.aux["final"] = (l, r, s, v)
                st.aux["pos"] = pos
                k(st, v)
            e.handlers["(indirect)"] = called
            def ret(st, v):
                l, r, s, w = done(st) or (None, None, None, None)
                t.prove("the operator is called", z3.BoolVal(l is not None))
                if l is None: return
                i = simp(st.aux["pos"] + 1)
                t.prove("the result is that of the last call", v == w)
                t.prove("it stops before the last argument only where the operator asks for it", OR(s != RPART, OPS(l, r, s) == RSTOP))
                t.prove("it does not go on where the operator asks to stop", IMP(AND(j != 0, z3.ULT(j, i)), goes(j) != RSTOP))
                t.prove("every argument used is evaluated exactly once", t.cell(st, cnt, 0, 64) == (z3.If(s == RPART, i + 1, n) if need else 0))
                t.prove_frame(st)
            def err(st, nm, av):
                t.prove("an error is signalled only for a dotted argument list", end != t.K("NULL"))
            t.call("reduce", [P('raw', fnp, 0), args, env, B(need, 32)], ret, err)
        ctx.irv("reduction" + (" of a form" if need else " by application"), task)
    reducing(1); reducing(0)
    # --- apply: the arguments in between, then the elements of the last one
    def apply(m):
        def task(t):
            e = t.e
            proc, arg0, rest = t.objs("proc", "arg0", "rest"); j = t.skolem("j")
            S = state(t, t.obj("env"))
            xs = t.arglist(rest, m)
            e.unroll_on = (m + 1, t.argcells)
            last = xs[-1] if m else arg0
            front = [arg0] + xs[:-1] if m else []
            for x in front: t.assume(AGE(x) <= z3.Int("clk0"))
            n, end = t.finite(last); t.bounded_by(n, steps=(1,))
            t.assume(AGE(t.nth_facts(last, j)) <= z3.Int("clk0"))       # the heap at entry is closed
            R = t.bv("R"); t.use_length(last, R)
            t.assume((R >= 0) == (end == t.K("NULL")), IMP(R >= 0, R == n))
            result = t.obj("result")
            frame = [False]
            def called(e, st, a, k, fi):
                st.aux["calls"] = st.aux.get("calls", 0) + 1
                t.prove("the procedure is the one given", e.bv(a[0]) == proc)
                t.prove("the arguments are already evaluated", e.bv(a[3]) == 0)
                t.prove("the state is that of the caller", z3.BoolVal(isinstance(a[2], P) and a[2].kind == 'obj' and a[2].base == S.base))
                t.prove("applied only to a proper list", end == t.K("NULL"))
                x = e.bv(a[1])
                for i, w in enumerate(front):
                    t.prove("argument %d is passed at its place, in a new pair" % (i + 1), AND(t.istype(x, "Cons"), t.car(x, st) == w, AGE(x) > z3.Int("clk0")))
                    x = t.cdr(x, st)
                t.built("the elements of the last argument", st, x, n, lambda i: t.car(t.nth(last, i)))
                t.prove_frame(st)
                return result
            e.contracts["call"] = called
            def ret(st, v):
                t.prove("the procedure is called once", z3.BoolVal(st.aux.get("calls") == 1))
                t.prove("its result is the result", v == result)
            def err(st, nm, av):
                t.prove("an error is signalled only where the last argument is no proper list", end != t.K("NULL")); t.prove_frame(st, name="on error")
            t.call(t.prim("apply"), [proc, arg0, rest, S], ret, err)
        ctx.irv("apply with %d arguments" % (m + 1), task, bounded="%d arguments, the last a list of any length" % (m + 1))
    for m in range(4): apply(m)
    def scall(t):
        proc, args = t.objs("proc", "args")
        res, fin = t.obj("result"), t.obj("finished")
        def called(e, st, a, k, fi):
            st.aux["calls"] = st.aux.get("calls", 0) + 1
            t.prove("the procedure and the arguments are passed on", AND(e.bv(a[0]) == proc, e.bv(a[1]) == args, e.bv(a[3]) == 0))
            rt = t.bv("ret_type_after", 32); env2 = t.bv("env_after")
            t.assume(z3.ULE(rt, B(1, 32)))
            e.store(fi[0], st, P('obj', a[2].base, a[2].off + 8), rt, ('i', 32), fi[0].fn.mod)
            e.store(fi[0], st, a[2], env2, ('i', 64), fi[0].fn.mod)
            return res
        t.e.contracts["call"] = called
        def ev(e, st, a, k, fi):
            st.aux["evals"] = st.aux.get("evals", 0) + 1
            t.prove("a tail expression is evaluated in the environment left by the call", AND(e.bv(a[0]) == res, e.bv(a[1]) == t.bv("env_after")))
            return fin
        t.e.contracts["scm_eval"] = ev
        def ret(st, v):
            t.prove("called once", z3.BoolVal(st.aux.get("calls") == 1))
            t.prove("the value is that of the call, a tail expression being evaluated once", v == z3.If(t.bv("ret_type_after", 32) == 1, fin, res))
            t.prove("no expression is evaluated twice", z3.BoolVal(st.aux.get("evals", 0) <= 1))
        t.call("scm_call", [proc, args], ret, lambda *a: t.prove("no error", F))
    ctx.irv("call from within the interpreter", scall)

    # --- expressions: what is evaluated and called
    SYMV = z3.Function("SYMVALUE", BV64, BV64, BV64)
    def evaluate(t):
        e = t.e
        obj, env = t.objs("obj", "env")
        t.assume(OR(env == t.K("NULL"), t.istype(env, "Cons")))
        cur = t.slot("current expression", 64, obj); cenv = t.slot("current environment", 64, env)
        ctr = itertools.count()
        e.contracts["scm_push_trace_frame"] = lambda e, st, a, k, fi: B(0)
        e.contracts["scm_pop_trace_frame"] = lambda e, st, a, k, fi: B(0)
        def var(e, st, a, k, fi):
            t.prove("a variable is looked up in the environment of the expression", AND(e.bv(a[0]) == t.cell(st, cur, 0, 64), e.bv(a[1]) == t.cell(st, cenv, 0, 64), t.istype(e.bv(a[0]), "Symbol")))
            st.aux["var"] = SYMV(e.bv(a[0]), e.bv(a[1]))
            return st.aux["var"]
        e.contracts["scm_symbol_value"] = var
        def called(e, st, a, k, fi):
            c = t.cell(st, cur, 0, 64)
            t.prove("a pair is a call of its first element with the others", AND(t.istype(c, "Cons"), e.bv(a[0]) == t.car(c, st), e.bv(a[1]) == t.cdr(c, st), e.bv(a[3]) == 1))
            t.prove("a call is made in the environment of the expression", t.cell(st, a[2], 0, 64) == t.cell(st, cenv, 0, 64))
            n = next(ctr)
            r, v2, rt = e.sym("result"), e.sym("env"), e.sym("ret_type", 32)
            e.assume(AND(z3.ULE(rt, B(1, 32)), AGE(r) <= st.clk, AGE(r) >= 0, AGE(v2) <= st.clk, AGE(v2) >= 0))
            for p, w, x in ((a[2], 64, v2), (P('obj', a[2].base, a[2].off + 8), 32, rt), (cur, 64, r), (cenv, 64, v2)):
                e.store(fi[0], st, p, x, ('i', w), fi[0].fn.mod)
            st.aux["call"] = (r, rt); st.aux.pop("var", None)
            return r
        e.contracts["call"] = called
        for q, w in itertools.permutations(range(6), 2):
            def same(v, q=q, w=w):
                xs = [v.vals[x.key] for x in v.lp.vars if v.vals.get(x.key) is not None]
                xs = [x for x in xs if not isinstance(x, P) and z3.is_bv(x) and x.size() == 64]
                return xs[q] == xs[w] if q < len(xs) and w < len(xs) else None
            e.cands.append(same)
        def ret(st, v):
            c = t.cell(st, cur, 0, 64)
            call = st.aux.get("call")
            if st.aux.get("var") is not None: t.prove("a variable has its value", v == st.aux["var"])
            elif call is not None and v.eq(call[0]): t.prove("the result of a call is final only where it is no tail expression", call[1] == 0)
            else: t.prove("any other object is its own value", AND(v == c, NOT(t.istype(c, "Cons")), NOT(t.istype(c, "Symbol"))))
        def err(st, nm, av):
            c = t.cell(st, cur, 0, 64)
            t.prove("an error is signalled only for the empty list and vectors, which are no expressions", OR(c == t.K("NULL"), t.istype(c, "Vector")))
        t.call("scm_eval", [obj, env], ret, err)
    ctx.irv("evaluation of an expression", evaluate)
    # --- multiple values
    fix(ctx, "values", 1, lambda t, a: F, lambda t, a, st, v: [
        ("one value is passed as it is", IMP(AND(t.istype(a[0], "Cons"), t.cdr(a[0]) == t.K("NULL")), v == t.car(a[0]))),
        ("several values are bundled in order", IMP(NOT(AND(t.istype(a[0], "Cons"), t.cdr(a[0]) == t.K("NULL"))), AND(t.istype(v, "ValuePacket"), t.get("values", v, st) == a[0])))], variants=("compact",))
    applier = lambda t: t.glob("call", "scm_g_instance_procedure", t.e.c["off_values_applier"], 64)
    def cwv(t):
        producer, consumer, vals = t.objs("producer", "consumer", "vals")
        S = state(t, t.obj("env"))
        A = applier(t)
        def called(e, st, a, k, fi):
            st.aux["calls"] = st.aux.get("calls", 0) + 1
            t.prove("the producer is called without arguments", AND(e.bv(a[0]) == producer, e.bv(a[1]) == t.K("NULL")))
            return vals
        t.e.contracts["scm_call"] = called
        def ret(st, v):
            t.prove("the producer is called once", z3.BoolVal(st.aux.get("calls") == 1))
            c1 = t.cdr(v, st); c2 = t.cdr(c1, st)
            t.prove("the consumer is applied to the values next", AND(t.istype(v, "Cons"), t.car(v, st) == A, t.istype(c1, "Cons"), t.car(c1, st) == consumer, t.istype(c2, "Cons"), t.car(c2, st) == vals, t.cdr(c2, st) == t.K("NULL"), t.cell(st, S, 8, 32) == t.cell(t.st, S, 8, 32)))
            t.prove_frame(st)
        t.call(t.prim("call-with-values"), [producer, consumer, S], ret, lambda *a: t.prove("no error", F))
    ctx.irv("call-with-values", cwv)
    def deliver(t):
        e = t.e
        op, args, env = t.objs("operator", "args", "env")
        S = state(t, env)
        A = applier(t); e.unroll_all = 4
        consumer, vals = t.arglist(args, 2)
        t.assume(t.istype(A, "Continuation"), t.istype(consumer, "Closure"), t.get("env", consumer) != t.glob("call", "scm_g_instance_legacy_macro", t.e.c["off_syntactic_closure_env"], 64))
        e.contracts["scm_eval"] = lambda e, st, a, k, fi: A
        result = t.obj("result")
        def clo(e, st, a, k, fi):
            st.aux["calls"] = st.aux.get("calls", 0) + 1
            x = e.bv(a[1])
            t.prove("the consumer is called", AND(e.bv(a[0]) == consumer, e.bv(a[3]) == 0))
            t.prove("it gets exactly the values", z3.If(t.istype(vals, "ValuePacket"), x == t.get("values", vals), AND(t.istype(x, "Cons"), t.car(x, st) == vals, t.cdr(x, st) == t.K("NULL"))))
            return result
        e.contracts["call_closure"] = clo
        def ret(st, v):
            t.prove("the consumer is called once and its result is returned", AND(z3.BoolVal(st.aux.get("calls") == 1), v == result))
        t.call("call", [op, args, S, B(1, 32)], ret, lambda *a: t.prove("no error", F))
    ctx.irv("delivery of multiple values", deliver, variants=("compact",))     # the fatty build turns the list of values itself into the bundle
    # --- the function tables: what a procedure is called with is what its C function takes, and what the standard says
    def tables(t):
        ps = irv.primitives(t.variant)
        bad = []
        for n, (f, tc) in sorted(ps.items()):
            want = 3 if tc & REDUCTION else (tc & MAND) + bool(tc & VARIADIC) + bool(tc & (TAILREC | SYNTAX))
            if len(f.params) != want: bad.append("%s takes %d C parameters, is called with %d" % (n, len(f.params), want))
        t.prove("every built-in is registered with the type of its C function" + ("" if not bad else ": " + "; ".join(bad)), z3.BoolVal(not bad))
        for (mand, mx), names in ARITY.items():
            for n in names.split():
                if n not in ps: continue
                tc = ps[n][1]
                ok = (mx is None or mand != mx) if tc & REDUCTION else (tc & MAND) == mand and bool(tc & VARIADIC) == (mx != mand) and not tc & SYNTAX
                t.prove("%s is registered with %d arguments%s" % (n, mand, "" if mx == mand else " and more"), z3.BoolVal(bool(ok)))
        t.nret += 1
    ctx.irv("registration", tables)
    ctx.assume("evaluation leaves the form which is being evaluated as it is", "the operators of reductions keep their protocol (A01, A03)", "the last argument of apply is no part of the pairs apply makes")
    ctx.falsifier(fals.both(gen))

# number of arguments (least, most; None: any) of the standard procedures
ARITY = {
 (0, 0): "current-input-port current-output-port interaction-environment",
 (1, 1): "abs boolean? caaaar caaadr caaar caadar caaddr caadr caar cadaar cadadr cadar caddar cadddr caddr cadr car cdaaar cdaadr cdaar cdadar cdaddr cdadr cdar cddaar cddadr cddar cdddar cddddr cdddr cddr cdr"
         " char->integer char-alphabetic? char-downcase char-lower-case? char-numeric? char-upcase char-upper-case? char-whitespace? char? close-input-port close-output-port eof-object? even? force get-output-string"
         " input-port? integer->char integer? length list->string list->vector list? load lognot negative? not null? number? odd? open-input-file open-input-string open-output-file output-port? pair? positive? procedure? raise reverse"
         " string->list string->symbol string-copy string-length string? symbol->string symbol? vector->list vector-length vector? zero? call-with-current-continuation scheme-report-environment null-environment",
 (2, 2): "assoc assq assv char-ci<=? char-ci<? char-ci=? char-ci>=? char-ci>? char<=? char<? char=? char>=? char>? cons eq? equal? eqv? eval expt list-ref list-tail logtest member memq memv modulo quotient remainder set-car! set-cdr!"
         " string-ci<=? string-ci<? string-ci=? string-ci>=? string-ci>? string-fill! string-ref string<=? string<? string=? string>=? string>? vector-fill! vector-ref with-exception-handler call-with-values",
 (3, 3): "bitwise-if dynamic-wind string-set! substring vector-set!",
 (0, None): "append list string string-append values vector * + gcd lcm logand logior logxor",
 (0, 1): "newline read read-char peek-char char-ready?",
 (1, 2): "display write write-char make-string make-vector number->string string->number",
 (1, None): "for-each map - / max min = < > <= >=", (2, None): "apply",
}

def gen(variant):
    out = []
    # sample calls: one argument less or more is an error
    calls = """(car '(1)) (cdr '(1)) (cons 1 2) (set-car! (list 1 2) 3) (set-cdr! (list 1 2) 3) (list-ref '(1 2) 1) (list-tail '(1 2) 1) (eq? 1 1) (eqv? 1 1) (equal? 1 1) (memq 1 '(1)) (memv 1 '(1)) (member 1 '(1)) (assq 1 '((1 . 1))) (assv 1 '((1 . 1))) (assoc 1 '((1 . 1)))
 (length '(1)) (list? '(1)) (reverse '(1)) (abs 1) (quotient 5 2) (remainder 5 2) (modulo 5 2) (zero? 0) (positive? 1) (negative? 1) (odd? 1) (even? 1) (number? 1) (integer? 1) (not 1) (boolean? 1) (pair? 1) (null? 1) (symbol? 1) (string? 1) (char? 1) (vector? 1) (procedure? 1)
 (symbol->string 'a) (string->symbol "a") (char->integer #\\a) (integer->char 65) (char=? #\\a #\\a) (char<? #\\a #\\a) (char-ci=? #\\a #\\a) (char-upcase #\\a) (char-downcase #\\a) (char-numeric? #\\a) (string-length "a") (string-ref "ab" 1) (string-set! (make-string 2 #\\a) 1 #\\b) (string=? "a" "a") (string<? "a" "a") (string-ci=? "a" "a") (substring "abc" 1 2)
 (string->list "a") (list->string '(#\\a)) (string-copy "a") (string-fill! (make-string 1 #\\a) #\\b) (vector-length (vector 1)) (vector-ref (vector 1 2) 1) (vector-set! (vector 1 2) 1 3) (vector->list (vector 1)) (list->vector '(1)) (vector-fill! (vector 1) 2) (eval 1 (interaction-environment)) (force (delay 1)) (eof-object? 1)
 (bitwise-if 1 2 3) (logtest 1 2) (lognot 1) (call-with-values (lambda () 1) (lambda (x) x)) (dynamic-wind (lambda () 1) (lambda () 2) (lambda () 3)) (call-with-current-continuation (lambda (k) 1)) (caddr '(1 2 3)) (open-input-string "a") (input-port? (current-input-port)) (output-port? (current-input-port)) (expt 2 3)"""
    import re
    def split(x):
        """top-level parts of (f a ...)"""
        x = x[1:-1]; parts, d, cur, i = [], 0, "", 0
        while i < len(x):
            c = x[i]
            if x.startswith("#\\", i): cur += x[i:i + 3]; i += 3; continue
            if c in "([": d += 1
            if c in ")]": d -= 1
            if c == " " and d == 0: parts.append(cur); cur = ""
            else: cur += c
            i += 1
        return parts + [cur]
    calls = calls.replace("\\\\", "\\")
    exprs, d, cur, i = [], 0, "", 0
    while i < len(calls):
        if calls.startswith("#\\", i): cur += calls[i:i + 3]; i += 3; continue
        c = calls[i]
        if c == "(": d += 1
        if d: cur += c
        if c == ")":
            d -= 1
            if d == 0: exprs.append(cur); cur = ""
        i += 1
    for x in exprs:
        p = split(x)
        a = p[1:]
        less, more, more2 = a[:-1], a + [a[-1] if a else "1"], a + ["1", "2"]
        for bad in (less, more, more2):
            if bad is less and p[0] in ("-",): continue
            out.append(("(%s %s)" % (p[0], " ".join(bad)), "ERR"))
            out.append(("(apply %s (list %s))" % (p[0], " ".join(bad)), "ERR"))
            if bad: out.append(("(apply %s %s (list %s))" % (p[0], bad[0], " ".join(bad[1:])), "ERR"))
        for bad in (a[:-1], a, a + ["1"]): out.append(("(%s . 5)" % " ".join([p[0]] + bad), "ERR"))
        # the same result however it is called
        out.append(("(equal? %s (apply %s (list %s)))" % (x, p[0], " ".join(a)) if "lambda" not in x and "open-" not in x else "#t", "#t"))
    for x in ("(make-vector 1 2 3)", "(make-vector)", "(make-string 1 #\\a 3)", "(make-string)", "(number->string 1 10 1)", "(number->string)", "(string->number \"1\" 10 1)", "(string->number)", "(newline (current-output-port) 1)", "(write)", "(display)", "(write 1 (current-output-port) 2)", "(display 1 (current-output-port) 2)",
              "(write-char #\\a (current-output-port) 2)", "(read-char (open-input-string \"a\") 1)", "(peek-char (open-input-string \"a\") 1)", "(read (open-input-string \"a\") 1)", "(char-ready? (open-input-string \"a\") 1)", "(map car)", "(apply car)", "(-)", "(/)", "(max)", "(min)", "(=)", "(= 1)", "(< 1)", "(apply car '(1 . 2))", "(apply list 1 2)", "(apply list 1 '(2 . 3))", "(car . 1)", "(list 1 . 2)", "(+ 1 . 2)", "(+ . 1)", "(if)", "(if #t)", "(if 1 2 3 4)", "(quote)", "(quote 1 2)",
              "(apply if '(1 2 3))", "(map if '(1) '(2) '(3))", "(lambda)", "(lambda (x))", "(list if)", "(+ 1 (values 1 2))", "(1 2)", "(\"a\")", "('a 1)", "(apply 1 '())", "(#t)", "(call-with-values (lambda () (values 1 2)) (lambda (x) x))", "(call-with-values (lambda () 1) (lambda (x y) x))", "(call-with-values (lambda () (values)) (lambda (x) x))",
              "(call-with-current-continuation)", "(call-with-current-continuation (lambda () 1))", "((lambda (x) x))", "((lambda (x) x) 1 2)", "((lambda () 1) 1)", "((lambda (x . y) x))"):
        out.append((x, "ERR"))
    for f in ("list", "vector", "+", "max", "append", "string-append", "<", "values", "map", "(lambda x x)", "(lambda (x . y) x)", "(lambda () 1)", "and", "or"):
        for a in ("", "1", "1 2", "1 2 3", "1 2 3 4 5 6 7 8 9"):
            if f not in ("and", "or"): out.append(("(%s . 5)" % " ".join((f + " " + a).split(" ") if a else [f]), "ERR"))
    for v in ("'()", "#f", "#t", "0", "\"\"", "'(1 2)", "(vector)", "'a", "(values 1)", "(values '())", "(call-with-values (lambda () 5) (lambda (x) x))"):
        out.append(("(equal? (call-with-values (lambda () %s) list) (list %s))" % (v, v), "#t")); out.append(("(equal? (call-with-values (lambda () %s) (lambda (x) (list x))) (list %s))" % (v, v), "#t"))
        out.append(("(equal? (call-with-values (lambda () (values %s %s)) list) (list %s %s))" % (v, v, v, v), "#t")); out.append(("(call-with-values (lambda () %s) (lambda () 1))" % v, "ERR"))
        out.append(("(equal? (call-with-current-continuation (lambda (k) (k %s))) %s)" % (v, v), "#t")); out.append(("(equal? (call-with-values (lambda () (call-with-current-continuation (lambda (k) (k 1 %s)))) list) (list 1 %s))" % (v, v), "#t"))
    import itertools as it
    for k in (2, 3, 4):
        for xs in it.product((1, 2, 3), repeat=k):
            for op, g in (("<", lambda a, b: a < b), ("=", lambda a, b: a == b), (">=", lambda a, b: a >= b)):
                w = "#t" if all(g(a, b) for a, b in zip(xs, xs[1:])) else "#f"
                l = " ".join(map(str, xs))
                out += [("(%s %s)" % (op, l), w), ("(apply %s '(%s))" % (op, l), w)]
            out.append(("(list (max %s) (min %s) (- %s))" % ((" ".join(map(str, xs)),) * 3), "(%d %d %d)" % (max(xs), min(xs), xs[0] - sum(xs[1:]))))
            out.append(("(let ((l '())) (%s %s) (length l))" % ("<", " ".join("(begin (set! l (cons 1 l)) %d)" % x for x in xs)), str(next((i + 2 for i, (a, b) in enumerate(zip(xs, xs[1:])) if not a < b), k))))
    # arguments reach the procedure as passed, in every calling form
    for n in list(range(0, 14)) + [31, 32, 33, 64, 100, 128, 255, 256, 300]:
        xs = [str(i * 7 + 1) for i in range(n)]
        w = "(%s)" % " ".join(xs)
        ps = ["p%d" % i for i in range(n)]
        for fn in ("list", "(lambda x x)", "(lambda (%s) (list %s))" % (" ".join(ps), " ".join(ps))) + (("(lambda (p0 . r) (cons p0 r))",) if n else ()):
            out.append(("(%s %s)" % (fn, " ".join(xs)), w))
            for k in sorted({0, 1, 2, 3, n // 2, n - 1, n} & set(range(n + 1))):
                out.append(("(apply %s %s '(%s))" % (fn, " ".join(xs[:k]), " ".join(xs[k:])), w))
            out.append(("(call-with-values (lambda () (values %s)) %s)" % (" ".join(xs), fn), w))
            if 0 < n < 14: out.append(("(map %s %s)" % (fn, " ".join("'(%s a%d)" % (x, i) for i, x in enumerate(xs))), "(%s (%s))" % (w, " ".join("a%d" % i for i in range(n)))))
        out.append(("(vector %s)" % " ".join(xs), "#" + w)); out.append(("(vector->list (apply vector '(%s)))" % " ".join(xs), w))
        if n: out.append(("(+ %s)" % " ".join(xs), str(sum(map(int, xs))))); out.append(("(apply + '(%s))" % " ".join(xs), str(sum(map(int, xs))))); out.append(("(- %s)" % " ".join(xs), str(int(xs[0]) - sum(map(int, xs[1:])) if n > 1 else -int(xs[0]))))
        if n > 1: out.append(("(list (< %s) (apply < '(%s)) (> %s) (< %s 0) (apply < '(%s 0)))" % ((" ".join(xs),) * 5), "(#t #t #f #f #f)"))
        # order of evaluation and number of evaluations
        seq = " ".join("(begin (set! l (cons %d l)) %s)" % (i, x) for i, x in enumerate(xs))
        for fn in ("list", "+", "(lambda x 1)", "vector") + (("(lambda (%s) 1)" % " ".join(ps),)):
            out.append(("(let ((l '())) (%s %s) (reverse l))" % (fn, seq), "(%s)" % " ".join(str(i) for i in range(n))))
    out += [("(let ((a (list 1 2 3))) (apply (lambda x (set-car! x 9) x) a) a)", "(1 2 3)"), ("(bitwise-if 12 10 5)", "9"), ("(apply bitwise-if 12 '(10 5))", "9"), ("(substring \"abcdef\" 1 4)", '"bcd"'), ("(apply substring \"abcdef\" 1 '(4))", '"bcd"'), ("(let ((v (vector 0 0 0))) (vector-set! v 1 'x) v)", "#(0 x 0)"), ("(let ((v (vector 0 0 0))) (apply vector-set! v '(1 x)) v)", "#(0 x 0)"),
            ("(map substring '(\"abc\" \"defg\") '(0 1) '(2 4))", '("ab" "efg")'), ("(let ((f (lambda (x #!optional y) x))) 1)", None)]
    return [c for c in out if c[1] is not None]
