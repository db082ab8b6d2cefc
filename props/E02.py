import z3
from spec import *
from engine import P
import fals

FREF = z3.Function("FREF", BV64, BV64, BV64)     # what lookup in one frame yields (0: no binding)
def setup(ctx):
    F = z3.BoolVal(False)
    # --- one frame: formals (proper or dotted), actuals at least as long
    def frame_lookup(t):
        e = t.e
        var, frame = t.objs("var", "frame")
        t.assume(t.istype(var, "Symbol"), t.istype(frame, "Cons"))
        formals, actuals = t.car(frame), t.cdr(frame)
        n, end = t.finite(formals)
        t.bounded_by(n, steps=(1,))
        # the arguments (the tails of the frame from the first on) are as many at least
        t.upto(frame, n + 1, lambda k, x: t.istype(x, "Cons"))
        t.nth_facts(frame, B(0)); t.nth_facts(frame, B(1)); t.nth_facts(frame, n)
        j = t.skolem("j")
        t.nth_facts(formals, j)
        # earlier parameters have other names
        e.cands.append(lambda v: IMP(z3.ULT(j, v.it), t.car(t.nth(formals, j)) != var))
        i = z3.BitVec("I", 64)
        def ret(st, v):
            its = [x for x in st.its]
            pos = its[-1][1] if its else B(0)
            before = AND(*[IMP(z3.ULT(j, k), t.car(t.nth(formals, j)) != var) for k in [pos]])
            fp, ap = t.nth_facts(formals, pos), t.nth_facts(frame, pos + 1); t.nth_facts(frame, pos)
            if v.kind == "null":
                t.prove("not found: the name is none of the parameters", IMP(z3.ULT(j, n), t.car(t.nth(formals, j)) != var))
                t.prove("not found: the name is not the rest parameter", end != var)
            elif v.kind == "car":
                t.prove("found: the parameter at that position has the name", AND(z3.ULT(pos, n), t.car(fp) == var))
                t.prove("found: the reference is to the argument at the position of the parameter", v.base == ap)
                t.prove("found: no earlier parameter has the name", before)
            elif v.kind == "cdr":
                t.prove("found: the rest parameter has the name", AND(pos == n, end == var))
                t.prove("found: the reference is to the rest of the arguments", t.cdr(v.base) == ap)
                t.prove("found: no earlier parameter has the name", before)
                t.prove("found: the reference is to the place which holds the rest", v.base == t.nth_facts(frame, n))
            else: t.prove("the result is a reference to a pair", F)
            t.prove_frame(st)
        t.call("scm_lookup_frame", [var, frame], ret, lambda *a: t.prove("no error", F), raw=True)
    ctx.irv("lookup in a frame", frame_lookup)
    # --- all frames
    def by_frames(t):
        def h(e, st, a, k, fi):
            r = FREF(e.bv(a[0]), e.bv(a[1]))
            return P('raw', r, 0)
        t.e.contracts["scm_lookup_frame"] = h
    def env_lookup(t):
        e = t.e
        var, env = t.objs("var", "env")
        t.assume(t.istype(var, "Symbol"))
        n, end = t.finite(env); t.assume(end == t.K("NULL")); t.bounded_by(n, steps=(1,))
        j = t.skolem("j"); t.nth_facts(env, j)
        by_frames(t)
        hit = lambda k: FREF(var, t.car(t.nth(env, k)))
        e.cands.append(lambda v: IMP(z3.ULT(j, v.it), hit(j) == 0))
        def ret(st, v):
            v = e.bv(v)
            pos = st.its[-1][1] if st.its else B(0)
            t.nth_facts(env, pos)
            t.prove("the innermost frame which binds the name decides", IMP(v != 0, AND(z3.ULT(pos, n), v == hit(pos), IMP(z3.ULT(j, pos), hit(j) == 0))))
            t.prove("not found only where no frame binds the name", IMP(v == 0, IMP(z3.ULT(j, n), hit(j) == 0)))
            t.prove_frame(st)
        t.call("scm_lookup_environment", [var, env], ret, lambda *a: t.prove("no error", F), raw=True)
    ctx.irv("lookup in an environment", env_lookup)
    # --- reference and assignment
    def places(t, st=None):
        """contract of the lookup: no binding, or one of the two places of some pair"""
        q = t.obj("binding")
        kind = t.bv("kind", 32)
        t.assume(t.istype(q, "Cons"), z3.ULE(kind, B(2, 32)))
        def h(e, st, a, k, fi):
            t.prove("the lookup is for that name in that environment", AND(e.bv(a[0]) == t.var, e.bv(a[1]) == t.env))
            t.looked = True
            def kk(v): return lambda s: k(s, v)
            e.branch(st, kind == 0, kk(P('null')), lambda s: e.branch(s, kind == 1, kk(P('car', q)), kk(P('cdr', q))))
            return None
        t.e.contracts["scm_lookup_environment"] = h
        return q, kind
    def ref(t):
        t.var, t.env = t.objs("var", "env")
        t.assume(t.istype(t.var, "Symbol"))
        q, kind = places(t)
        val = z3.If(kind == 0, t.get("vcell", t.var), z3.If(kind == 1, t.car(q), t.cdr(q)))
        def ret(st, v):
            t.prove("the value is that of the binding, or of the global variable where there is none", v == val)
            t.prove("an unassigned variable is an error", v != t.K("UNBOUND"))
            t.prove_frame(st)
        def err(st, nm, av):
            t.prove("an error is signalled only for an unassigned variable", val == t.K("UNBOUND"))
            t.prove_frame(st, name="on error")
        t.call("scm_symbol_value", [t.var, t.env], ret, err)
    ctx.irv("variable reference", ref)
    def havoc(t, res):
        """contract of scm_eval: any effect on the heap, any result"""
        def h(e, st, a, k, fi):
            st.aux['evals'] = st.aux.get('evals', 0) + 1
            t.prove("the expression is evaluated in the environment", AND(e.bv(a[0]) == t.exp, e.bv(a[1]) == t.env))
            for f in list(st.fld) + ["car", "cdr", "vcell", "mutable"]:
                st.fld[f] = z3.Array("%s!%d" % (f, next(e.cnt)), BV64, e.fld0(f).sort().range());
            nclk = z3.Int("clk!%d" % next(e.cnt)); e.assume(nclk >= st.clk); st.clk = nclk
            st.aux['after'] = dict(st.fld)
            return res
        t.e.contracts["scm_eval"] = h
    def assign(t):
        e = t.e
        t.var, t.exp, t.env = t.objs("var", "exp", "env")
        q, kind = places(t)
        res = t.obj("value")
        havoc(t, res)
        isvar = t.istype(t.var, "Symbol")
        def ret(st, v):
            t.prove("only variables can be assigned", isvar)
            t.prove("evaluated exactly once", z3.BoolVal(st.aux.get('evals') == 1))
            t.prove("the value is returned", v == res)
            t.prove("only an ordinary value is assigned", NOT(syntactic(t, res, False)))
            x = e.sym("frame")
            g = lambda f, s: e.asel(s[f] if f in s else e.fld0(f), x)
            for f, mine in (("car", AND(kind == 1, x == q)), ("cdr", AND(kind == 2, x == q)), ("vcell", AND(kind == 0, x == t.var))):
                t.prove("exactly the binding found is changed (%s)" % f, g(f, st.fld) == z3.If(mine, res, g(f, st.aux['after'])))
            t.prove("an unbound global variable is not assigned", IMP(kind == 0, e.asel(st.aux['after']["vcell"], t.var) != t.K("UNBOUND")))
        def err(st, nm, av):
            unb = AND(kind == 0, e.asel(st.aux['after']["vcell"], t.var) == t.K("UNBOUND")) if st.aux.get('evals') else F
            t.prove("an error is signalled only for no variable, no value or an unbound global variable",
                    OR(NOT(isvar), unb, syntactic(t, res), t.istype(res, "Closure")))
        t.call("scm_s_setx", [t.var, t.exp, t.env], ret, err)
    def syntactic(t, res, macro=True):
        """syntactic keywords and multiple values"""
        return OR(t.istype(res, "ValuePacket"), AND(z3.BoolVal(macro), t.istype(res, "Macro")), AND(t.istype(res, "Func"), (t.get("functype", res) & 0x10) != 0))
    ctx.irv("assignment", assign)
    # --- new bindings
    MIN = B(1 << 63)
    def extend(t):
        formals, actuals, env = t.objs("formals", "actuals", "env")
        def ret(st, v):
            f = t.car(v, st)
            t.prove("a new frame of the given names and values is put before the environment",
                    AND(t.istype(v, "Cons"), AGE(v) > z3.Int("clk0"), t.cdr(v, st) == env, t.istype(f, "Cons"), AGE(f) > z3.Int("clk0"), t.car(f, st) == formals, t.cdr(f, st) == actuals))
            t.prove_frame(st)
        t.call("scm_extend_environment", [formals, actuals, env], ret, lambda *a: t.prove("no error", F))
    ctx.irv("environment extension", extend)
    def replace(fn, which):
        def task(t):
            formals, actuals, env = t.objs("formals", "actuals", "env")
            frame = t.car(env)
            t.assume(t.istype(env, "Cons"), t.istype(frame, "Cons"))
            def ret(st, v):
                t.prove("the environment is returned", v == env)
                t.prove("the names", t.car(frame, st) == (formals if "f" in which else t.car(frame)))
                t.prove("the values", t.cdr(frame, st) == actuals)
                t.prove_frame(st, except_=lambda o, f: o == frame if f in ("car", "cdr") else F)
            t.call(fn, ([formals] if "f" in which else []) + [actuals, env], ret, lambda *a: t.prove("no error", F))
        ctx.irv("frame change by " + fn[4:].replace("_", " "), task)
    replace("scm_replace_environment", "fa"); replace("scm_update_environment", "a")
    def add(t):
        var, val, env = t.objs("var", "val", "env")
        frame = t.car(env)
        t.nth_facts(frame, B(0)); t.nth_facts(env, B(0))
        t.assume(t.istype(var, "Symbol"), OR(env == t.K("NULL"), AND(t.istype(env, "Cons"), t.istype(frame, "Cons"), frame != env)))
        def ret(st, v):
            new = env == t.K("NULL")
            fr = t.car(v, st)
            fs, vs = t.car(fr, st), t.cdr(fr, st)
            t.prove("the innermost frame is the same one, or a new one in an empty environment", IMP(NOT(new), AND(v == env, fr == frame)))
            t.prove("one more name and value are put in front", AND(t.istype(fs, "Cons"), t.istype(vs, "Cons"), t.car(fs, st) == var, t.car(vs, st) == val))
            t.prove("the other names follow", t.cdr(fs, st) == z3.If(new, t.K("NULL"), t.car(frame)))
            t.prove("the other values follow", t.cdr(vs, st) == z3.If(new, t.K("NULL"), t.cdr(frame)))
            t.prove("no other frame in an environment which was empty", IMP(new, t.cdr(v, st) == t.K("NULL")))
            t.prove_frame(st, except_=lambda o, f: AND(NOT(new), o == frame) if f in ("car", "cdr") else F)
        t.call("scm_add_environment", [var, val, env], ret, lambda *a: t.prove("no error", F))
    ctx.irv("adding a binding", add)
    fits = lambda fl, al: z3.If(fl >= 0, fl == al, AND(fl != MIN, OR(al == MIN, z3.If(al >= 0, ~fl <= al, ~fl <= ~al))))
    def arity(t):
        fl, al = t.bv("formals_len"), t.bv("actuals_len")
        def ret(st, v):
            t.prove("names and values fit: as many, or at least as many where there is a rest parameter", truth(v) == fits(fl, al))
        t.call("scm_valid_environment_extension_lengthp", [fl, al], ret, lambda *a: t.prove("no error", F), raw=True)
    ctx.irv("number of arguments", arity)
    def truth(v): return v if z3.is_bool(v) else v != 0
    def code(t, end, n): return z3.If(end == t.K("NULL"), n, ~n)
    def formals(t):
        f = t.obj("formals")
        n, end = t.finite(f); t.bounded_by(n, steps=(1,))
        j = t.skolem("j"); t.nth_facts(f, j)
        name = lambda x: t.istype(x, "Symbol")
        t.e.cands.append(lambda v: IMP(z3.ULT(j, v.it), name(t.car(t.nth(f, j)))))
        def ret(st, v):
            pos = st.its[-1][1] if st.its else B(0)
            t.nth_facts(f, pos)
            good = OR(end == t.K("NULL"), name(end))
            t.prove("accepted: the number of names is encoded", IMP(v != MIN, AND(v == code(t, end, n), good)))
            t.prove("accepted: all parameters are names", IMP(v != MIN, IMP(z3.ULT(j, n), name(t.car(t.nth(f, j))))))
            t.prove("rejected: some parameter is no name", IMP(v == MIN, OR(NOT(good), AND(z3.ULT(pos, n), NOT(name(t.car(t.nth(f, pos))))))))
            t.prove_frame(st)
        t.call("scm_validate_formals", [f], ret, lambda *a: t.prove("no error", F))
    ctx.irv("parameter list", formals)
    def actuals(t):
        a, r = t.obj("actuals"), t.bv("R")
        t.use_length(a, r)
        def ret(st, v): t.prove("a proper list gives its length, others are rejected", v == z3.If(r >= 0, r, MIN))
        t.call("scm_validate_actuals", [a], ret, lambda *x: t.prove("no error", F))
    ctx.irv("argument list", actuals)
    # --- a call of a closure binds the parameters to the arguments
    def closure(need):
        def task(t):
            e = t.e
            proc, args, cenv, evargs = t.objs("proc", "args", "env", "evaluated")
            al, fl = t.bv("actuals_len"), t.bv("formals_len")
            exp = t.get("exp", proc); formals, body = t.car(exp), t.cdr(exp)
            t.assume(t.istype(proc, "Closure"), t.istype(exp, "Cons"), OR(t.istype(formals, "Symbol"), t.istype(formals, "Cons"), formals == t.K("NULL")), fl != MIN,
                     IMP(formals == t.K("NULL"), fl == 0), IMP(t.istype(formals, "Symbol"), fl == -1), al >= 0 if need else OR(al >= 0, al == MIN))
            state = t.struct("state", 16, [(0, 64, cenv), (8, 32, t.bv("ret_type", 32)), (12, 32, t.bv("nest", 32))])
            def ev(e, st, a, k, fi):
                t.prove("the arguments are evaluated in the environment of the call", AND(e.bv(a[0]) == args, e.bv(a[2]) == cenv))
                e.store(fi[0], st, a[1], al, ('i', 64), fi[0].fn.mod)
                return evargs
            e.contracts["map_eval"] = ev
            def va(e, st, a, k, fi):
                t.prove("the length of the arguments is asked for", e.bv(a[0]) == args); return al
            e.contracts["scm_validate_actuals"] = va
            def fle(e, st, a, k, fi):
                t.prove("the length of the parameters is asked for", e.bv(a[0]) == formals); return fl
            e.contracts["scm_finite_length"] = fle
            actual = evargs if need else args
            ok = AND(al != MIN, z3.If(fl >= 0, al == fl, ~fl <= al))
            done = t.obj("result")
            def bodyc(e, st, a, k, fi):
                env = t.cell(st, state, 0, 64)
                f = t.car(env, st)
                sym = t.istype(formals, "Symbol")
                t.prove("the body is that of the procedure", AND(e.bv(a[0]) == body, e.bv(a[1]) == e.bv(state)))
                t.prove("the body is evaluated under one new frame on the environment of the procedure", AND(t.istype(env, "Cons"), AGE(env) > z3.Int("clk0"), t.cdr(env, st) == t.get("env", proc), t.istype(f, "Cons")))
                t.prove("the frame binds the parameters to the arguments", z3.If(sym,
                    AND(t.car(t.car(f, st), st) == formals, t.cdr(t.car(f, st), st) == t.K("NULL"), t.car(t.cdr(f, st), st) == actual, t.cdr(t.cdr(f, st), st) == t.K("NULL"), t.istype(t.car(f, st), "Cons"), t.istype(t.cdr(f, st), "Cons")),
                    AND(t.car(f, st) == formals, IMP(formals != t.K("NULL"), t.cdr(f, st) == actual))))
                t.prove("the number of arguments fits", ok)
                st.aux["bodies"] = st.aux.get("bodies", 0) + 1
                return done
            e.contracts["scm_s_body"] = bodyc
            def ret(st, v):
                t.prove("the body is evaluated once", z3.BoolVal(st.aux.get("bodies") == 1))
                t.prove("its value is the value of the call", v == done)
                t.prove_frame(st)
            t.call("call_closure", [proc, args, state, B(need, 32)], ret, lambda st, nm, av: t.prove("an error is signalled only where the number of arguments does not fit", NOT(ok)))
        ctx.irv("closure call" + (", arguments to be evaluated" if need else ""), task)
    closure(0); closure(1)
    ctx.assume("frames are well-formed (as many values as names; parameter and argument validation is proved)", "evaluation may have any effect on the heap except on the frame shapes",
               "plain symbols as names (the legacy-macro builds have no other identifiers)")
    ctx.falsifier(fals.both(gen))

def gen(variant):
    """programs with nested and shadowed bindings, against an interpreter in Python"""
    import random
    rnd = random.Random(11)
    out = []
    def program(depth):
        names = ["a", "b", "c", "d", "e"]
        cnt = [0]
        def val(): cnt[0] += 1; return cnt[0]
        def build(env, d):
            """returns text, value of an expression in env (list of dicts, innermost first)"""
            def look(n):
                for f in env:
                    if n in f: return f
            probes = []
            txt = []
            for _ in range(2):
                n = rnd.choice(names); f = look(n)
                if f is not None and not isinstance(f[n], list) and rnd.random() < .5:
                    x = val(); txt.append("(set! %s %d)" % (n, x)); f[n] = x
            vis = [n for n in names if look(n) is not None]
            def show(): return [look(n)[n] for n in vis]
            before = show()
            txt = " ".join(txt)
            if d == 0: return "(begin %s (list %s))" % (txt, " ".join(vis)), before
            k = rnd.randrange(0, 5); ps = rnd.sample(names, k)
            rest = rnd.choice([n for n in names if n not in ps] or [None]) if rnd.random() < .5 else None
            vs = [val() for _ in range(k)]; rs = [val() for _ in range(rnd.randrange(0, 4))] if rest else []
            fr = dict(zip(ps, vs))
            if rest: fr[rest] = list(rs)
            form = ("(%s . %s)" % (" ".join(ps), rest) if ps else rest) if rest else "(%s)" % " ".join(ps)
            t, v = build([fr] + env, d - 1)
            after = show()
            return ("(let* ((%%b (begin %s (list %s))) (%%r ((lambda %s %s) %s))) (list %%b %%r (list %s)))"
                    % (txt, " ".join(vis), form, t, " ".join(map(str, vs + rs)), " ".join(vis))), [before, v, after]
        return build([], depth)
    def w(v): return "(%s)" % " ".join(map(w, v)) if isinstance(v, list) else str(v)
    for i in range(700):
        t, v = program(rnd.randrange(1, 7))
        out.append((t, w(v)))
    for n in list(range(0, 12)) + [15, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512]:
        ps = ["p%d" % i for i in range(n)]; vs = [str(i * 3) for i in range(n)]
        for i in sorted({0, 1, 2, n // 2, n - 2, n - 1} & set(range(n))):
            out.append(("((lambda (%s) (set! p%d 'x) (list %s)) %s)" % (" ".join(ps), i, " ".join(ps), " ".join(vs)), "(%s)" % " ".join("x" if k == i else v for k, v in enumerate(vs))))
        out.append(("((lambda (%s) (list %s)) %s)" % (" ".join(ps), " ".join(ps), " ".join(vs)), "(%s)" % " ".join(vs)))
        for m in (0, 1, 3):
            out.append(("((lambda (%s . r) (list %s r)) %s)" % (" ".join(ps), " ".join(ps), " ".join(vs + ["9"] * m)) if n else ("((lambda r (list r)) %s)" % " ".join(["9"] * m)), "(%s)" % " ".join(vs + ["(%s)" % " ".join(["9"] * m)])))
        if n:
            out += [("((lambda (%s) 1) %s)" % (" ".join(ps), " ".join(vs[1:])), "ERR"), ("((lambda (%s . r) 1) %s)" % (" ".join(ps), " ".join(vs[1:])), "ERR"),
                    ("(apply (lambda (%s) 1) '(%s))" % (" ".join(ps), " ".join(vs[1:])), "ERR"), ("(apply (lambda (%s) (list %s)) '(%s))" % (" ".join(ps), " ".join(ps), " ".join(vs)), "(%s)" % " ".join(vs))]
        out += [("((lambda (%s) 1) %s)" % (" ".join(ps), " ".join(vs + ["1"])), "ERR"), ("(apply (lambda (%s) 1) '(%s))" % (" ".join(ps), " ".join(vs + ["1"])), "ERR"), ("(apply (lambda (%s) 1) '%s)" % (" ".join(ps), "(%s . 5)" % " ".join(vs) if n else "5"), "ERR")]
        # the n-th frame out
        t = "(list x%d)" % 0 if n else "5"
        for d in range(min(n, 300)): t = "(let ((x%d %d)) %s)" % (d if d else 0, d, t)
        if 0 < n: out.append(("(let ((x0 'top)) %s)" % t.replace("(x0 0)", "(y0 0)"), "(top)"))
    out += [("(let* ((x ((lambda () (define a (begin (set! zork 'inner) 5)) (define zork 2) a))) (y zork)) (list x y))", "(5 global)"),
            ("(let* ((x (let () (set! zork 1) (let ((zork 2)) (set! zork 3)) 4)) (y zork) (z (begin (set! zork 'global) zork))) (list x y z))", "(4 1 global)"), ("(let* ((x ((lambda (zork) (set! zork 7) zork) 1)) (y zork)) (list x y))", "(7 global)")]
    out += [("(lambda (1) 2)", "ERR"), ("(lambda (a . 1) 2)", "ERR"), ("(lambda (a \"b\") 2)", "ERR"), ("(set! undefined-variable 1)", "ERR"), ("undefined-variable", "ERR"), ("(set! 5 1)", "ERR"), ("(let ((x 1)) (set! x if))", "ERR"),
            ("(let ((x 1)) (let ((f (lambda () (set! x (+ x 1)) x))) (let ((x 10)) (f) (list x (f)))))", "(10 3)"), ("((lambda (x . y) (set! y 5) (list x y)) 1 2 3)", "(1 5)"), ("((lambda x (set! x 5) x) 1 2 3)", "5"),
            ("((lambda (x . y) (set! x 5) (list x y)) 1)", "(5 ())"), ("((lambda (x . y) (set! y (cons 0 y)) (list x y)) 1)", "(1 (0))"), ("((lambda (x y) (define z 3) (define w 4) (set! x 9) (list x y z w)) 1 2)", "(9 2 3 4)")]
    return "(define zork 'global)", out
