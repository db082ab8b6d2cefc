import z3
from spec import *
import fals, itertools

def setup(ctx):
    def val(t, *a): return [t.int(x) for x in a]
    W = 128
    def wide(x): return z3.SignExt(W - 64, x)
    def inrange(t, x): return AND(x >= wide(t.K("INT_MIN")), x <= wide(t.K("INT_MAX")))
    def arith(name, op, unit, req1):
        def acc(t, l, r, s):
            """accumulator the operator starts from"""
            return z3.If(OR(s == RPART, s == RLAST), wide(t.int(l)), z3.BitVecVal(unit, W))
        def result(t, l, r, s):
            if name == "/":     # truncating division; |n / d| <= |n|, only n / -1 = -n can leave the range
                a = z3.If(OR(s == RPART, s == RLAST), t.int(l), B(unit))
                return z3.If(t.int(r) == -1, -wide(a), wide(a / t.int(r)))
            return op(acc(t, l, r, s), wide(t.int(r)))
        def err(t, l, r, s):
            tyerr = OR(AND(s != R0, NOT(t.isint(r))), AND(z3.UGE(s, B(2, 32)), NOT(t.isint(l))))
            bad = AND(s != R0, NOT(tyerr), NOT(inrange(t, result(t, l, r, s))))
            if name == "/": bad = AND(s != R0, NOT(tyerr), OR(t.int(r) == 0, NOT(inrange(t, result(t, l, r, s)))))
            return OR(tyerr, bad, AND(s == R0, z3.BoolVal(req1)))
        def post(t, l, r, s, st, v, s2):
            x = z3.If(s == R0, z3.BitVecVal(unit, W), result(t, l, r, s))
            return [("the result is an integer", t.isint(v)),
                    ("the result is exact", wide(t.int(v)) == x),
                    ("the reduction goes on", IMP(s == RPART, s2 == RPART))]
        reduction(ctx, name, err, post)
    arith("+", lambda a, b: a + b, 0, False)
    arith("-", lambda a, b: a - b, 0, True)
    arith("/", lambda a, b: a / b, 1, True)     # bit-vector signed division truncates
    def compare(name, op):
        def err(t, l, r, s): return OR(z3.ULE(s, B(1, 32)), NOT(isint(t, l, r)))
        def post(t, l, r, s, st, v, s2):
            c = op(t.int(l), t.int(r))
            return [("last: answers the comparison", IMP(s == RLAST, v == t.bool(c))),
                    ("partway, true: goes on with the right operand", IMP(AND(s == RPART, c), AND(s2 == RPART, intval(t, v, t.int(r))))),
                    ("partway, false: stops with #f", IMP(AND(s == RPART, NOT(c)), AND(s2 == RSTOP, v == t.K("FALSE"))))]
        reduction(ctx, name, err, post)
    compare("=", lambda a, b: a == b); compare("<", lambda a, b: a < b); compare("<=", lambda a, b: a <= b)
    compare(">", lambda a, b: a > b); compare(">=", lambda a, b: a >= b)
    def minmax(name, op):
        def err(t, l, r, s): return OR(s == R0, NOT(isint(t, l, r)))
        def post(t, l, r, s, st, v, s2):
            a, b = val(t, l, r)
            return [("the result is the %s argument" % ("larger" if name == "max" else "smaller"), intval(t, v, z3.If(op(a, b), a, b))),
                    ("the reduction goes on", IMP(s == RPART, s2 == RPART))]
        reduction(ctx, name, err, post)
    minmax("max", lambda a, b: a > b); minmax("min", lambda a, b: a < b)
    # gcd and lcm: no trap, integer result, type errors (values: not under contract)
    for n in ("gcd", "lcm", "*"):
        def err(t, l, r, s): return OR(AND(s != R0, NOT(t.isint(r))), AND(z3.UGE(s, B(2, 32)), NOT(t.isint(l))))
        def post(t, l, r, s, st, v, s2):
            return [("the result is an integer", t.isint(v)), ("the reduction goes on", IMP(s == RPART, s2 == RPART))]
        reduction(ctx, n, err, post)

    def pred1(name, f):
        fix(ctx, name, 1, lambda t, a: NOT(isint(t, a[0])), lambda t, a, st, v: [("the answer is exact", v == t.bool(f(t.int(a[0]))))])
    pred1("zero?", lambda x: x == 0); pred1("positive?", lambda x: x > 0); pred1("negative?", lambda x: x < 0)
    pred1("odd?", lambda x: z3.Extract(0, 0, x) == 1); pred1("even?", lambda x: z3.Extract(0, 0, x) == 0)
    for n in ("number?", "integer?"):
        fix(ctx, n, 1, lambda t, a: z3.BoolVal(False), lambda t, a, st, v: [("the answer is exact", v == t.bool(t.isint(a[0])))])
    fix(ctx, "abs", 1, lambda t, a: OR(NOT(isint(t, a[0])), NOT(inrange(t, -wide(t.int(a[0]))))),
        lambda t, a, st, v: [("the result is exact", intval(t, v, z3.If(t.int(a[0]) < 0, -t.int(a[0]), t.int(a[0]))))])
    def div(name, spec, over):
        def err(t, a):
            n, d = val(t, *a)
            e = OR(NOT(isint(t, *a)), d == 0)
            return OR(e, AND(d == -1, NOT(inrange(t, -wide(n))))) if over else e
        fix(ctx, name, 2, err, lambda t, a, st, v: [("the result is an integer", t.isint(v)), ("the result is exact", t.int(v) == spec(*val(t, *a)))], timeout=60000)
    def rem(n, d): return z3.If(d == -1, B(0), z3.SRem(n, d))
    div("quotient", lambda n, d: n / d, True)
    div("remainder", rem, False)
    div("modulo", lambda n, d: z3.If(AND(rem(n, d) != 0, (n < 0) != (d < 0)), rem(n, d) + d, rem(n, d)), False)

    def gen(variant):
        lo, hi = LIM[variant]
        vals = sorted({x for b in (0, 1, 2, 3, 7, 10, 255, 1 << 30, 1 << 31, 1 << 32, 1 << 58, hi // 2, hi - 1, hi) for x in (b, -b, b + 1, b - 1, -b - 1) if lo <= x <= hi} | {lo, lo + 1})
        def chk(x): return str(x) if lo <= x <= hi else "ERR"
        def tdiv(a, b): q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
        b = lambda c: "#t" if c else "#f"
        out = []
        for a in vals:
            for f, w in (("zero?", b(a == 0)), ("positive?", b(a > 0)), ("negative?", b(a < 0)), ("odd?", b(a % 2 == 1)), ("even?", b(a % 2 == 0)),
                         ("abs", chk(abs(a))), ("-", chk(-a)), ("+", chk(a)), ("max", chk(a)), ("min", chk(a)),
                         ("/", "ERR" if a == 0 else chk(tdiv(1, a))), ("number?", "#t"), ("integer?", "#t"), ("gcd", None), ("lcm", None)):
                out.append(("(%s %d)" % (f, a), w))
            for c in vals:
                for f, w in (("+", chk(a + c)), ("-", chk(a - c)), ("/", "ERR" if c == 0 else chk(tdiv(a, c))),
                    ("quotient", "ERR" if c == 0 else chk(tdiv(a, c))), ("remainder", "ERR" if c == 0 else str(a - c * tdiv(a, c))),
                    ("modulo", "ERR" if c == 0 else str(a % c)), ("max", str(max(a, c))), ("min", str(min(a, c))),
                    ("=", b(a == c)), ("<", b(a < c)), ("<=", b(a <= c)), (">", b(a > c)), (">=", b(a >= c)), ("gcd", None), ("lcm", None)):
                    out.append(("(%s %d %d)" % (f, a, c), w))
        small = [lo, -1, 0, 1, hi]
        for a, c, d in itertools.product(small + [5], repeat=3):
            out.append(("(+ %d %d %d)" % (a, c, d), chk(a + c + d) if lo <= a + c <= hi else "ERR"))
            out.append(("(- %d %d %d)" % (a, c, d), chk(a - c - d) if lo <= a - c <= hi else "ERR"))
            out.append(("(max %d %d %d)" % (a, c, d), str(max(a, c, d)))); out.append(("(min %d %d %d)" % (a, c, d), str(min(a, c, d))))
            for f, o in (("=", lambda x, y: x == y), ("<", lambda x, y: x < y), ("<=", lambda x, y: x <= y), (">", lambda x, y: x > y), (">=", lambda x, y: x >= y)):
                out.append(("(%s %d %d %d)" % (f, a, c, d), b(o(a, c) and o(c, d))))
        bad = ["#t", "'a", "\"x\"", "'()", "'(1)", "(vector 1)", "#\\a", "car", "(lambda () 1)", "(if #f #f)"]
        for x in bad:
            for f in "+ - * / max min gcd lcm abs quotient remainder modulo zero? positive? negative? odd? even? = < <= > >=".split():
                if f in ("quotient", "remainder", "modulo", "=", "<", "<=", ">", ">="):
                    out += [("(%s %s 1)" % (f, x), "ERR"), ("(%s 1 %s)" % (f, x), "ERR"), ("(%s %s %s)" % (f, x, x), "ERR")]
                    if f in "= < <= > >=": out += [("(%s 1 %s 3)" % (f, x), "ERR")]
                else: out.append(("(%s %s)" % (f, x), "ERR"))
                if f in "+ - * / max min gcd lcm".split(): out += [("(%s %s 1)" % (f, x), "ERR"), ("(%s 1 %s)" % (f, x), "ERR"), ("(%s 1 2 %s)" % (f, x), "ERR")]
            out += [("(number? %s)" % x, "#f"), ("(integer? %s)" % x, "#f")]
        for f in "- / max min = < <= > >=".split(): out.append(("(%s)" % f, "ERR"))
        for f in "= < <= > >=".split(): out.append(("(%s 1)" % f, "ERR"))
        out += [("(+)", "0"), ("(*)", "1"), ("(gcd)", "0"), ("(lcm)", "1")]
        return out
    ctx.falsifier(fals.both(gen))
