import z3
from spec import *
import fals, itertools

def setup(ctx):
    def bits(name, op, unit):
        def err(t, l, r, s): return OR(AND(s != R0, NOT(t.isint(r))), AND(z3.UGE(s, B(2, 32)), NOT(t.isint(l))))
        def post(t, l, r, s, st, v, s2):
            x = z3.If(s == R0, B(unit & MASK64), z3.If(s == R1, t.int(r), op(t.int(l), t.int(r))))
            return [("the result is exact", intval(t, v, x)), ("the reduction goes on", IMP(s == RPART, s2 == RPART))]
        reduction(ctx, name, err, post)
    MASK64 = (1 << 64) - 1
    bits("logand", lambda a, b: a & b, -1); bits("logior", lambda a, b: a | b, 0); bits("logxor", lambda a, b: a ^ b, 0)
    ni = lambda t, a: NOT(isint(t, *a))
    fix(ctx, "lognot", 1, ni, lambda t, a, st, v: [("the result is exact", intval(t, v, -t.int(a[0]) - 1))])
    fix(ctx, "bitwise-if", 3, ni, lambda t, a, st, v: [("each bit comes from the operand the mask selects",
        intval(t, v, (t.int(a[0]) & t.int(a[1])) | (~t.int(a[0]) & t.int(a[2]))))])
    fix(ctx, "logtest", 2, ni, lambda t, a, st, v: [("tells whether a common bit is set", v == t.bool((t.int(a[0]) & t.int(a[1])) != 0))])

    def gen(variant):
        lo, hi = LIM[variant]
        vals = sorted({x for b in (0, 1, 2, 3, 5, 0xff, 1 << 28, 1 << 31, 1 << 32, 1 << 33, 1 << 58, 0x555555555555555, hi) for x in (b, -b, b - 1, -b - 1) if lo <= x <= hi})
        out = [("(logand)", "-1"), ("(logior)", "0"), ("(logxor)", "0")]
        b = lambda c: "#t" if c else "#f"
        al = dict(logand="bitwise-and", logior="bitwise-ior", logxor="bitwise-xor", lognot="bitwise-not", logtest="any-bits-set?")
        al["bitwise-if"] = "bitwise-merge"
        def add(f, args, w):
            for n in (f, al[f]): out.append(("(%s %s)" % (n, " ".join(map(str, args))), w))
        for x in vals:
            add("lognot", [x], str(~x))
            for f in ("logand", "logior", "logxor"): add(f, [x], str(x))
            for y in vals:
                add("logand", [x, y], str(x & y)); add("logior", [x, y], str(x | y)); add("logxor", [x, y], str(x ^ y)); add("logtest", [x, y], b(x & y))
        few = vals[::4] + [0x123456789abc, -0x123456789abc]
        for x, y, z in itertools.product(few, repeat=3):
            add("bitwise-if", [x, y, z], str((x & y) | (~x & z))); add("logand", [x, y, z], str(x & y & z))
            add("logior", [x, y, z], str(x | y | z)); add("logxor", [x, y, z], str(x ^ y ^ z))
        for x in ["#t", "#f", "'a", "\"x\"", "'()", "'(1)", "(vector 1)", "#\\a", "car"]:
            for f in ("logand", "logior", "logxor"):
                for a in ([x], [x, 1], [1, x], [x, x], [1, 2, x], [1, x, 2], [0, x], [x, 0]): add(f, a, "ERR")
            add("lognot", [x], "ERR")
            for a in ([x, 1], [1, x], [0, x], [x, 0]): add("logtest", a, "ERR")
            for a in ([x, 1, 1], [1, x, 1], [1, 1, x], [0, x, 1], [-1, 1, x]): add("bitwise-if", a, "ERR")
        return out
    ctx.falsifier(fals.both(gen))
