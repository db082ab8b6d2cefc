import z3
from spec import *
import fals, enc

def setup(ctx):
    def ch(t, o): return t.char(o)
    up = lambda x: AND(x >= ord('A'), x <= ord('Z'))
    lo = lambda x: AND(x >= ord('a'), x <= ord('z'))
    fold = lambda x: z3.If(up(x), x + 32, x)
    def isch(t, a): return NOT(ischar(t, *a))
    for suffix, f in (("", lambda x: x), ("-ci", fold)):
        for op, g in (("=", lambda a, b: a == b), ("<", lambda a, b: a < b), (">", lambda a, b: a > b), ("<=", lambda a, b: a <= b), (">=", lambda a, b: a >= b)):
            fix(ctx, "char%s%s?" % (suffix, op), 2, isch, lambda t, a, st, v, f=f, g=g: [("answers the comparison", v == t.bool(g(f(ch(t, a[0])), f(ch(t, a[1])))))])
    for n, p in (("alphabetic", lambda x: OR(up(x), lo(x))), ("numeric", lambda x: AND(x >= 48, x <= 57)),
                 ("whitespace", lambda x: OR(x == 32, AND(x >= 9, x <= 13))), ("upper-case", up), ("lower-case", lo)):
        fix(ctx, "char-%s?" % n, 1, isch, lambda t, a, st, v, p=p: [("answers the class", v == t.bool(p(ch(t, a[0]))))])
    fix(ctx, "char?", 1, lambda t, a: z3.BoolVal(False), lambda t, a, st, v: [("answers the type", v == t.bool(ischar(t, a[0])))])
    fix(ctx, "char-upcase", 1, isch, lambda t, a, st, v: [("gives the upper case character", charval(t, v, z3.If(lo(ch(t, a[0])), ch(t, a[0]) - 32, ch(t, a[0]))))])
    fix(ctx, "char-downcase", 1, isch, lambda t, a, st, v: [("gives the lower case character", charval(t, v, fold(ch(t, a[0]))))])
    fix(ctx, "char->integer", 1, isch, lambda t, a, st, v: [("gives the code", intval(t, v, z3.SignExt(32, ch(t, a[0]))))])
    for e in enc.NAMES:
        fix(ctx, "integer->char", 1, lambda t, a, e=e: OR(NOT(isint(t, a[0])), NOT(enc.charp(e, t.int(a[0])))),
            lambda t, a, st, v: [("gives the character of that code", AND(t.istype(v, "Char"), z3.SignExt(32, t.char(v)) == t.int(a[0])))],
            tag="integer->char " + e, setup=lambda t, a, e=e: enc.install(t, e))
    ctx.assume("character codes are non-negative (checked wherever a character is made, here and in the codecs: C01, C02)")

    def gen(variant, name="UTF-8"):
        b = lambda c: "#t" if c else "#f"
        U = lambda x: 65 <= x <= 90
        L = lambda x: 97 <= x <= 122
        F = lambda x: x + 32 if U(x) else x
        lim = LIM[variant]
        out = []
        codes = [c for c in range(128)]
        hi = [x for x in (0x80, 0xff, 0x100, 0x130, 0x141, 0x161, 0x3b1, 0x41a, 0x2028, 0x3000, 0x3042, 0xd7ff, 0xe000, 0xff21, 0xffff, 0x10000, 0x10ffff)] if name == "UTF-8" else \
             [x for x in (0x41, 0xa1, 0x8ea1, 0xa1a1, 0xa3c1, 0xfefe, 0x8fa1a1, 0x8fa3c1, 0x8140, 0x8260, 0x8281, 0xfcfc) if enc.pycharp(name, x)]
        for x in codes + hi:
            c = "(integer->char %d)" % x
            out += [("(char->integer %s)" % c, str(x)), ("(char? %s)" % c, "#t"),
                    ("(char-alphabetic? %s)" % c, b(U(x) or L(x))), ("(char-numeric? %s)" % c, b(48 <= x <= 57)), ("(char-whitespace? %s)" % c, b(x == 32 or 9 <= x <= 13)),
                    ("(char-upper-case? %s)" % c, b(U(x))), ("(char-lower-case? %s)" % c, b(L(x))),
                    ("(char->integer (char-upcase %s))" % c, str(x - 32 if L(x) else x)), ("(char->integer (char-downcase %s))" % c, str(F(x)))]
        some = [0, 9, 10, 32, 48, 64, 65, 66, 90, 91, 95, 96, 97, 98, 122, 123, 127] + hi
        import operator as o
        for x in some:
            for y in some:
                for s, f in (("=", o.eq), ("<", o.lt), (">", o.gt), ("<=", o.le), (">=", o.ge)):
                    out += [("(char%s? (integer->char %d) (integer->char %d))" % (s, x, y), b(f(x, y))), ("(char-ci%s? (integer->char %d) (integer->char %d))" % (s, x, y), b(f(F(x), F(y))))]
        ns = set()
        for k in range(0, 63):
            for base in (1 << k, -(1 << k)):
                for d in (-1, 0, 1, 65, 0xa1a1): ns.add(base + d)
        for x in (0xd7ff, 0xd800, 0xdfff, 0xe000, 0x10ffff, 0x110000, 0x1fffff, 0x8e00, 0x8ea0, 0x8ea1, 0x8edf, 0x8eff, 0x8fa0, 0x8fa1, 0x8fa1a1, 0x8fa1ff, 0x8ffefe, 0x8f0000, 0x8eaaaa, 0x80a1, 0xa000, 0xa07f, 0xa0a0, 0xffa1, 0x813f, 0x817f, 0x81fd, 0x9fa0, 0xa041, 0xdf41, 0xe040, 0xfc40, 0xfd40, 0xfe40) : ns |= {x, x + 1, x - 1, x + (1 << 32), x - (1 << 32)}
        for n in sorted(ns):
            if lim[0] <= n <= lim[1]:
                out.append(("(char->integer (integer->char %d))" % n, str(n) if enc.pycharp(name, n) else "ERR"))
        for x in ["#t", "1", "0", "65", "'a", "\"a\"", "'()", "'(#\\a)", "(vector #\\a)", "car"]:
            for s in "= < > <= >=".split():
                for ci in ("", "-ci"):
                    out += [("(char%s%s? %s #\\a)" % (ci, s, x), "ERR"), ("(char%s%s? #\\a %s)" % (ci, s, x), "ERR"), ("(char%s%s? %s %s)" % (ci, s, x, x), "ERR")]
            for f in "char-alphabetic? char-numeric? char-whitespace? char-upper-case? char-lower-case? char-upcase char-downcase char->integer".split(): out.append(("(%s %s)" % (f, x), "ERR"))
            if not x.isdigit(): out.append(("(integer->char %s)" % x, "ERR"))
            out.append(("(char? %s)" % x, "#f"))
        return ("(%%%%set-current-char-codec! \"%s\")\n" % name, out)
    for e in enc.NAMES:
        ctx.falsifier(fals.both(lambda v, e=e: gen(v, e)))
