"""Contract helpers for primitives."""
import z3
import sal
from engine import *

LIM = {"compact": (-(1 << 59), (1 << 59) - 1), "fatty": (-(1 << 63), (1 << 63) - 1)}

def AND(*a): return z3.And(*a)
def OR(*a): return z3.Or(*a)
def NOT(a): return z3.Not(a)
def IMP(a, b): return z3.Implies(a, b)

def fix(ctx, name, nargs, err, post, tag=None, variants=("compact", "fatty"), frame=True, setup=None, **kw):
    """fixed-arity primitive: it signals an error iff err(t, args), else post(t, args, st, v) -> [(text, formula)]"""
    def task(t):
        a = t.objs(*["arg%d" % (i + 1) for i in range(nargs)])
        if setup: setup(t, a)
        req = err(t, a)
        def ret(st, v):
            v = t.e.bv(v)
            t.prove("returns only where no error is required", NOT(req))
            for n, f in post(t, a, st, v): t.prove(n, f)
            if frame: t.prove_frame(st)
        def ex(st, name, av):
            t.prove("signals an error only where one is required", req)
            if frame: t.prove_frame(st, name="on error")
        t.call(t.prim(name), a, ret, ex)
    ctx.irv(tag or name, task, variants=variants, **kw)

def isint(t, *a): return z3.And(*[t.isint(x) for x in a])
def ischar(t, *a): return z3.And(*[t.istype(x, "Char") for x in a])
def isbool(t, v, c): return v == t.bool(c)
def intval(t, v, x):
    """v is the integer x"""
    return z3.And(t.isint(v), sal.int_axioms(t.e, v) == x)
def charval(t, v, x):
    return z3.And(t.istype(v, "Char"), sal.char_axioms(t.e, v) == x)

R0, R1, RPART, RLAST, RSTOP = range(5)
def reduction(ctx, name, err, post, tag=None, **kw):
    """reduction operator called as the evaluator calls it: state 0 without
    arguments, 1 with the single argument twice, partway/last with the
    accumulated value and the next argument"""
    def task(t):
        l, r = t.objs("left", "right")
        s = t.bv("state", 32)
        t.assume(z3.ULE(s, B(3, 32)), IMP(s == R1, l == r), IMP(s == R0, AND(l == t.K("INVALID"), r == t.K("INVALID"))))
        p = t.slot("state", 32, s)
        req = err(t, l, r, s)
        def ret(st, v):
            v = t.e.bv(v)
            s2 = t.cell(st, p, 0, 32)
            t.prove("returns only where no error is required", NOT(req))
            for n, f in post(t, l, r, s, st, v, s2): t.prove(n, f)
            t.prove_frame(st)
        def ex(st, n, av): t.prove("signals an error only where one is required", req)
        t.call(t.prim(name), [l, r, p], ret, ex)
    ctx.irv(tag or name, task, **kw)

def eqv(t, a, b):
    return OR(a == b, AND(t.isint(a), t.isint(b), t.int(a) == t.int(b)), AND(ischar(t, a, b), t.char(a) == t.char(b)))
EQUAL = z3.Function("EQUAL", BV64, BV64, BV64)
