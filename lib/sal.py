"""Contracts of the storage abstraction layer (proved for both layouts by S01)."""
import z3
from engine import *

INTVAL = z3.Function("INTVAL", BV64, BV64)
CHARVAL = z3.Function("CHARVAL", BV64, z3.BitVecSort(32))

def tobv(eng, v, w=64):
    v = eng.bv(v)
    if z3.is_bool(v): v = z3.If(v, B(1, w), B(0, w))
    return v

def otype(eng, o):
    """type of an object, with closedness of the type universe"""
    t = TYPE(o)
    key = ("ty", o.get_id())
    names = ("SCM_NULL", "SCM_TRUE", "SCM_FALSE", "SCM_EOF", "SCM_UNBOUND", "SCM_UNDEF")
    eng.assume(z3.Implies(t == eng.ty("ScmConstant"), z3.Or(*[o == eng.K(n) for n in names])))
    mx = max(eng.c[n] for n in ("ScmSubpat", "ScmCFuncPointer", "ScmFreeCell", "ScmMacro"))
    inv = eng.c.get("SCM_INVALID")
    eng.assume(z3.Or(z3.ULE(t, B(mx, 32)), o == eng.K("SCM_INVALID")))
    return t

def need(eng, st, fr, o, tn, what):
    if not eng.policy_types: 
        eng.assume(TYPE(o) == eng.ty(tn)); return
    eng.prove("%s in %s only on a %s" % (what, fr.fn.name, tn[3:].lower()), TYPE(o) == eng.ty(tn), "type")

def int_axioms(eng, o):
    v = INTVAL(o)
    eng.assume(z3.Implies(TYPE(o) == eng.ty("ScmInt"), z3.And(v >= eng.K("SCM_INT_MIN"), v <= eng.K("SCM_INT_MAX"))))
    if eng.variant != "fatty":
        eng.assume(z3.Implies(TYPE(o) == eng.ty("ScmInt"), MKINT(v) == o))
    return v
def char_axioms(eng, o):
    v = CHARVAL(o)
    eng.assume(z3.Implies(TYPE(o) == eng.ty("ScmChar"), z3.And(v >= 0, v <= B(0x7fffffff >> (0 if eng.variant == "fatty" else 0), 32))))
    if eng.variant != "fatty":
        eng.assume(z3.Implies(TYPE(o) == eng.ty("ScmChar"), MKCHAR(v) == o))
    return v
def fixbits(eng):
    n = eng.c["SCM_INT_MAX"]
    return n.bit_length() + 1
def make_int(eng, st, v):
    w = fixbits(eng)
    if w < 64: v = simp(z3.SignExt(64 - w, z3.Extract(w - 1, 0, v)))
    if eng.variant == "fatty":
        return eng_alloc_plain(eng, st, "ScmInt", lambda o: eng.assume(INTVAL(o) == v), "int")
    o = MKINT(v)
    eng.assume(z3.And(TYPE(o) == eng.ty("ScmInt"), INTVAL(o) == v, AGE(o) == 0))
    return o
def make_char(eng, st, v, fr=None):
    eng.prove("character value is not negative%s" % (" in " + fr.fn.name if fr else ""), v >= 0, "type")
    if eng.variant == "fatty":
        return eng_alloc_plain(eng, st, "ScmChar", lambda o: eng.assume(CHARVAL(o) == v), "chr")
    o = MKCHAR(v)
    eng.assume(z3.And(TYPE(o) == eng.ty("ScmChar"), CHARVAL(o) == v, AGE(o) == 0))
    return o
def eng_alloc_plain(eng, st, ty, f, hint):
    """boxed immediate: fresh object outside the allocation ghost log"""
    o = eng.sym(hint)
    nclk = z3.Int("clk!%d" % next(eng.cnt))
    eng.assume(nclk == st.clk + 1); st.clk = nclk; eng.wkey('clk')
    eng.assume(z3.And(AGE(o) == nclk, TYPE(o) == eng.ty(ty)))
    f(o)
    return o

def install(eng):
    H = eng.handlers
    def reg(n):
        def d(f): H[n] = f; return f
        return d
    @reg("__sal_type")
    def _(e, st, a, k, fi): return otype(e, e.bv(a[0]))
    def getter(f):
        def h(e, st, a, k, fi):
            o = e.bv(a[0])
            if f in FIELD_TYPE: need(e, st, fi[0], o, FIELD_TYPE[f], "access to %s" % f)
            if f == 'int': return int_axioms(e, o)
            if f == 'char': return char_axioms(e, o)
            v = e.getf(st, f, o)
            if e.gethook: e.gethook(e, st, f, o, v)
            return e.ptr(v) if f in PTR_FIELDS else v
        return h
    def setter(f):
        def h(e, st, a, k, fi):
            o = e.bv(a[0])
            if f in FIELD_TYPE: need(e, st, fi[0], o, FIELD_TYPE[f], "change of %s" % f)
            if f in ('int', 'char'): raise Unsupported("in-place change of an immediate")
            v = e.bv(a[1])
            e.setf(st, f, o, v)
            return B(0)
        return h
    eng.gethook = None
    for f in FIELD_SORT:
        H["__sal_get_" + f] = getter(f)
        H["__sal_set_" + f] = setter(f)
    # bundles of multiple values of the fatty layout are retyped pairs
    for f in ("car", "cdr"):
        def vget(e, st, a, k, fi, f=f):
            o = e.bv(a[0]); need(e, st, fi[0], o, "ScmValuePacket", "access to the %s of multiple values" % f)
            return e.getf(st, f, o)
        H["__sal_get_v" + f] = vget
    @reg("__sal_ref_car")
    def _(e, st, a, k, fi):
        o = e.bv(a[0]); need(e, st, fi[0], o, "ScmCons", "reference to car"); return P('car', o)
    @reg("__sal_ref_cdr")
    def _(e, st, a, k, fi):
        o = e.bv(a[0]); need(e, st, fi[0], o, "ScmCons", "reference to cdr"); return P('cdr', o)
    def unref(e, st, r, f, name):
        """run f(st, p) on the non-merged pointer"""
        if r.kind == 'ite':
            c, x, y = r.base
            return e.branch(st, c, lambda s: unref(e, s, x, f, name), lambda s: unref(e, s, y, f, name))
        return f(st, r)
    @reg("__sal_deref")
    def _(e, st, a, k, fi):
        r = a[0]
        if not isinstance(r, P): r = e.ptr(r)
        if r.kind != 'ite':
            return e.bv(e.load(fi[0], st, r, ('i', 64), fi[0].fn.mod))
        unref(e, st, r, lambda s, p: k(s, e.bv(e.load(fi[0], s, p, ('i', 64), fi[0].fn.mod))), "deref")
        return None
    @reg("__sal_setref")
    def _(e, st, a, k, fi):
        r = a[0]
        if not isinstance(r, P): r = e.ptr(r)
        if r.kind != 'ite':
            e.store(fi[0], st, r, e.bv(a[1]), ('i', 64), fi[0].fn.mod); return B(0)
        def go(s, p):
            e.store(fi[0], s, p, e.bv(a[1]), ('i', 64), fi[0].fn.mod); k(s, B(0))
        unref(e, st, r, go, "setref")
        return None
    @reg("__sal_make_int")
    def _(e, st, a, k, fi): return make_int(e, st, e.bv(a[0]))
    @reg("__sal_make_char")
    def _(e, st, a, k, fi): return make_char(e, st, e.bv(a[0]), fi[0])
    H["scm_make_int"] = H["__sal_make_int"]; H["scm_make_char"] = H["__sal_make_char"]
    @reg("scm_make_cons")
    def _(e, st, a, k, fi): return e.alloc(st, "ScmCons", "cons", car=a[0], cdr=a[1], mutable=B(1, 32))
    @reg("scm_make_immutable_cons")
    def _(e, st, a, k, fi): return e.alloc(st, "ScmCons", "cons", car=a[0], cdr=a[1], mutable=B(0, 32))
    @reg("scm_make_closure")
    def _(e, st, a, k, fi): return e.alloc(st, "ScmClosure", "clo", exp=a[0], env=a[1])
    @reg("scm_make_symbol")
    def _(e, st, a, k, fi): return e.alloc(st, "ScmSymbol", "sym", symname=a[0], vcell=a[1])
    @reg("scm_make_func")
    def _(e, st, a, k, fi): return e.alloc(st, "ScmFunc", "func", functype=a[0], cfunc=a[1])
    def mkvec(mut):
        def h(e, st, a, k, fi): return e.alloc(st, "ScmVector", "vec", vec=a[0], veclen=a[1], mutable=B(mut, 32))
        return h
    H["scm_make_vector"] = mkvec(1); H["scm_make_immutable_vector"] = mkvec(0)
    @reg("scm_make_continuation")
    def _(e, st, a, k, fi): return e.alloc(st, "ScmContinuation", "cont", contopaque=B(0), conttag=B(0))
    def mkvals(e, st, a, k, fi): return e.alloc(st, "ScmValuePacket", "vals", values=a[0])
    H["scm_make_value_packet"] = mkvals; H["__sal_make_values"] = mkvals
    @reg("scm_make_cpointer")
    def _(e, st, a, k, fi): return e.alloc(st, "ScmCPointer", "cptr", cptr=a[0])
    @reg("scm_make_cfunc_pointer")
    def _(e, st, a, k, fi): return e.alloc(st, "ScmCFuncPointer", "cfptr", cfptr=a[0])
    @reg("scm_make_port")
    def _(e, st, a, k, fi):
        fl = e.bv(a[1])
        return e.alloc(st, "ScmPort", "port", portimpl=a[0], portflag=e.sym("portflag", 32))
    @reg("scm_make_hmacro")
    def _(e, st, a, k, fi): return e.alloc(st, "ScmMacro", "mac", hrules=a[0], henv=e.sym("penv"))
    @reg("scm_make_farsymbol")
    def _(e, st, a, k, fi): return e.alloc(st, "ScmFarsymbol", "far", fsym=a[0], fenv=a[1])
    @reg("scm_make_subpat")
    def _(e, st, a, k, fi): return e.alloc(st, "ScmSubpat", "subpat", spobj=a[0], spmeta=a[1])
