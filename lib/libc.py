"""Contracts of the C library functions the sources call (trusted)."""
import z3
from engine import *

def install(eng):
    H = eng.handlers
    def reg(*ns):
        def d(f):
            for n in ns: H[n] = f
            return f
        return d
    @reg("scm_malloc", "scm_malloc_aligned", "malloc")
    def _(e, st, a, k, fi):
        return P('raw', e.newblock(st, e.bv(a[0])), 0)
    @reg("scm_calloc")
    def _(e, st, a, k, fi):
        return P('raw', e.newblock(st, e.bv(a[0]) * e.bv(a[1])), 0)
    @reg("free")
    def _(e, st, a, k, fi): return B(0)
    @reg("__errno_location")
    def _(e, st, a, k, fi):
        if "errno" not in e.globobj: e.globobj["errno"] = e.newobj("errno", 4, 'glob')
        return P('obj', e.globobj["errno"], 0)
