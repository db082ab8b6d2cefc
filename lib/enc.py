"""The six character encodings: locating the codec tables in the IR, and the
specification of their character sets (same ranges as cbmc/codec.c)."""
import z3, irv
from engine import *

NAMES = ["UTF-8", "EUC-JP", "EUC-CN", "EUC-KR", "Shift_JIS", "ISO-8859-1"]

_tab = {}
def table(variant):
    """encoding name -> (unit, vtable global name), from the table of available codecs"""
    if variant in _tab: return _tab[variant]
    m = irv.module(variant)
    f = m.fn("scm_mb_find_codec")
    if f is None: raise ToolError("scm_mb_find_codec not found")
    u = f.mod
    vt = set()
    for n, g in u.globs.items():
        if g.defined and g.const and isinstance(g.ty, tuple) and g.ty[0] == 'arr' and g.init[0] == 'agg':
            for t, x in g.init[1]:
                if x[0] == 'glob' and x[1] in u.globs and u.globs[x[1]].defined: vt.add(x[1])
    out = {}
    for n in sorted(vt):
        g = u.globs[n]
        if g.init[0] != 'agg' or len(g.init[1]) != 7: continue
        if any(x[0] != 'glob' for _, x in g.init[1]): continue
        t = irv.Task("codecs", n, variant)
        res = []
        try: t.call(u.find(g.init[1][1][1][1]), [], lambda st, v: res.append(v), raw=True)
        except ToolError: continue
        if len(res) == 1 and isinstance(res[0], P) and res[0].kind == 'obj':
            d = t.e.objs[res[0].base].data
            s = bytearray()
            while d is not None:
                c = d.get(len(s))
                if c is None or c[1].as_long() == 0: break
                s.append(c[1].as_long())
            out[s.decode("latin1")] = (u, n)
    if sorted(out) != sorted(NAMES): raise ToolError("codec tables not recognised: %s" % sorted(out))
    _tab[variant] = out
    return out

def install(t, name):
    """make this codec the current one in the initial state of the task"""
    u, n = table(t.variant)[name]
    vt = t.e.gobj(u, n, t.st)
    for mod in (u,):
        for gname, g in mod.globs.items():
            if gname.startswith("scm_current_char_codec") or "encoding" in gname and not g.const and not g.local and "instance" in gname:
                p = t.e.gobj(mod, gname, t.st)
                ty = mod.resolve(g.ty)
                if ty == 'ptr': offs = [0]
                else: offs = [mod.field(ty, k)[0] for k in range(len(ty[1])) if mod.resolve(mod.field(ty, k)[1]) == 'ptr']
                for o in offs: t.e.mo(t.st, p.base, True).cells[o] = (64, vt)
    return vt

def two(x, k): return z3.Extract(7, 0, z3.LShR(x, 8 * k))
def rng(b, lo, hi): return z3.And(z3.UGE(b, B(lo, 8)), z3.ULE(b, B(hi, 8)))
def charp(name, ch):
    """ch (signed bit-vector) is a character of this encoding"""
    w = ch.size()
    K = lambda n: z3.BitVecVal(n, w)
    ge = ch >= 0
    if name == "UTF-8": return z3.And(ge, ch <= K(0x10FFFF), z3.Not(z3.And(ch >= K(0xD800), ch <= K(0xDFFF))))
    b0, b1, b2 = two(ch, 0), two(ch, 1), two(ch, 2)
    gr94 = lambda b: rng(b, 0xA1, 0xFE)
    gr96 = lambda b: rng(b, 0xA0, 0xFF)
    one = z3.And(ge, ch <= K(0xFF))
    dbl = z3.And(ch >= K(0x100), ch <= K(0xFFFF))
    tri = z3.And(ch >= K(0x10000), ch <= K(0xFFFFFF))
    ascii = z3.And(ge, ch < K(0x80))
    if name == "ISO-8859-1": return one
    if name in ("EUC-CN", "EUC-KR"): return z3.Or(ascii, z3.And(dbl, gr94(b1), gr96(b0)))
    if name == "Shift_JIS":
        lead = lambda b: z3.Or(rng(b, 0x81, 0x9F), rng(b, 0xE0, 0xFC))
        return z3.Or(z3.And(one, z3.Not(lead(b0))), z3.And(dbl, lead(b1), rng(b0, 0x40, 0xFC), b0 != B(0x7F, 8)))
    if name == "EUC-JP":
        return z3.Or(ascii, z3.And(dbl, z3.Or(gr94(b1), b1 == B(0x8E, 8)), gr96(b0)),
                     z3.And(dbl, b1 == B(0x8F, 8), z3.Or(b0 == B(0xA0, 8), b0 == B(0xFF, 8))),
                     z3.And(tri, b2 == B(0x8F, 8), gr94(b1), gr94(b0)))
    raise ToolError("codec " + name)
def pycharp(name, n):
    return z3.is_true(z3.simplify(charp(name, z3.BitVecVal(n, 80))))
