"""Parser for the subset of LLVM IR that clang -O0 + sroa/simplifycfg emits."""
import re
from env import ToolError

TOK = re.compile(r'''\s*(?:(;[^\n]*)|("(?:[^"\\]|\\.)*")|([%@!#](?:"[^"]*"|[\w.$-]+)?)|(c"(?:[^"\\]|\\.)*")|(-?\d+\.\d+e[+-]?\d+|0x[0-9A-Fa-f]+|-?\d+)|([\w.$]+)|(\.\.\.|[()\[\]{}<>,=*:]))''')

def toks(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "": break
            raise ToolError("IR lex error: " + s[i:i+60])
        i = m.end()
        if m[1]: continue
        out.append(m[2] or m[3] or m[4] or m[5] or m[6] or m[7])
    return out

# types: ('i',n) 'ptr' 'void' ('arr',n,t) ('st',[t..]) ('named',n) ('fn',) 'float'
class P_:
    def __init__(self, t): self.t, self.i = t, 0
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1; return x
    def eat(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def need(self, x):
        if not self.eat(x): raise ToolError("IR parse: expected %s at %s" % (x, " ".join(self.t[max(0,self.i-6):self.i+6])))
    def type(self):
        x = self.next()
        if x == 'ptr' or x == 'void' or x in ('float', 'double', 'metadata', 'label', 'x86_fp80'):
            t = x
        elif re.fullmatch(r'i\d+', x): t = ('i', int(x[1:]))
        elif x == '[':
            n = int(self.next()); self.need('x'); e = self.type(); self.need(']'); t = ('arr', n, e)
        elif x == '{':
            l = []
            if not self.eat('}'):
                while True:
                    l.append(self.type())
                    if self.eat('}'): break
                    self.need(',')
            t = ('st', tuple(l))
        elif x == '<':
            if self.peek() == '{':
                t = self.type(); self.need('>'); t = ('pst', t[1])
            else: raise ToolError("vector type")
        elif x[0] == '%': t = ('named', x)
        else: raise ToolError("IR type? " + x + " in " + " ".join(self.t))
        while self.peek() == '(' :   # function type
            d = 0
            while True:
                y = self.next()
                if y == '(': d += 1
                if y == ')':
                    d -= 1
                    if d == 0: break
            t = ('fn', t)
        return t
    ATTR = {'noundef','nonnull','noalias','signext','zeroext','nocapture','readonly','writeonly','returned','inreg','immarg','noreturn','readnone','nest','dso_local','inbounds','nuw','nsw','exact','volatile','tail','musttail','notail','fastcc','allocptr', 'nneg','disjoint'}
    def attrs(self):
        while True:
            p = self.peek()
            if p in self.ATTR: self.i += 1
            elif p in ('align',) : self.i += 2
            elif p in ('dereferenceable','dereferenceable_or_null','byval','sret','align','memory','range','allocsize') and self.peek(1) == '(':
                self.i += 1; d = 0
                while True:
                    y = self.next()
                    if y == '(': d += 1
                    if y == ')':
                        d -= 1
                        if d == 0: break
            elif p is not None and p.startswith('#') : self.i += 1
            else: return
    def value(self, ty):
        x = self.next()
        if x[0] == '%': return ('loc', x[1:])
        if x[0] == '@': return ('glob', x[1:])
        if re.fullmatch(r'-?\d+', x): return ('int', int(x))
        if x == 'true': return ('int', 1)
        if x == 'false': return ('int', 0)
        if x == 'null': return ('null',)
        if x in ('undef', 'poison'): return ('undef',)
        if x == 'zeroinitializer': return ('zero',)
        if x == 'getelementptr':
            self.attrs(); self.need('('); t = self.type(); self.need(','); ops = []
            while True:
                tt = self.type(); self.attrs(); ops.append((tt, self.value(tt)))
                if self.eat(')'): break
                self.need(',')
            return ('gep', t, ops)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.need('('); t = self.type(); v = self.value(t); self.need('to'); t2 = self.type(); self.need(')')
            return ('cast', x, t, v, t2)
        if x in ('sub', 'add'):
            self.attrs(); self.need('('); t = self.type(); a = self.value(t); self.need(','); t2 = self.type(); b = self.value(t2); self.need(')')
            return ('bin', x, t, a, b)
        if x.startswith('c"'): return ('str', unesc(x[2:-1]))
        if x == '[':
            l = []
            if not self.eat(']'):
                while True:
                    t = self.type(); l.append((t, self.value(t)))
                    if self.eat(']'): break
                    self.need(',')
            return ('agg', l)
        if x == '{':
            l = []
            if not self.eat('}'):
                while True:
                    t = self.type(); l.append((t, self.value(t)))
                    if self.eat('}'): break
                    self.need(',')
            return ('agg', l)
        if re.match(r'0x|-?\d+\.', x): return ('fp', x)
        raise ToolError("IR value? %s in %s" % (x, " ".join(self.t)))
    def tv(self):
        t = self.type(); self.attrs(); return (t, self.value(t))

def unesc(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

class Ins:
    __slots__ = ("op", "res", "ty", "a", "dbg")
    def __init__(self, op, res, ty, a, dbg): self.op, self.res, self.ty, self.a, self.dbg = op, res, ty, a, dbg

class Fn:
    def __init__(self, name, ret, params, vararg, lines, mod, noreturn):
        self.name, self.ret, self.params, self.vararg, self._lines, self.mod = name, ret, params, vararg, lines, mod
        self._b = None
        self.noreturn = noreturn
    @property
    def blocks(self):
        if self._b is None: self._parse()
        return self._b
    def _parse(self):
        b = {}; cur = None; self.entry = None
        L = self._lines; i = 0
        while i < len(L):
            l = L[i]; i += 1
            if not l.strip(): continue
            m = re.match(r'^("?[\w.$-]+"?):', l)
            if m and not l.startswith(' '):
                cur = m[1].strip('"'); b[cur] = []
                if self.entry is None: self.entry = cur
                continue
            if cur is None:
                cur = '0'; b[cur] = []; self.entry = cur
            if 'switch ' in l and l.rstrip().endswith('['):
                while not L[i].strip().startswith(']'):
                    l += ' ' + L[i]; i += 1
                l += ' ' + L[i]; i += 1
            b[cur].append(parse_ins(l))
        self._b = b
        self._loops()
    def succs(self, lab):
        t = self._b[lab][-1]
        if t.op == 'br': return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
        if t.op == 'switch': return [t.a[1]] + [x[1] for x in t.a[2]]
        return []
    def _loops(self):
        """natural loops: header -> set of blocks"""
        order, seen = [], set()
        succ = {x: self.succs(x) for x in self._b}
        def dfs(x):
            st = [(x, iter(succ[x]))]; seen.add(x)
            while st:
                n, it = st[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y); st.append((y, iter(succ[y]))); break
                else:
                    order.append(n); st.pop()
        dfs(self.entry)
        rpo = order[::-1]; idx = {x: k for k, x in enumerate(rpo)}
        preds = {x: [] for x in rpo}
        for x in rpo:
            for y in succ[x]: preds[y].append(x)
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for x in rpo[1:]:
                n = None
                for p in preds[x]:
                    if p in idom:
                        if n is None: n = p
                        else:
                            a, c = p, n
                            while a != c:
                                while idx[a] > idx[c]: a = idom[a]
                                while idx[c] > idx[a]: c = idom[c]
                            n = a
                if idom.get(x) != n: idom[x] = n; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == self.entry: return False
                b = idom[b]
        loops = {}
        for x in rpo:
            for y in succ[x]:
                if dom(y, x):
                    body = loops.setdefault(y, {y}); st = [x]
                    while st:
                        n = st.pop()
                        if n not in body:
                            body.add(n); st += preds[n]
        self.loops = loops
        self.rpo = rpo
        # order headers by nesting for naming
        self.loopname = {h: "loop%d" % (k + 1) for k, h in enumerate(sorted(loops, key=lambda h: idx[h]))}

DBG = re.compile(r', !(\w[\w.]*) !(\d+)')
def parse_ins(l):
    dbg = None
    m = re.search(r', !dbg !(\d+)', l)
    if m: dbg = int(m[1])
    k = l.find(', !dbg'); 
    if k >= 0 and 'switch' not in l: l = l[:k]
    k = l.find(', !llvm')
    if k >= 0: l = l[:k]
    l = re.sub(r', ![a-z]\w* ![\d]+', '', l)
    p = P_(toks(l))
    res = None
    if p.peek()[0] == '%' and p.peek(1) == '=':
        res = p.next()[1:]; p.next()
    p.attrs()
    op = p.next()
    if op == 'call':
        p.attrs(); rt = p.type(); p.attrs()
        # rt may be a function type
        cal = p.value('ptr'); p.need('('); args = []
        if not p.eat(')'):
            while True:
                if p.peek() == 'metadata':
                    while p.peek() not in (',', ')'): p.next()
                else:
                    args.append(p.tv())
                if p.eat(')'): break
                p.need(',')
        if isinstance(rt, tuple) and rt[0] == 'fn': rt = rt[1]
        return Ins('call', res, rt, (cal, args), dbg)
    if op == 'br':
        if p.eat('label'): return Ins('br', None, None, (p.next()[1:].strip('"'),), dbg)
        t = p.type(); v = p.value(t); p.need(','); p.need('label'); a = p.next()[1:]; p.need(','); p.need('label'); b = p.next()[1:]
        return Ins('br', None, None, (v, a.strip('"'), b.strip('"')), dbg)
    if op == 'switch':
        t = p.type(); v = p.value(t); p.need(','); p.need('label'); d = p.next()[1:]; p.need('['); cs = []
        while not p.eat(']'):
            tt = p.type(); cv = p.value(tt); p.need(','); p.need('label'); cs.append((cv[1], p.next()[1:]))
        return Ins('switch', None, t, ((t, v), d, cs), dbg)
    if op == 'ret':
        t = p.type()
        return Ins('ret', None, t, (None if t == 'void' else p.value(t),), dbg)
    if op == 'unreachable': return Ins('unreachable', None, None, (), dbg)
    if op == 'phi':
        t = p.type(); inc = {}
        while True:
            p.need('['); v = p.value(t); p.need(','); b = p.next()[1:]; p.need(']'); inc[b.strip('"')] = v
            if not p.eat(','): break
        return Ins('phi', res, t, (inc,), dbg)
    if op == 'alloca':
        t = p.type(); n = ('int', 1)
        if p.eat(',') :
            if p.peek() != 'align':
                tt = p.type(); n = p.value(tt)
        return Ins('alloca', res, t, (n,), dbg)
    if op == 'load':
        p.attrs(); t = p.type(); p.need(','); a = p.tv()
        return Ins('load', res, t, (a,), dbg)
    if op == 'store':
        p.attrs(); v = p.tv(); p.need(','); a = p.tv()
        return Ins('store', None, v[0], (v, a), dbg)
    if op == 'getelementptr':
        p.attrs(); t = p.type(); p.need(','); ops = [p.tv()]
        while p.eat(','): ops.append(p.tv())
        return Ins('gep', res, t, (ops,), dbg)
    if op in ('icmp', 'fcmp'):
        pr = p.next(); t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
        return Ins('icmp', res, t, (pr, a, b), dbg)
    if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
        p.attrs(); t = p.type(); v = p.value(t); p.need('to'); t2 = p.type()
        return Ins(op, res, t2, (t, v), dbg)
    if op == 'select':
        c = p.tv(); p.need(','); a = p.tv(); p.need(','); b = p.tv()
        return Ins('select', res, a[0], (c, a, b), dbg)
    if op == 'extractvalue':
        a = p.tv(); p.need(','); return Ins(op, res, None, (a, int(p.next())), dbg)
    if op == 'insertvalue':
        a = p.tv(); p.need(','); v = p.tv(); p.need(','); return Ins(op, res, a[0], (a, v, int(p.next())), dbg)
    if op in ('add','sub','mul','sdiv','udiv','srem','urem','and','or','xor','shl','lshr','ashr'):
        p.attrs(); t = p.type(); a = p.value(t); p.need(','); b = p.value(t)
        return Ins('bin', res, t, (op, a, b), dbg)
    if op == 'freeze':
        return Ins('freeze', res, None, (p.tv(),), dbg)
    return Ins('other', res, None, (l,), dbg)

class Module:
    """all translation units of one variant; statics are qualified by unit on clash"""
    def __init__(self, files):
        self.fns, self.statics, self.globals, self.types = {}, {}, {}, {}
        self.decl = {}
        self.lines = {}
        for f, path in files.items(): self._load(f, path)
    def _load(self, f, path):
        txt = open(path, encoding="latin1").read().split("\n")
        i = 0
        unit = Unit(f, self)
        loc = {}
        while i < len(txt):
            l = txt[i]; i += 1
            if l.startswith('define'):
                j = i
                while txt[j] != '}': j += 1
                m = re.match(r'define (.*?)@("[^"]+"|[\w.$]+)\((.*)$', l)
                head, name = m[1], m[2].strip('"')
                internal = 'internal' in head.split()
                p = P_(toks(m[3]))
                params = []; va = False
                if not p.eat(')'):
                    while True:
                        if p.eat('...'): va = True
                        else:
                            t = p.type(); p.attrs(); params.append((t, p.next()[1:]))
                        if p.eat(')'): break
                        p.need(',')
                hp = P_(toks(re.sub(r'\b(dso_local|internal|hidden|noundef|zeroext|signext|noalias|nonnull)\b', ' ', head)))
                rt = hp.type()
                fn = Fn(name, rt, params, va, txt[i:j], unit, False)
                fn.file = f
                fn.internal = internal
                unit.fns[name] = fn
                if not internal: self.fns[name] = fn
                else: self.statics.setdefault(name, []).append(fn)
                i = j + 1
            elif l.startswith('@'):
                m = re.match(r'@("[^"]+"|[\w.$]+) = (.*)$', l)
                name, rest = m[1].strip('"'), m[2]
                g = Glob(name, rest, unit)
                unit.globs[name] = g
                if not g.local and g.defined: self.globals[name] = g
            elif l.startswith('%'):
                m = re.match(r'(%\S+) = type (.*)$', l)
                if m[2].strip() != 'opaque':
                    unit.types[m[1]] = P_(toks(m[2])).type()
            elif l.startswith('declare'):
                m = re.search(r'@([\w.$]+)\(', l)
                ma = re.search(r'\) (?:local_unnamed_addr )?.*?#(\d+)', l)
                if m: unit.decl[m[1]] = ma and ma[1]
            elif l.startswith('attributes'):
                m = re.match(r'attributes #(\d+) = \{(.*)\}', l)
                if ' noreturn ' in m[2] + ' ': unit.noreturn.add(m[1])
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', l)
                if m: unit.locs[int(m[1])] = int(m[2])
    def fn(self, name, file=None):
        if name in self.fns: return self.fns[name]
        s = self.statics.get(name, [])
        if file: s = [x for x in s if x.file == file]
        if len(s) == 1: return s[0]
        return None

class Unit:
    def __init__(self, f, module):
        self.file, self.module = f, module
        self.fns, self.globs, self.types, self.decl, self.locs = {}, {}, {}, {}, {}
        self.noreturn = set()
    def find(self, name):
        return self.fns.get(name) or self.module.fns.get(name)
    def glob(self, name):
        g = self.globs.get(name)
        if g is not None and (g.local or g.defined): return g
        return self.module.globals.get(name) or g
    def line(self, dbg): return self.locs.get(dbg)
    # layout
    def resolve(self, t):
        while isinstance(t, tuple) and t[0] == 'named': t = self.types[t[1]]
        return t
    def size(self, t):
        t = self.resolve(t)
        if t == 'ptr': return 8
        if t == 'double': return 8
        if t == 'float': return 4
        if t[0] == 'i': return max(1, (t[1] + 7) // 8)
        if t[0] == 'arr': return t[1] * self.size(t[2])
        if t[0] == 'st':
            o = 0
            for x in t[1]:
                a = self.align(x); o = (o + a - 1) // a * a + self.size(x)
            a = self.align(t); return (o + a - 1) // a * a
        raise ToolError("size of %s" % (t,))
    def align(self, t):
        t = self.resolve(t)
        if t in ('ptr', 'double'): return 8
        if t == 'float': return 4
        if t[0] == 'i': return min(8, max(1, (t[1] + 7) // 8))
        if t[0] == 'arr': return self.align(t[2])
        if t[0] == 'st': return max([self.align(x) for x in t[1]] or [1])
        raise ToolError("align of %s" % (t,))
    def field(self, t, k):
        t = self.resolve(t); o = 0
        for i, x in enumerate(t[1]):
            a = self.align(x); o = (o + a - 1) // a * a
            if i == k: return o, x
            o += self.size(x)
        raise ToolError("field")

class Glob:
    def __init__(self, name, rest, unit):
        self.name, self.unit, self.rest = name, unit, rest
        w = rest.split()
        self.local = 'private' in w[:4] or 'internal' in w[:4]
        self.defined = 'external' not in w[:3]
        self.const = 'constant' in w[:6]
        self._init = None
        self._ty = None
    def _parse(self):
        m = re.search(r'\b(?:global|constant)\s+(.*)$', self.rest)
        p = P_(toks(m[1]))
        self._ty = p.type()
        if self.defined:
            self._init = p.value(self._ty)
    @property
    def ty(self):
        if self._ty is None: self._parse()
        return self._ty
    @property
    def init(self):
        if self._ty is None: self._parse()
        return self._init
