"""Symbolic execution of Python code by proxy values: the code runs as it is on strings, bytes and integers whose elements are Z3 terms; wherever it
takes a decision which depends on them both outcomes are decided by Z3 and followed (by running again with the decision taken), until none is left."""
import z3, sys, time
W = 8                       # a character: one of 256 code points (Latin-1)
class Sticky:                             # code under test may catch everything: the first of these counts all the same
    def __init__(self, *a):
        super().__init__(*a)
        if E is not None and E.dead is None: E.dead = self
class Cut(Sticky, BaseException): pass            # assumption not satisfiable
class Limit(Sticky, Exception): pass              # not decided: an error of the check, never a pass
class Unsupported(Sticky, Exception): pass
class Violation(Sticky, BaseException): pass
class Engine:
    dead = None
    def __init__(self, limit_s):
        self.stack = [[]]; self.paths = self.cuts = self.queries = self.checks = self.proved = self.forks = self.domq = 0; self.tsolve = 0.0; self.t0 = time.time(); self.limit = limit_s
        self.cover = {}; self.viol = []; self.samples = []; self.cur = None; self.funcs = set(); self.msgs = {}
    # ---- one path
    def begin(self, prefix): TOK.clear(); TOKR.clear(); self.pre = prefix; self.i = 0; self.dec = []; self.s = z3.SolverFor('QF_BV'); self.s.set('rlimit', 50000000); self.nv = 0; self.dom = {}; self.tv = {}; self.dirty = set(); self.related = set(); self.model = None; self.dead = None
    def sat(self, *a):
        self.flush(); t = time.time(); r = self.s.check(*a); self.tsolve += time.time() - t; self.queries += 1
        if r == z3.unknown: raise Limit('solver gave up')
        return r == z3.sat
    def var(self, name, w=W):
        v = z3.BitVec('%s_%d' % (name, self.nv), w)
        if w == 8: v = Ch(self.nv, IDENT, v); self.dom[self.nv] = ALL; self.tv[self.nv] = v
        self.nv += 1; return v
    def flush(self):
        """the solver learns what has become known about single characters"""
        for k in self.dirty: self.s.add(Dom(self.tv[k], self.dom[k]).z())
        self.dirty.clear()
    def choose(self, n, name=''):   # a case split which involves no term (bounded histories)
        if self.i < len(self.pre): d = self.pre[self.i]
        else:
            d = 0
            for k in range(n - 1, 0, -1): self.stack.append(self.dec + [k])
        self.i += 1; self.dec.append(d); return d
    def take(self, c):
        """c holds from here on"""
        if isinstance(c, Dom): k = c.v.k; self.dom[k] &= c.m; self.dirty.add(k); return
        for k in vars_of(c): self.related.add(k)
        self.s.add(c)
    def feasible(self, c):
        """(can c hold, can it fail)"""
        if isinstance(c, Dom):
            k = c.v.k; d = self.dom[k]; t = d & c.m != 0; f = d & ~c.m != 0
            if not t or not f or k not in self.related: self.domq += 1; return t, f
        return self.sat(zt(c)), self.sat(zt(NOT(c)))
    def branch(self, c):
        c = norm_cond(c)
        if isinstance(c, bool): return c
        if self.i < len(self.pre): d = self.pre[self.i]
        else:
            t, f = self.feasible(c)
            if not t and not f: raise Cut()
            d = t
            if t and f: self.forks += 1; self.stack.append(self.dec + [False])
        self.i += 1; self.dec.append(d); self.take(c if d else NOT(c)); return d
    def assume(self, c):
        c = norm_cond(c)
        if isinstance(c, bool):
            if not c: raise Cut()
            return
        if self.i >= len(self.pre) and not self.feasible(c)[0]: raise Cut()
        self.take(c)
    def concretise(self, t):
        if isinstance(t, Ch):
            vs = sorted({t.vals[i] for i in range(256) if self.dom[t.k] >> i & 1})
            if len(vs) > 64: raise Limit('a character is used concretely which has too many values')
            for x in vs[:-1]:
                if self.branch(ceq(t, x)): return x
            self.assume(ceq(t, vs[-1])); return vs[-1]
        t = z3.simplify(t)
        if z3.is_bv_value(t): return t.as_long()
        for _ in range(64):
            if self.i < len(self.pre): v = self.pre[self.i][1]; eq = self.pre[self.i][2]
            else:
                if not self.sat(): raise Cut()
                v = self.s.model().eval(t, True).as_long(); eq = True
                if self.sat(t != v): self.stack.append(self.dec + [('v', v, False)])
            self.i += 1; self.dec.append(('v', v, eq)); self.take(t == v if eq else t != v)
            if eq: return v
        raise Limit('a value is used concretely which has too many')
    def check(self, c, msg):
        self.checks += 1; self.msgs[msg] = self.msgs.get(msg, 0) + 1; c = norm_cond(c)
        if isinstance(c, bool):
            if c: return
            self.sat(); self.model = self.s.model(); raise Violation(msg)
        if not self.sat(zt(NOT(c))): self.proved += 1; return
        self.model = self.s.model(); raise Violation(msg)
    def reached(self, name): self.cover[name] = self.cover.get(name, 0) + 1
    def run(self, f, split=0):
        """f() is executed once per path; returns what it returns through self.done(result, model)"""
        while self.stack:
            if time.time() - self.t0 > self.limit: raise Limit('time')
            if len(self.viol) >= 6: return
            if split and len(self.stack) >= split: return
            self.begin(self.stack.pop(0 if split else -1))
            try: f.path()
            except (Cut, Violation) as v:
                if self.dead is not None: v = self.dead
                if isinstance(v, (Limit, Unsupported)): raise v
                if isinstance(v, Cut): self.cuts += 1; continue
                self.viol.append((str(v), f.concrete(self.model))); self.paths += 1; continue
            self.paths += 1
            if len(self.samples) < 4000 and (self.paths < 40 or self.paths % 37 == 0) and self.sat(): self.samples.append(f.concrete(self.s.model()))
E = None
def set_engine(e):
    global E; E = e
ALL = (1 << 256) - 1; IDENT = tuple(range(256))
class Ch:
    """a symbolic character: a variable, what has been made of each of its values (vals), and the same as a term"""
    __slots__ = ('k', 'vals', 't')
    def __init__(self, k, vals, t): self.k = k; self.vals = vals; self.t = t
_mask = {}
def mask_of(vals, key, fn):
    q = (id(vals), key); r = _mask.get(q)
    if r is None:
        r = 0
        for i, x in enumerate(vals):
            if fn(x): r |= 1 << i
        _mask[q] = r; KEEP.append(vals)
    return r
KEEP = []
class Dom:
    """a condition on a single character: the set of the values of its variable"""
    __slots__ = ('v', 'm')
    def __init__(self, v, m): self.v = v; self.m = m
    def z(self):
        base = E.tv[self.v.k].t; q = (self.v.k, base.get_id(), self.m); r = _zc.get(q)
        if r is None:
            l = []; i = 0
            while i < 256:
                if self.m >> i & 1:
                    j = i
                    while j < 255 and self.m >> (j + 1) & 1: j += 1
                    l.append(base == i if i == j else z3.BoolVal(True) if (i, j) == (0, 255) else z3.And(z3.UGE(base, i), z3.ULE(base, j))); i = j
                i += 1
            r = z3.Or(*l) if len(l) > 1 else l[0] if l else z3.BoolVal(False); _zc[q] = r; KEEP.append(base)
        return r
_zc = {}
def zt(c): return c.z() if isinstance(c, Dom) else z3.BoolVal(c) if isinstance(c, bool) else c
def term(x): return x.t if isinstance(x, Ch) else x
_vo = {}
def vars_of(c):
    k = c.get_id(); r = _vo.get(k)
    if r is None:
        r = set(); st = [c]; seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                r.add(int(str(x).rsplit('_', 1)[1]))
            st += x.children()
        _vo[k] = r; KEEP.append(c)
    return r
def norm_cond(c):
    if isinstance(c, (bool, Dom)):
        if isinstance(c, Dom):
            d = E.dom[c.v.k]
            if d & c.m == 0: return False
            if d & ~c.m == 0: return True
        return c
    if z3.is_true(c): return True
    if z3.is_false(c): return False
    c = z3.simplify(c)
    return True if z3.is_true(c) else False if z3.is_false(c) else c
def _comb(l, conj):
    doms = {}; zs = []
    for x in l:
        if isinstance(x, bool):
            if x != conj: return not conj
        elif isinstance(x, Dom):
            k = x.v.k
            doms[k] = Dom(x.v, x.m if k not in doms else doms[k].m & x.m if conj else doms[k].m | x.m)
        else: zs.append(x)
    out = []
    for k, x in doms.items():
        d = E.dom[k]
        if d & x.m == 0:
            if conj: return False
        elif d & ~x.m == 0:
            if not conj: return True
        else: out.append(x)
    if not zs and not out: return conj
    if not zs and len(out) == 1: return out[0]
    if not out and len(zs) == 1: return zs[0]
    return (z3.And if conj else z3.Or)(*[zt(x) for x in out + zs])
def AND(l): return _comb(l, True)
def OR(l): return _comb(l, False)
def NOT(c): return not c if isinstance(c, bool) else Dom(c.v, ALL & ~c.m) if isinstance(c, Dom) else z3.Not(c)
class SymBool:
    def __init__(self, t): self.t = t
    def __bool__(self): return E.branch(self.t)
def mkbool(t): return t if isinstance(t, bool) else SymBool(t)
# ---- predicates and maps over characters, tabulated from what Python says about each character
def table_pred(key, fn):
    def p(c):
        if isinstance(c, int): return bool(fn(chr(c)))
        return Dom(c, mask_of(c.vals, key, lambda x: fn(chr(x))))
    return p
_maps = {}
def table_map(key, fn):
    def m(c):
        if isinstance(c, int): return [ord(x) for x in fn(chr(c))]
        bad = mask_of(c.vals, ('bad', key), lambda x: not (len(fn(chr(x))) == 1 and ord(fn(chr(x))) < 256))
        if bad and E.branch(Dom(c, bad)): raise Unsupported('case mapping outside Latin-1')
        q = (id(c.vals), key); vals = _maps.get(q)
        if vals is None: vals = _maps[q] = tuple(ord(fn(chr(x))) if len(fn(chr(x))) == 1 and ord(fn(chr(x))) < 256 else x for x in c.vals); KEEP.append(c.vals)
        return [remap(c, vals)]
    return m
def remap(c, vals):
    base = E.tv[c.k].t; q = (base.get_id(), id(vals)); t = _maps.get(q)
    if t is None:
        t = base; i = 0
        while i < 256: # runs with the same difference
            d = (vals[i] - i) % 256; j = i
            while j < 255 and (vals[j + 1] - j - 1) % 256 == d: j += 1
            if d: t = z3.If(z3.And(z3.UGE(base, i), z3.ULE(base, j)), base + d, t)
            i = j + 1
        _maps[q] = t; KEEP.append((base, vals))
    return Ch(c.k, vals, t)
def ceq(a, b):
    if isinstance(a, int):
        if isinstance(b, int): return a == b
        a, b = b, a
    if isinstance(a, Ch):
        if isinstance(b, int): return Dom(a, mask_of(a.vals, ('eq', b), lambda x: x == b))
        if isinstance(b, Ch) and a.k == b.k: return Dom(a, sum(1 << i for i in range(256) if a.vals[i] == b.vals[i]))
    return term(a) == term(b)
# ---- strings. The underlying str consists of tokens (private use characters), so that a string formatted or joined by C code keeps its characters.
TOK = {}; TOKR = {}
def tok(t):
    if isinstance(t, int): return chr(t)
    k = (t.k, id(t.vals))
    if k not in TOKR: c = chr(0xF0000 + len(TOK)); TOK[c] = t; TOKR[k] = c
    return TOKR[k]
def chars(s):
    if isinstance(s, SymStr): return s.c
    if isinstance(s, str): return [TOK[c] if c in TOK else ord(c) for c in s]
    raise TypeError('a string is expected, not %r' % type(s))
def S(l):
    return ''.join(map(chr, l)) if all(isinstance(x, int) for x in l) else SymStr(l)
SPACE = lambda c: c.isspace()
class SymStr(str):
    def __new__(cls, c):
        o = str.__new__(cls, ''.join(tok(x) for x in c)); o.c = list(c); return o
    def __len__(self): return len(self.c)
    def __bool__(self): return bool(self.c)
    def __hash__(self): return hash(str(self.concrete()))
    def concrete(self): return ''.join(chr(x if isinstance(x, int) else E.concretise(x)) for x in self.c)
    def __eq__(self, o):
        if not isinstance(o, str): return False
        b = chars(o); return mkbool(len(b) == len(self.c) and AND([ceq(x, y) for x, y in zip(self.c, b)]))
    def __ne__(self, o):
        r = self.__eq__(o); return not r if isinstance(r, bool) else mkbool(NOT(r.t))
    def _cmp(self, *a): raise Unsupported('order of strings')
    __lt__ = __le__ = __gt__ = __ge__ = _cmp
    def __getitem__(self, i):
        if isinstance(i, slice): return S(self.c[i])
        return S([self.c[i]])
    def __iter__(self): return iter([S([x]) for x in self.c])
    def __reversed__(self): return iter([S([x]) for x in self.c[::-1]])
    def __add__(self, o): return S(self.c + chars(o))
    def __radd__(self, o): return S(chars(o) + self.c)
    def __mul__(self, n): return S(self.c * n)
    __rmul__ = __mul__
    def __mod__(self, o): raise Unsupported('%')
    def __str__(self): return self
    def __repr__(self): return "'" + str.__str__(self) + "'"
    def __format__(self, f): return format(str.__str__(self), f)
    def __contains__(self, o): return self.find(o) >= 0
    def _at(self, i, b): return E.branch(AND([ceq(x, y) for x, y in zip(self.c[i:i + len(b)], b)])) if i + len(b) <= len(self.c) else False
    def find(self, o, st=0, en=None):
        b = chars(o); en = len(self.c) if en is None else en
        for i in range(st, en - len(b) + 1):
            if self._at(i, b): return i
        return -1
    def rfind(self, o):
        b = chars(o)
        for i in range(len(self.c) - len(b), -1, -1):
            if self._at(i, b): return i
        return -1
    def index(self, o, *a):
        i = self.find(o, *a)
        if i < 0: raise ValueError('substring not found')
        return i
    def count(self, o): return len(self.split(o)) - 1
    def startswith(self, o, st=0):
        if isinstance(o, tuple): return any(self.startswith(x, st) for x in o)
        return self._at(st, chars(o))
    def endswith(self, o):
        if isinstance(o, tuple): return any(self.endswith(x) for x in o)
        b = chars(o); return len(b) <= len(self.c) and self._at(len(self.c) - len(b), b)
    def removeprefix(self, o): return self[len(o):] if self.startswith(o) else self
    def removesuffix(self, o): return self[:len(self.c) - len(o)] if o and self.endswith(o) else self
    def _in(self, c, what):
        if what is None: return E.branch(table_pred('space', SPACE)(c))
        return E.branch(OR([ceq(c, x) for x in chars(what)]))
    def lstrip(self, what=None):
        i = 0
        while i < len(self.c) and self._in(self.c[i], what): i += 1
        return S(self.c[i:])
    def rstrip(self, what=None):
        i = len(self.c)
        while i and self._in(self.c[i - 1], what): i -= 1
        return S(self.c[:i])
    def strip(self, what=None):
        r = self.lstrip(what); return r.rstrip(what)
    def split(self, sep=None, maxsplit=-1):
        r = []; cur = []; i = 0; n = len(self.c)
        if sep is None:
            while i < n:
                if self._in(self.c[i], None):
                    if cur:
                        r.append(S(cur)); cur = []
                elif not cur and len(r) == maxsplit: r.append(S(self.c[i:]).rstrip()); return r
                else: cur.append(self.c[i])
                i += 1
            return r + ([S(cur)] if cur else [])
        b = chars(sep)
        while i < n:
            if (maxsplit < 0 or len(r) < maxsplit) and self._at(i, b): r.append(S(cur)); cur = []; i += len(b)
            else: cur.append(self.c[i]); i += 1
        return r + [S(cur)]
    def partition(self, sep):
        i = self.find(sep); return (self[:i], sep, self[i + len(sep):]) if i >= 0 else (self, '', '')
    def rpartition(self, sep):
        i = self.rfind(sep); return (self[:i], sep, self[i + len(sep):]) if i >= 0 else ('', '', self)
    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit != 1: raise Unsupported('rsplit')
        a, s, b = self.rpartition(sep); return [a, b] if s else [b]
    def splitlines(self, keepends=False): raise Unsupported('splitlines')
    def replace(self, a, b, n=-1): return S([c for k, p in enumerate(self.split(a, n)) for c in (chars(b) if k else []) + chars(p)])
    def join(self, it):
        r = []
        for k, x in enumerate(it): r += (self.c if k else []) + chars(x)
        return S(r)
    def _map(self, k, fn): m = table_map(k, fn); return S([y for x in self.c for y in m(x)])
    def lower(self): return self._map('lower', lambda c: c.lower())
    def casefold(self): return self._map('casefold', lambda c: c.casefold())
    def upper(self): return self._map('upper', lambda c: c.upper())
    def _all(self, k, fn): p = table_pred(k, fn); return bool(self.c) and E.branch(AND([p(x) for x in self.c]))
    def isspace(self): return self._all('space', SPACE)
    def isalnum(self): return self._all('alnum', lambda c: c.isalnum())
    def isalpha(self): return self._all('alpha', lambda c: c.isalpha())
    def isdigit(self): return self._all('digit', lambda c: c.isdigit())
    def isascii(self): return E.branch(AND([table_pred('ascii', lambda c: c.isascii())(x) for x in self.c]))
    def encode(self, *a): raise Unsupported('encode')
    def translate(self, t): return S([y for x in self.c for y in ([x] if not isinstance(x, int) else [ord(c) for c in chr(x).translate(t)])]) if not any(E.branch(ceq(x, k)) for x in self.c if not isinstance(x, int) for k in t) else S([y for x in self.c for y in [ord(c) for c in chr(x if isinstance(x, int) else E.concretise(x)).translate(t)]])
for _n in ('capitalize', 'center', 'expandtabs', 'format', 'format_map', 'isdecimal', 'isidentifier', 'islower', 'isnumeric', 'isprintable', 'istitle', 'isupper', 'ljust', 'rindex', 'rjust', 'swapcase', 'title', 'zfill'):
    def _u(self, *a, _n=_n, **k): raise Unsupported('str.' + _n)
    setattr(SymStr, _n, _u)
# ---- integers
class SymInt:
    def __init__(self, t): self.t = t       # a 32-bit term, unsigned
    def _o(self, o): return o.t if isinstance(o, SymInt) else z3.BitVecVal(o, 32) if isinstance(o, int) and 0 <= o < 2 ** 32 else None
    def __eq__(self, o):
        b = self._o(o); return False if b is None else mkbool(z3.simplify(self.t == b))
    def __ne__(self, o):
        r = self.__eq__(o); return not r if isinstance(r, bool) else mkbool(z3.Not(r.t))
    def _c(self, o, f, neg):
        b = self._o(o); return neg if b is None and isinstance(o, int) and o < 0 else mkbool(f(self.t, b))
    def __lt__(self, o): return self._c(o, z3.ULT, False)
    def __le__(self, o): return self._c(o, z3.ULE, False)
    def __gt__(self, o): return self._c(o, z3.UGT, True)
    def __ge__(self, o): return self._c(o, z3.UGE, True)
    def __bool__(self): return E.branch(self.t != 0)
    def __index__(self): return E.concretise(self.t)
    __int__ = __index__
    def __hash__(self): return hash(E.concretise(self.t))
    def __and__(self, o): return I(self.t & o) if isinstance(o, int) else I(self.t & o.t)
    __rand__ = __and__
    def __rshift__(self, o): return I(z3.LShR(self.t, o))
    def __add__(self, o): return int(self) + o
    __radd__ = __add__
    def __sub__(self, o): return int(self) - o
    def __rsub__(self, o): return o - int(self)
    def __mul__(self, o): return int(self) * o
    __rmul__ = __mul__
    def __floordiv__(self, o): return int(self) // o
    def __format__(self, f): return '?'
    __repr__ = __str__ = lambda self: '?'
def I(t):
    t = z3.simplify(t); return t.as_long() if z3.is_bv_value(t) else SymInt(t)
# ---- bytes
class SymBytes(bytes):
    def __new__(cls, b): o = bytes.__new__(cls, len(b)); o.b = list(b); return o
    def __len__(self): return len(self.b)
    def __bool__(self): return bool(self.b)
    def __getitem__(self, i):
        if isinstance(i, slice): return B(self.b[i])
        x = self.b[i]; return x if isinstance(x, int) else I(z3.ZeroExt(24, term(x)))
    def __iter__(self): return iter([self[i] for i in range(len(self.b))])
    def __add__(self, o): return B(self.b + bl(o))
    def __radd__(self, o): return B(bl(o) + self.b)
    def __eq__(self, o):
        if not isinstance(o, bytes): return False
        return mkbool(len(o) == len(self.b) and AND([ceq(x, y) for x, y in zip(self.b, bl(o))]))
    def __ne__(self, o):
        r = self.__eq__(o); return not r if isinstance(r, bool) else mkbool(NOT(r.t))
    def __hash__(self): raise Unsupported('hash of bytes')
    def decode(self, enc='utf-8', errors='strict'):
        for x in self.b:
            if not isinstance(x, (int, Ch)): raise Unsupported('text made of numbers')
            if E.branch(table_pred('high', lambda c: ord(c) > 127)(x)): raise Unsupported('text other than ASCII in a message')
        return S(self.b)
    def rstrip(self, w=None):
        i = len(self.b); 
        while i and E.branch(OR([ceq(self.b[i - 1], y) for y in (bl(w) if w is not None else b' \t\n\r\x0b\f')])): i -= 1
        return B(self.b[:i])
    def hex(self): raise Unsupported('hex')
def bl(o): return o.b if isinstance(o, SymBytes) else list(o)
def B(l):
    l = [x if isinstance(x, (int, Ch)) else z3.simplify(x) for x in l]; l = [x.as_long() if not isinstance(x, (int, Ch)) and z3.is_bv_value(x) else x for x in l]
    return bytes(l) if all(isinstance(x, int) for x in l) else SymBytes(l)
class Struct:
    import struct as _s; error = _s.error
    @staticmethod
    def calcsize(f): return Struct._s.calcsize(f)
    @staticmethod
    def pack(f, *a): return Struct._s.pack(f, *[int(x) if isinstance(x, SymInt) else x for x in a])
    @staticmethod
    def unpack_from(f, b, offset=0): return Struct.unpack(f, b[offset:offset + Struct._s.calcsize(f)])
    @staticmethod
    def iter_unpack(f, b): n = Struct._s.calcsize(f); return iter([Struct.unpack(f, b[i:i + n]) for i in range(0, len(b), n)])
    @staticmethod
    def unpack(f, b):
        if not isinstance(b, SymBytes): return Struct._s.unpack(f, b)
        g = f.decode() if isinstance(f, bytes) else f; order = ''
        if g[:1] in '<=@': order, g = g[0], g[1:]
        import re; g = re.sub(r'(\d+)([IHB])', lambda m: m[2] * int(m[1]), g)
        if g.strip('IHB'): raise Unsupported('struct ' + f)
        if Struct._s.calcsize(order + g) != len(b): raise Struct._s.error('unpack requires a buffer of %d bytes' % Struct._s.calcsize(order + g))
        r = []; i = 0
        for c in g:
            n = {'I': 4, 'H': 2, 'B': 1}[c]
            if order in ('', '@'): i = (i + n - 1) // n * n
            t = [term(x) if not isinstance(x, int) else z3.BitVecVal(x, 8) for x in b.b[i:i + n]]; i += n
            r.append(I(z3.ZeroExt(32 - 8 * n, z3.Concat(*t[::-1]) if n > 1 else t[0]) if n < 4 else z3.Concat(*t[::-1])))
        return tuple(r)
# ---- re, fnmatch
class Re:
    """Python's re on symbolic strings: patterns which are sequences of character sets with repeat counts (others: unsupported)"""
    import re as _r
    def __getattr__(self, n): return getattr(self._r, n)
    @staticmethod
    def items(p, flags=0):
        import re._parser as P
        out = []
        t = P.parse(p, flags)
        def cs(op, av):
            import re
            o = str(op)
            if o == 'LITERAL': return table_pred(('lit', av), lambda c: ord(c) == av)
            if o == 'NOT_LITERAL': return table_pred(('nlit', av), lambda c: ord(c) != av)
            if o == 'ANY': return table_pred('any', lambda c: c != '\n')
            if o == 'IN':
                # evaluated by Python itself, one character at a time
                neg = bool(av and str(av[0][0]) == 'NEGATE'); key = ('in', repr(av), flags)
                def f(c):
                    r = False
                    for k, v in av:
                        k = str(k)
                        if k == 'NEGATE': continue
                        if k == 'LITERAL': r |= ord(c) == v
                        elif k == 'RANGE': r |= v[0] <= ord(c) <= v[1]
                        elif k == 'CATEGORY':
                            cls = {'CATEGORY_DIGIT': r'\d', 'CATEGORY_NOT_DIGIT': r'\D', 'CATEGORY_SPACE': r'\s', 'CATEGORY_NOT_SPACE': r'\S', 'CATEGORY_WORD': r'\w', 'CATEGORY_NOT_WORD': r'\W'}[str(v)]
                            r |= re.fullmatch(cls, c, flags) is not None
                        else: raise Unsupported('re ' + k)
                    return r != neg
                return table_pred(key, f)
            raise Unsupported('re ' + o)
        if t.state.flags & (Re._r.I | Re._r.M | Re._r.S): raise Unsupported('re flags')
        for op, av in t:
            if str(op) == 'MAX_REPEAT':
                lo, hi, sub = av
                if len(sub) != 1: raise Unsupported('re group')
                out.append((cs(*sub[0]), int(lo), 10 ** 6 if hi == P.MAXREPEAT else int(hi)))
            elif str(op) == 'AT': out.append((str(av), 0, 0))
            else: out.append((cs(op, av), 1, 1))
        return out
    @staticmethod
    def at(items, c, i):
        if not items: return i
        p, lo, hi = items[0]
        if isinstance(p, str):
            ok = i == 0 if p in ('AT_BEGINNING', 'AT_BEGINNING_STRING') else i == len(c) if p == 'AT_END_STRING' else None
            if p == 'AT_END': ok = i == len(c) or i == len(c) - 1 and E.branch(ceq(c[i], 10))
            if ok is None: raise Unsupported('re ' + p)
            return Re.at(items[1:], c, i) if ok else None
        n = 0
        while n < hi and i + n < len(c) and E.branch(p(c[i + n])): n += 1
        while n >= lo:
            r = Re.at(items[1:], c, i + n)
            if r is not None: return r
            n -= 1
        return None
    def sub(self, p, rep, s, count=0, flags=0):
        if isinstance(p, Pattern): p, flags = p.p, p.flags
        if not isinstance(s, SymStr): return self._r.sub(p, rep, s, count, flags)
        if not isinstance(rep, str) or '\\' in rep: raise Unsupported('re.sub')
        it = self.items(p, flags); c = s.c; out = []; i = n = 0
        while i <= len(c):
            e = self.at(it, c, i) if not count or n < count else None
            if e is not None and e == i: raise Unsupported('empty match')
            if e is not None: out += chars(rep); i = e; n += 1
            else:
                if i < len(c): out.append(c[i])
                i += 1
        return S(out)
    def _m(self, p, s, flags, full, anywhere):
        if isinstance(p, Pattern): p, flags = p.p, p.flags
        it = self.items(p, flags)
        if full: it = it + [('AT_END_STRING', 0, 0)]
        for i in range(len(s.c) + 1 if anywhere else 1):
            e = self.at(it, s.c, i)
            if e is not None: return Match(s, i, e)
    def match(self, p, s, flags=0): return self._m(p, s, flags, 0, 0) if isinstance(s, SymStr) else self._r.match(p.p if isinstance(p, Pattern) else p, s, flags)
    def fullmatch(self, p, s, flags=0): return self._m(p, s, flags, 1, 0) if isinstance(s, SymStr) else self._r.fullmatch(p.p if isinstance(p, Pattern) else p, s, flags)
    def search(self, p, s, flags=0): return self._m(p, s, flags, 0, 1) if isinstance(s, SymStr) else self._r.search(p.p if isinstance(p, Pattern) else p, s, flags)
    def compile(self, p, flags=0): return Pattern(p, flags)
    def split(self, p, s, *a, **k):
        if isinstance(s, SymStr): raise Unsupported('re.split')
        return self._r.split(p.p if isinstance(p, Pattern) else p, s, *a, **k)
class Match:
    def __init__(self, s, a, b): self.s = s; self.a = a; self.b = b
    def start(self): return self.a
    def end(self): return self.b
    def span(self): return self.a, self.b
    def group(self, n=0):
        if n: raise Unsupported('group')
        return self.s[self.a:self.b]
RE = Re()
class Pattern:
    def __init__(self, p, flags): self.p = p; self.flags = flags
    def sub(self, rep, s, count=0): return RE.sub(self, rep, s, count)
    def match(self, s): return RE.match(self, s)
    def fullmatch(self, s): return RE.fullmatch(self, s)
    def search(self, s): return RE.search(self, s)
def glob(n, p):
    """does the name match the pattern: a formula (the pattern's special characters are decided first)"""
    k = []
    for c in p:
        if isinstance(c, int): k.append(c if c in (42, 63, 91) else 0)
        elif E.branch(ceq(c, 42)): k.append(42)
        elif E.branch(ceq(c, 63)): k.append(63)
        elif E.branch(ceq(c, 91)): k.append(91)
        else: k.append(0)
    if 91 in k: raise Unsupported('[ in a pattern')
    cur = [i == 0 for i in range(len(n) + 1)]
    for c, kind in zip(p, k):
        if kind == 42:
            acc = False; nx = []
            for i in range(len(n) + 1): acc = OR([acc, cur[i]]); nx.append(acc)
        else: nx = [False] + [AND([cur[i], True if kind == 63 else ceq(n[i], c)]) for i in range(len(n))]
        cur = nx
    return cur[len(n)]
class Fnmatch:
    import fnmatch as _f
    @staticmethod
    def fnmatchcase(name, pat): return E.branch(glob(chars(name), chars(pat)))
    fnmatch = fnmatchcase      # the case of names matters on POSIX systems
    @staticmethod
    def filter(names, pat): return [n for n in names if Fnmatch.fnmatch(n, pat)]
    @staticmethod
    def translate(p): raise Unsupported('fnmatch.translate')
