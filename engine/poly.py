"""Exact arithmetic in Z_r[atoms] (r = order of the scalar field of BLS12-381).

A field element of the program under verification is a polynomial over *atoms*.  Atoms are inputs,
boolean indicators (idempotent: b*b = b) and named intermediate values of a specification ("cuts":
the table maps the normal form of the defining polynomial to the atom, so a value the code computes
along any algebraically equal route is recognised)."""
R = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001

class TooBig(Exception):
    pass

class Atoms:
    def __init__(self):
        self.names = []
        self.boolean = []
        self.index = {}
        self.cut = {}
        self.meta = {}
        self.maxterms = 6000
    def atom(self, name, boolean=False):
        i = self.index.get(name)
        if i is None:
            i = len(self.names)
            self.names.append(name)
            self.boolean.append(boolean)
            self.index[name] = i
        return i

A = Atoms()

def reset():
    A.__init__()

class Poly:
    __slots__ = ('t', '_h', '_k')
    def __init__(self, t):
        self.t = t
        self._h = None
        self._k = None
    @staticmethod
    def const(c):
        c %= R
        return Poly({(): c} if c else {})
    @staticmethod
    def var(name, boolean=False):
        return Poly({((A.atom(name, boolean), 1),): 1})
    def key(self):
        if self._k is None:
            self._k = frozenset(self.t.items())
        return self._k
    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h
    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t
    def is_zero(self):
        return not self.t
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)
    def cval(self):
        return self.t.get((), 0)
    def __add__(self, o):
        a, b = self.t, o.t
        if not a: return o
        if not b: return self
        if len(a) < len(b): a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = (v + c) % R
                if v: r[m] = v
                else: del r[m]
        return Poly(r)
    def __neg__(self):
        return Poly({m: R - c for m, c in self.t.items()})
    def __sub__(self, o):
        return self + (-o)
    def scale(self, k):
        k %= R
        if k == 0: return Poly({})
        if k == 1: return self
        return Poly({m: c * k % R for m, c in self.t.items()})
    def __mul__(self, o):
        if o.is_const(): return self.scale(o.cval())
        if self.is_const(): return o.scale(self.cval())
        if len(self.t) * len(o.t) > 40 * A.maxterms:
            raise TooBig()
        r = {}
        bl = A.boolean
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mulmono(m1, m2, bl)
                v = r.get(m)
                r[m] = c1 * c2 % R if v is None else (v + c1 * c2) % R
        r = {m: c for m, c in r.items() if c}
        if len(r) > A.maxterms:
            raise TooBig()
        return Poly(r)
    def fold(self):
        """Replace by the atom of a registered cut with the same normal form."""
        if len(self.t) > 1 or (self.t and () not in self.t):
            c = A.cut.get(self.key())
            if c is not None: return c
        return self
    def pow(self, e):
        r = Poly.const(1)
        b = self
        while e:
            if e & 1: r = (r * b).fold()
            e >>= 1
            if e: b = (b * b).fold()
        return r
    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m: s.add(a)
        return s
    def subst(self, mp):
        """mp: atom id -> Poly"""
        r = {}
        for m, c in self.t.items():
            p = Poly({tuple((a, e) for a, e in m if a not in mp): c})
            for a, e in m:
                q = mp.get(a)
                if q is None: continue
                b = q
                while e:
                    if e & 1: p = p * b
                    e >>= 1
                    if e: b = b * b
            for m2, c2 in p.t.items():
                v = (r.get(m2, 0) + c2) % R
                if v: r[m2] = v
                else: r.pop(m2, None)
            if len(r) > 4 * A.maxterms: raise TooBig()
        return Poly(r)
    def eval(self, env):
        s = 0
        for m, c in self.t.items():
            for a, e in m: c = c * pow(env[a], e, R) % R
            s += c
        return s % R
    def __repr__(self):
        if not self.t: return '0'
        out = []
        for m, c in list(self.t.items())[:12]:
            if c > R // 2: cs = '-%d' % (R - c)
            else: cs = '%d' % c
            mm = '*'.join(A.names[a] + ('^%d' % e if e > 1 else '') for a, e in m)
            out.append(cs + ('*' + mm if mm else '') if (cs not in ('1',) or not mm) else mm)
        s = ' + '.join(out)
        if len(self.t) > 12: s += ' + ...(%d terms)' % len(self.t)
        return s

def mulmono(a, b, bl):
    if not a: return b
    if not b: return a
    d = dict(a)
    for x, e in b:
        if x in d:
            if not bl[x]: d[x] += e
        else:
            d[x] = e
    return tuple(sorted(d.items()))

ZERO = Poly({})
ONE = Poly({(): 1})

def define(name, poly):
    """Register the cut  name := poly  and return the atom (as a Poly)."""
    poly = poly.fold()
    if poly.is_const(): return poly
    if len(poly.t) == 1 and list(poly.t.items())[0][1] == 1:
        m = list(poly.t)[0]
        if len(m) == 1 and m[0][1] == 1: return poly
    p = Poly.var(name)
    A.cut[poly.key()] = p
    A.meta[list(p.t)[0][0][0]] = poly
    return p

def expand(poly):
    """Undo all cuts (used only for evaluation)."""
    return poly
