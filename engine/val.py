"""Symbolic values. All values are immutable; the heap maps cells to values."""
import z3
from poly import Poly, ZERO, ONE, A, R

class Unsupported(Exception): pass
class NoMerge(Exception): pass

class Agg:
    __slots__ = ('ty', 'var', 'f')
    def __init__(self, ty, var, f): self.ty = ty; self.var = var; self.f = f
    def __repr__(self): return 'Agg(%s#%s%r)' % (self.ty, self.var, self.f)

class VAgg:
    """enum value with a symbolic variant: var is a BV64, alts maps each possible variant to its fields"""
    __slots__ = ('ty', 'var', 'alts')
    def __init__(self, ty, var, alts): self.ty = ty; self.var = var; self.alts = alts
    def __repr__(self): return 'VAgg(%s,%r)' % (self.var, self.alts)

class CSeq:
    """sequence of concrete length (array, Vec, slice contents)"""
    __slots__ = ('items',)
    def __init__(self, items): self.items = tuple(items)
    def __repr__(self): return 'CSeq%r' % (self.items[:6],)

class SSeq:
    """sequence of symbolic length: len is an int or BV64, get maps an index to a value"""
    __slots__ = ('len', 'get', 'tag')
    def __init__(self, ln, get, tag=None):
        memo = {}
        def mget(i):
            k = i.get_id(); e = memo.get(k)
            if e is None: e = memo[k] = (i, get(i))
            return e[1]
        self.len = ln; self.get = mget; self.tag = tag
    def __repr__(self): return 'SSeq(%s)' % (self.len,)

class Ref:
    __slots__ = ('cell', 'path')
    def __init__(self, cell, path=()): self.cell = cell; self.path = path
    def __repr__(self): return 'Ref(%s,%r)' % (self.cell, self.path)

class Opq:
    """value of a modelled library type; data is a tuple"""
    __slots__ = ('tag', 'd')
    def __init__(self, tag, *d): self.tag = tag; self.d = d
    def __repr__(self): return 'Opq(%s,%r)' % (self.tag, self.d)

class StrV:
    __slots__ = ('kind', 'd')
    def __init__(self, kind, d): self.kind = kind; self.d = d
    def __repr__(self): return 'Str(%s,%r)' % (self.kind, self.d)

class FnVal:
    __slots__ = ('fn',)
    def __init__(self, fn): self.fn = fn

class _Tok:
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n

UNINIT = _Tok('UNINIT')
POISON = _Tok('POISON')
UNIT = Agg(None, 0, ())

def is_sym(v): return isinstance(v, z3.ExprRef)

# ---------------------------------------------------------------- booleans
def b_not(a):
    if a is True: return False
    if a is False: return True
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def b_and(a, b):
    if a is True: return b
    if b is True: return a
    if a is False or b is False: return False
    return z3.And(a, b)
def b_or(a, b):
    if a is False: return b
    if b is False: return a
    if a is True or b is True: return True
    return z3.Or(a, b)
def b_ite(c, a, b):
    if c is True: return a
    if c is False: return b
    if a is b or (isinstance(a, bool) and isinstance(b, bool) and a == b): return a
    if a is True and b is False: return c
    if a is False and b is True: return b_not(c)
    if a is True: return b_or(c, b)
    if b is False: return b_and(c, a)
    if a is False: return b_and(b_not(c), b)
    if b is True: return b_or(b_not(c), a)
    if z3.eq(a, b): return a
    return z3.If(c, a, b)
def b_z3(a):
    return z3.BoolVal(a) if isinstance(a, bool) else a

# ------------------------------------------------- exact linear forms over booleans
# LIN[id] = (expr, const, {boolid: coef}); BOOL[id] = expr
LIN = {}
BOOL = {}
FIELD_OF_BOOL = {}
def reset_tables():
    LIN.clear(); BOOL.clear(); FIELD_OF_BOOL.clear(); LINX.clear()

def lin_of(v):
    if isinstance(v, int): return (v, {})
    e = LIN.get(v.get_id())
    if e is not None and e[0].eq(v): return (e[1], e[2])
    return None
def lin_range(l):
    lo = hi = l[0]
    for c in l[1].values():
        if c > 0: hi += c
        else: lo += c
    return lo, hi
def set_lin(e, l):
    LIN[e.get_id()] = (e, l[0], l[1])
    return e
LINX = {}
def lin_expr(l, bits):
    """canonical bit-vector term of a linear form"""
    if not l[1]: return l[0]
    k = (bits, tuple(sorted(l[1].items())))
    s = LINX.get(k)
    if s is None:
        for b, c in k[1]:
            t = z3.If(BOOL[b], z3.BitVecVal(c, bits), z3.BitVecVal(0, bits))
            s = t if s is None else s + t
        LINX[k] = s
    return set_lin(s + z3.BitVecVal(l[0], bits) if l[0] else s, l)
def lin_add(a, b, sgn=1):
    d = dict(a[1])
    for k, c in b[1].items():
        v = d.get(k, 0) + sgn * c
        if v: d[k] = v
        else: d.pop(k, None)
    return (a[0] + sgn * b[0], d)
def bool_key(c):
    BOOL[c.get_id()] = c
    return c.get_id()
def lin_ite(c, a, b):
    """linear form of ite(c,a,b) for constants a,b"""
    if z3.is_not(c): return lin_ite(c.arg(0), b, a)
    return (b, {bool_key(c): a - b}) if a != b else (a, {})

def field_of_bool(c):
    """indicator polynomial of a boolean"""
    if c is True: return ONE
    if c is False: return ZERO
    if z3.is_not(c): return ONE - field_of_bool(c.arg(0))
    k = c.get_id()
    e = FIELD_OF_BOOL.get(k)
    if e is None:
        nm = '[%s]' % (c.decl().name() if z3.is_const(c) else 'b%d' % k)
        if nm in A.index: nm = nm + '#%d' % k
        e = (c, Poly.var(nm, True))
        FIELD_OF_BOOL[k] = e
        A.meta[('bool', A.index[nm])] = c
    return e[1]

def bv(v, bits):
    if isinstance(v, bool): return z3.BitVecVal(int(v), bits)
    if isinstance(v, int): return z3.BitVecVal(v, bits)
    return v

M = [None]   # the loaded Mir (type table)

def _elt(ty, what, i=0, var=0):
    if ty is None or isinstance(ty, tuple): return ty if what != 'f' else None
    d = M[0].types[ty]; k = d['k']
    if what == 'e':
        if k in ('slice', 'array', 'ref', 'ptr'): return d['e']
        if k == 'adt' and d['args'] and isinstance(d['args'][0], int): return d['args'][0]
        return None
    if k in ('tuple', 'closure'): return d['f'][i] if i < len(d['f']) else None
    if k == 'adt' and d['v'] and var < len(d['v']) and i < len(d['v'][var]['f']): return d['v'][var]['f'][i][1]
    return None

def merge(c, a, b, ty=None):
    """value equal to a when c holds and to b otherwise"""
    if a is b: return a
    ta, tb = type(a), type(b)
    if ta is VAgg or tb is VAgg or (ta is Agg and tb is Agg and a.var != b.var):
        if not (ta in (Agg, VAgg) and tb in (Agg, VAgg)): raise NoMerge()
        t2 = a.ty if a.ty is not None else b.ty
        if t2 is None: t2 = ty if not isinstance(ty, tuple) else None
        aa = a.alts if ta is VAgg else {a.var: a.f}
        bb = b.alts if tb is VAgg else {b.var: b.f}
        alts = dict(aa)
        for v, f in bb.items():
            if v not in alts: alts[v] = f
            else:
                g = alts[v]
                if len(f) != len(g): raise NoMerge()
                alts[v] = tuple([x if x is y else merge(c, x, y, _elt(t2, 'f', i, v)) for i, (x, y) in enumerate(zip(g, f))])
        x, y = bv(a.var, 64), bv(b.var, 64)
        return VAgg(t2, x if x.eq(y) else z3.If(c, x, y), alts)
    if ta is Agg and tb is Agg:
        if len(a.f) != len(b.f): raise NoMerge()
        if a.ty is not None: ty = a.ty
        return Agg(a.ty, a.var, tuple([x if x is y else merge(c, x, y, _elt(ty, 'f', i, a.var)) for i, (x, y) in enumerate(zip(a.f, b.f))]))
    if ta is Poly and tb is Poly:
        if a == b: return a
        return (b + field_of_bool(c) * (a - b)).fold()
    if ta is CSeq and tb is CSeq:
        if len(a.items) != len(b.items): raise NoMerge()
        et = _elt(ty, 'e')
        return CSeq(tuple([x if x is y else merge(c, x, y, et) for x, y in zip(a.items, b.items)]))
    if ta is SSeq and tb is SSeq:
        la, lb = a.len, b.len
        if not (la is lb or (isinstance(la, int) and la == lb) or (is_sym(la) and is_sym(lb) and la.eq(lb))): raise NoMerge()
        ga, gb = a.get, b.get
        et = _elt(ty, 'e')
        tag = None
        if a.tag is not None and b.tag is not None and a.tag[0] == b.tag[0] == 'set' and a.tag[1] is b.tag[1] and a.tag[2].eq(b.tag[2]):
            try: tag = ('set', a.tag[1], a.tag[2], merge(c, a.tag[3], b.tag[3], et))
            except NoMerge: pass
        return SSeq(la, lambda i: merge(c, ga(i), gb(i), et), tag)
    if ta is Ref and tb is Ref:
        if a.cell == b.cell and len(a.path) == len(b.path):
            p = []
            for x, y in zip(a.path, b.path):
                if same(x, y): p.append(x); continue
                if x[0] == y[0] == 'i':
                    p.append(('i', merge(c, x[1], y[1], ('bits', 64))))
                else: raise NoMerge()
            return Ref(a.cell, tuple(p))
        raise NoMerge()
    if ta is Opq and tb is Opq:
        if a.tag == b.tag == 'float': return Opq('float')
        if a.tag == b.tag and len(a.d) == len(b.d):
            return Opq(a.tag, *[x if x is y else merge(c, x, y, ('bits', 64)) for x, y in zip(a.d, b.d)])
        raise NoMerge()
    ba = isinstance(a, bool) or z3.is_bool(a)
    bb = isinstance(b, bool) or z3.is_bool(b)
    if ba or bb:
        if ba and bb: return b_ite(c, a, b)
        raise NoMerge()
    va = ta is int or z3.is_bv(a)
    vb = tb is int or z3.is_bv(b)
    if va and vb:
        if ta is int and tb is int:
            if a == b: return a
            if isinstance(ty, tuple): n = ty[1]
            elif ty is not None and M[0].types[ty]['k'] == 'int': n = M[0].types[ty]['bits']
            else: raise NoMerge()
        else: n = a.size() if z3.is_bv(a) else b.size()
        x, y = bv(a, n), bv(b, n)
        if x.eq(y): return a
        e = z3.If(c, x, y)
        l = merge_lin(c, lin_of(a), lin_of(b))
        if l is not None: set_lin(e, l)
        return e
    if va or vb: raise NoMerge()
    if z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort():
        return a if a.eq(b) else z3.If(c, a, b)
    if ta is StrV and tb is StrV and a.kind == b.kind and same(a.d, b.d): return a
    if ta is FnVal and tb is FnVal and a.fn == b.fn: return a
    if ta is tuple and tb is tuple and len(a) == len(b): return tuple(merge(c, x, y, ty if isinstance(ty, tuple) else None) for x, y in zip(a, b))
    if not (is_sym(a) or is_sym(b)) and ta is tb and same(a, b): return a
    raise NoMerge()

def merge_lin(c, la, lb):
    if la is None or lb is None: return None
    if not la[1] and not lb[1]: return lin_ite(c, la[0], lb[0])
    # a = b + const
    if la[1] == lb[1]:
        d = lin_ite(c, la[0], lb[0])
        return lin_add((0, la[1]), d)
    # a - b is a single boolean already guarded: ite(c, b + k*x, b) only representable when c => handled elsewhere
    return None

def same(a, b):
    """structural identity (sound, incomplete)"""
    if a is b: return True
    ta, tb = type(a), type(b)
    if ta is Agg and tb is Agg: return a.var == b.var and len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if ta is VAgg and tb is VAgg: return a.var.eq(b.var) and set(a.alts) == set(b.alts) and all(same(a.alts[k], b.alts[k]) for k in a.alts)
    if ta is Poly and tb is Poly: return a == b
    if ta is CSeq and tb is CSeq: return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if ta is Ref and tb is Ref: return a.cell == b.cell and len(a.path) == len(b.path) and all(same(x, y) for x, y in zip(a.path, b.path))
    if ta is Opq and tb is Opq: return a.tag == b.tag and len(a.d) == len(b.d) and all(same(x, y) for x, y in zip(a.d, b.d))
    if ta is tuple and tb is tuple: return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if z3.is_expr(a) and z3.is_expr(b): return a.eq(b)
    if z3.is_expr(a) or z3.is_expr(b): return False
    if ta is StrV and tb is StrV: return a.kind == b.kind and same(a.d, b.d)
    if ta is FnVal and tb is FnVal: return a.fn == b.fn
    if ta is SSeq or tb is SSeq: return False
    try: return ta is tb and a == b
    except Exception: return False
