"""Contracts of the standard iterator adapters and consumers."""
import z3
from poly import Poly, ZERO, ONE
from val import *

SOME = lambda v: Agg(None, 1, (v,))
NONE = Agg(None, 0, ())
def T(*f): return Agg(None, 0, tuple(f))
def It(kind, *d): return Opq('it', kind, *d)

def MM():
    import models
    return models

def rkind(eng, v):
    if type(v) is Agg and v.ty is not None and eng.types[v.ty]['k'] == 'adt':
        n = eng.types[v.ty]['name']
        if n.endswith('::Range'): return 'range'
        if n.endswith('::RangeInclusive'): return 'rangei'
        if n.endswith('::RangeFrom'): return 'rangef'
    if type(v) is Agg and v.ty is None and len(v.f) == 2: return 'range'
    return None
def rbits(eng, v):
    if v.ty is not None:
        a = eng.types[v.ty]['args']
        if a and isinstance(a[0], int) and eng.types[a[0]]['k'] == 'int': return eng.types[a[0]]['bits'], eng.types[a[0]]['signed']
    return 64, False
def cmp(eng, op, a, b, bits, sg):
    if isinstance(a, int) and isinstance(b, int): return eng.cint(op, a, b, bits, sg, False)
    return eng.sint(op, a, b, bits, sg, False, None)
def add(eng, a, b, bits=64, sg=False):
    if isinstance(a, int) and isinstance(b, int): return a + b
    return eng.sint('Add', a, b, bits, sg, False, None)
def sub(eng, a, b, bits=64, sg=False):
    if isinstance(a, int) and isinstance(b, int): return a - b
    return eng.sint('Sub', a, b, bits, sg, False, None)
def simp64(v):
    if isinstance(v, int): return v
    w = z3.simplify(v)
    return w.as_long() if z3.is_bv_value(w) else v

def norm(eng, st, v):
    """iterator value behind references (by_ref / &mut I)"""
    return v

# ------------------------------------------------------------------ indexable view
def ilen(eng, st, v):
    k = rkind(eng, v)
    if k == 'range':
        bits, sg = rbits(eng, v); a, b = v.f
        c = cmp(eng, 'Lt', a, b, bits, sg)
        d = sub(eng, b, a, bits, sg)
        if c is True: return d
        if c is False: return 0
        if eng.valid(st, c)[0]: return d
        e = z3.If(c, bv(d, bits), z3.BitVecVal(0, bits))
        if isinstance(a, int) and a == 0 and not sg: return b
        return z3.ZeroExt(64 - bits, e) if bits < 64 else e
    if k == 'rangei':
        bits, sg = rbits(eng, v); a, b = v.f[0], v.f[1]
        if isinstance(a, int) and isinstance(b, int): return max(0, b - a + 1) if v.f[2] is False else 0
        return None
    if type(v) is Opq and v.tag == 'it':
        k = v.d[0]; d = v.d[1:]
        if k == 'seq': return sub(eng, d[2], d[1])
        if k in ('map', 'cloned', 'inspect'): return ilen(eng, st, d[0])
        if k == 'enum': return ilen(eng, st, d[0])
        if k == 'rev':
            n = ilen(eng, st, d[0])
            return None if n is None else sub(eng, n, d[1])
        if k == 'zip':
            a, b = ilen(eng, st, d[0]), ilen(eng, st, d[1])
            if a is None: return b if rkind(eng, d[0]) == 'rangef' else None
            if b is None: return a if rkind(eng, d[1]) == 'rangef' else None
            if isinstance(a, int) and isinstance(b, int): return min(a, b)
            c = cmp(eng, 'Le', a, b, 64, False)
            if isinstance(c, bool): return a if c else b
            if eng.valid(st, c)[0]: return a
            if eng.valid(st, b_not(c))[0]: return b
            return z3.If(c, bv(a, 64), bv(b, 64))
        if k == 'take':
            a = ilen(eng, st, d[0]); b = d[1]
            if a is None: return b if rkind(eng, d[0]) == 'rangef' or (type(d[0]) is Opq and d[0].d[0] == 'repeat') else None
            if isinstance(a, int) and isinstance(b, int): return min(a, b)
            c = cmp(eng, 'Le', a, b, 64, False)
            if isinstance(c, bool): return a if c else b
            if eng.valid(st, c)[0]: return a
            if eng.valid(st, b_not(c))[0]: return b
            return z3.If(c, bv(a, 64), bv(b, 64))
        if k == 'skip':
            a = ilen(eng, st, d[0]); b = d[1]
            if a is None: return None
            if isinstance(a, int) and isinstance(b, int): return max(0, a - b)
            c = cmp(eng, 'Ge', a, b, 64, False)
            if c is True or (not isinstance(c, bool) and eng.valid(st, c)[0]): return sub(eng, a, b)
            return z3.If(b_z3(c), bv(a, 64) - bv(b, 64), z3.BitVecVal(0, 64))
        if k == 'chunks':
            r, i, n, sz, exact = d
            m = sub(eng, n, i)
            if isinstance(m, int): return m // sz if exact else -(-m // sz)
            q = z3.UDiv(m, z3.BitVecVal(sz, 64)) if exact else z3.UDiv(m + (sz - 1), z3.BitVecVal(sz, 64))
            return q
        if k == 'windows':
            r, i, n, sz = d
            m = sub(eng, n, i)
            if isinstance(m, int): return max(0, m - sz + 1)
        if k == 'stepby':
            n = ilen(eng, st, d[0])
            if isinstance(n, int) and isinstance(d[1], int): return -(-n // d[1])
            if n is not None and isinstance(d[1], int): return z3.UDiv(n + (d[1] - 1), z3.BitVecVal(d[1], 64))
        if k == 'repeat': return None
        if k == 'chain':
            if d[0] is None: return ilen(eng, st, d[1])
            a, b = ilen(eng, st, d[0]), ilen(eng, st, d[1])
            if isinstance(a, int) and isinstance(b, int): return a + b
    return None

def item(eng, st, v, i):
    """-> [(state, item)] for an index within bounds"""
    k = rkind(eng, v)
    if k in ('range', 'rangei', 'rangef'):
        bits, sg = rbits(eng, v)
        j = i
        if not isinstance(i, int) and bits < 64: j = z3.Extract(bits - 1, 0, i)
        return [(st, add(eng, v.f[0], j, bits, sg))]
    k = v.d[0]; d = v.d[1:]
    if k == 'seq':
        r, p, n, mode = d
        ix = simp64(add(eng, p, i))
        ref = Ref(r.cell, r.path + (('i', ix),))
        return [(st, ref if mode != 'val' else eng.load(st, ref))]
    if k == 'cloned': return [(s, eng.load(s, x)) for s, x in item(eng, st, d[0], i)]
    if k == 'enum': return [(s, T(simp64(add(eng, d[1], i)), x)) for s, x in item(eng, st, d[0], i)]
    if k == 'map':
        out = []
        for s, x in item(eng, st, d[0], i): out += eng.call_value(d[1], [x], s)
        return out
    if k == 'inspect':
        out = []
        for s, x in item(eng, st, d[0], i):
            for s2, _ in eng.call_value(d[1], [Ref(eng.alloc(s, x))], s): out.append((s2, x))
        return out
    if k == 'rev':
        n = ilen(eng, st, d[0])
        ix = simp64(sub(eng, sub(eng, sub(eng, n, 1), d[1]), i))
        return item(eng, st, d[0], ix)
    if k == 'zip':
        out = []
        for s, x in item(eng, st, d[0], i):
            for s2, y in item(eng, s, d[1], i): out.append((s2, T(x, y)))
        return out
    if k == 'take': return item(eng, st, d[0], i)
    if k == 'skip': return item(eng, st, d[0], simp64(add(eng, d[1], i)))
    if k == 'stepby':
        ix = i * d[1] if isinstance(i, int) else i * z3.BitVecVal(d[1], 64)
        return item(eng, st, d[0], ix)
    if k == 'repeat': return [(st, d[0])]
    if k == 'chunks':
        r, p, n, sz, exact = d
        st0 = simp64(add(eng, p, i * sz if isinstance(i, int) else i * z3.BitVecVal(sz, 64)))
        left = sub(eng, n, st0)
        if isinstance(left, int): ln = min(sz, left)
        elif exact: ln = sz
        else:
            c = cmp(eng, 'Ge', left, sz, 64, False)
            if c is True or (not isinstance(c, bool) and eng.valid(st, c)[0]): ln = sz
            else: ln = z3.If(c, z3.BitVecVal(sz, 64), left)
        return [(st, Ref(r.cell, r.path + (('ss', st0, ln),)))]
    if k == 'windows':
        r, p, n, sz = d
        return [(st, Ref(r.cell, r.path + (('ss', add(eng, p, i), sz),)))]
    if k == 'chain':
        if d[0] is None: return item(eng, st, d[1], i)
        a = ilen(eng, st, d[0])
        if isinstance(i, int) and isinstance(a, int):
            return item(eng, st, d[0], i) if i < a else item(eng, st, d[1], i - a)
    raise Unsupported('indexing iterator %s' % k)

def advance(eng, v, n):
    """iterator after n items have been taken from the front (within bounds)"""
    k = rkind(eng, v)
    if k in ('range', 'rangei', 'rangef'):
        bits, sg = rbits(eng, v)
        j = n
        if not isinstance(n, int) and bits < 64: j = z3.Extract(bits - 1, 0, n)
        return Agg(v.ty, v.var, (add(eng, v.f[0], j, bits, sg),) + tuple(v.f[1:]))
    k = v.d[0]; d = v.d[1:]
    if k == 'seq': return It('seq', d[0], simp64(add(eng, d[1], n)), d[2], d[3])
    if k in ('map', 'cloned', 'inspect'): return It(k, advance(eng, d[0], n), *d[1:])
    if k == 'enum': return It(k, advance(eng, d[0], n), simp64(add(eng, d[1], n)))
    if k == 'rev': return It(k, d[0], simp64(add(eng, d[1], n)))
    if k == 'zip': return It(k, advance(eng, d[0], n), advance(eng, d[1], n))
    if k == 'take': return It(k, advance(eng, d[0], n), simp64(sub(eng, d[1], n)))
    if k == 'skip': return It('skip', advance(eng, d[0], n), d[1])
    if k == 'stepby':
        return It(k, advance(eng, d[0], n * d[1] if isinstance(n, int) else n * z3.BitVecVal(d[1], 64)), d[1])
    if k == 'repeat': return v
    if k == 'chunks':
        r, p, m, sz, ex = d
        if isinstance(n, int) and isinstance(p, int) and isinstance(m, int): np = min(p + n * sz, m)
        else: np = simp64(add(eng, p, n * sz if isinstance(n, int) else n * z3.BitVecVal(sz, 64)))
        return It(k, r, np, m, sz, ex)
    if k == 'windows': return It(k, d[0], add(eng, d[1], n), d[2], d[3])
    raise Unsupported('advance %s' % k)

# ------------------------------------------------------------------ next
def nxt(eng, st, v):
    """-> [(state, iterator', has, item)]"""
    if type(v) is Ref:        # &mut I
        out = []
        for s, w, h, x in nxt(eng, st, eng.load(st, v)):
            eng.store(s, v, w); out.append((s, v, h, x))
        return out
    k = rkind(eng, v)
    if k == 'rangef':
        return [(st, advance(eng, v, 1), True, v.f[0])]
    if k == 'rangei':
        bits, sg = rbits(eng, v)
        a, b, ex = v.f
        c = b_and(b_not(ex), cmp(eng, 'Le', a, b, bits, sg))
        last = cmp(eng, 'Ge', a, b, bits, sg)
        if isinstance(last, bool):
            w = Agg(v.ty, 0, (a, b, True)) if last else Agg(v.ty, 0, (add(eng, a, 1, bits, sg), b, ex))
        else: w = Agg(v.ty, 0, (add(eng, a, 1, bits, sg), b, b_or(ex, last)))
        return split(eng, st, c, lambda s: [(s, w, True, a)], w)
    if type(v) is Opq and v.tag == 'it':
        k = v.d[0]; d = v.d[1:]
        if k == 'filter' or k == 'filter_map':
            out = []; work = [(st, d[0])]
            n = 0
            while work:
                s, inn = work.pop(0)
                n += 1
                if n > 3000: raise Unsupported('filter')
                for s1, i1, h, x in nxt(eng, s, inn):
                    if not h: out.append((s1, It(k, i1, d[1]), False, None)); continue
                    arg = Ref(eng.alloc(s1, x)) if k == 'filter' else x
                    for s2, r in eng.call_value(d[1], [arg], s1):
                        if k == 'filter':
                            for s3, t in decide(eng, s2, r):
                                if t: out.append((s3, It(k, i1, d[1]), True, x))
                                else: work.append((s3, i1))
                        else:
                            for s3, t, y in opt(eng, s2, r):
                                if t: out.append((s3, It(k, i1, d[1]), True, y))
                                else: work.append((s3, i1))
            return out
        if k == 'take_while':
            out = []
            for s1, i1, h, x in nxt(eng, st, d[0]):
                if not h: out.append((s1, It(k, i1, d[1]), False, None)); continue
                for s2, r in eng.call_value(d[1], [Ref(eng.alloc(s1, x))], s1):
                    for s3, t in decide(eng, s2, r): out.append((s3, It(k, i1, d[1]), t, x if t else None))
            return out
        if k == 'chain' and d[0] is not None:
            out = []
            for s1, i1, h, x in nxt(eng, st, d[0]):
                if h: out.append((s1, It('chain', i1, d[1]), True, x))
                else:
                    for s2, i2, h2, y in nxt(eng, s1, d[1]): out.append((s2, It('chain', None, i2), h2, y))
            return out
        if k == 'chain':
            return [(s, It('chain', None, w), h, x) for s, w, h, x in nxt(eng, st, d[1])]
        if k in ('flat_map', 'flatten'):
            inner, clo, cur = d
            out = []; work = [(st, inner, cur)]
            while work:
                s, inn, cu = work.pop(0)
                if cu is not None:
                    for s1, c1, h, x in nxt(eng, s, cu):
                        if h: out.append((s1, It(k, inn, clo, c1), True, x))
                        else: work.append((s1, inn, None))
                    continue
                for s1, i1, h, x in nxt(eng, s, inn):
                    if not h: out.append((s1, It(k, i1, clo, None), False, None)); continue
                    if clo is None: work.append((s1, i1, into_iter(eng, s1, x)))
                    else:
                        for s2, y in eng.call_value(clo, [x], s1): work.append((s2, i1, into_iter(eng, s2, y)))
            return out
        if k == 'peek':
            if d[1] is not None:
                h, x = d[1].d
                return [(st, It('peek', d[0], None), h, x)]
            return [(s, It('peek', w, None), h, x) for s, w, h, x in nxt(eng, st, d[0])]
        if k == 'scan':
            out = []
            for s1, i1, h, x in nxt(eng, st, d[0]):
                if not h: out.append((s1, It(k, i1, d[1], d[2]), False, None)); continue
                for s2, r in eng.call_value(d[2], [d[1], x], s1):
                    for s3, t, y in opt(eng, s2, r): out.append((s3, It(k, i1, d[1], d[2]), t, y))
            return out
        if k in ('map', 'enum', 'zip', 'cloned', 'inspect') and not indexable(eng, st, v):
            return nxt_comp(eng, st, v, k, d)
        if k == 'take' and not indexable(eng, st, v):
            c = cmp(eng, 'Gt', d[1], 0, 64, False)
            n1 = sub(eng, d[1], 1)
            def g(s): return [(s1, It('take', i1, n1), h, x) for s1, i1, h, x in nxt(eng, s, d[0])]
            return split(eng, st, c, g, v)
        if k == 'skip' and not indexable(eng, st, v):
            if isinstance(d[1], int):
                sts = [(st, d[0])]
                for _ in range(d[1]):
                    sts = [(s1, i1) for s, i in sts for s1, i1, h, x in nxt(eng, s, i)]
                return [(s1, It('skip', i1, 0), h, x) for s, i in sts for s1, i1, h, x in nxt(eng, s, i)]
    n = ilen(eng, st, v)
    if n is None: raise Unsupported('iterator %r' % (v,))
    c = cmp(eng, 'Gt', n, 0, 64, False)
    if rkind(eng, v) == 'range':
        bits, sg = rbits(eng, v); c = cmp(eng, 'Lt', v.f[0], v.f[1], bits, sg)
    w = advance(eng, v, 1) if c is not False else v
    return split(eng, st, c, lambda s: [(s2, w, True, x) for s2, x in item(eng, s, v, 0)], w)
def indexable(eng, st, v):
    try: n = ilen(eng, st, v)
    except Unsupported: n = None
    if n is None: return False
    if type(v) is Opq and v.d[0] in ('map', 'inspect', 'enum', 'cloned', 'take', 'skip', 'rev', 'stepby'): return indexable(eng, st, v.d[1])
    if type(v) is Opq and v.d[0] == 'zip': return indexable(eng, st, v.d[1]) and indexable(eng, st, v.d[2])
    if type(v) is Opq and v.d[0] == 'chain': return False
    return True
def nxt_comp(eng, st, v, k, d):
    out = []
    for s, i1, h, x in nxt(eng, st, d[0]):
        if k == 'zip':
            if not h: out.append((s, It('zip', i1, d[1]), False, None)); continue
            for s2, i2, h2, y in nxt(eng, s, d[1]): out.append((s2, It('zip', i1, i2), h2, T(x, y) if h2 else None))
            continue
        if k == 'enum':
            out.append((s, It('enum', i1, add(eng, d[1], 1) if h else d[1]), h, T(d[1], x) if h else None)); continue
        if not h: out.append((s, It(k, i1, *d[1:]), False, None)); continue
        if k == 'cloned': out.append((s, It(k, i1), True, eng.load(s, x)))
        elif k == 'map':
            for s2, y in eng.call_value(d[1], [x], s): out.append((s2, It(k, i1, d[1]), True, y))
        else:
            for s2, _ in eng.call_value(d[1], [Ref(eng.alloc(s, x))], s): out.append((s2, It(k, i1, d[1]), True, x))
    return out
def split(eng, st, c, f, w):
    if c is True: return f(st)
    if c is False: return [(st, w, False, None)]
    out = []
    ft = eng.feasible(st, c); ff = eng.feasible(st, b_not(c))
    if ft:
        s = st.clone() if ff else st
        if ff: s.pc = list(st.pc); s.pc.append(c)
        out += f(s)
    if ff:
        s = st.clone() if ft else st
        if ft: s.pc.append(b_not(c))
        out.append((s, w, False, None))
    return out
def decide(eng, st, r):
    if isinstance(r, bool): return [(st, r)]
    out = []
    for c, t in ((r, True), (b_not(r), False)):
        if eng.feasible(st, c):
            s = st.clone(); s.pc.append(c); out.append((s, t))
    return out
def opt(eng, st, v):
    """-> [(state, is_some, payload)]"""
    if type(v) is Agg: return [(st, v.var == 1, v.f[0] if v.var == 1 else None)]
    if type(v) is VAgg:
        c = eng.simp(v.var == 1)
        return [(s, t, v.alts[1][0] if t else None) for s, t in decide(eng, st, c)]
    raise Unsupported('option %r' % (v,))
def nxt_back(eng, st, v):
    n = ilen(eng, st, v)
    if rkind(eng, v) == 'range':
        bits, sg = rbits(eng, v); a, b = v.f
        c = cmp(eng, 'Lt', a, b, bits, sg)
        b1 = sub(eng, b, 1, bits, sg) if c is not False else b
        w = Agg(v.ty, 0, (a, b1))
        return split(eng, st, c, lambda s: [(s, w, True, b1)], w)
    if type(v) is Opq and v.d[0] == 'seq':
        r, i, n, mode = v.d[1:]
        c = cmp(eng, 'Lt', i, n, 64, False)
        n1 = sub(eng, n, 1) if c is not False else n
        w = It('seq', r, i, n1, mode)
        ref = Ref(r.cell, r.path + (('i', n1),))
        return split(eng, st, c, lambda s: [(s, w, True, ref if mode != 'val' else eng.load(s, ref))], w)
    raise Unsupported('next_back')

# ------------------------------------------------------------------ conversions
def into_iter(eng, st, v):
    if rkind(eng, v) is not None: return v
    if type(v) is Opq and v.tag == 'it': return v
    if type(v) in (CSeq, SSeq):
        c = eng.alloc(st, v)
        return It('seq', Ref(c), 0, eng.slen(v), 'val')
    if type(v) is Ref:
        r = v
        w = eng.load(st, r)
        while type(w) is Ref: r = w; w = eng.load(st, r)
        if type(w) in (CSeq, SSeq): return It('seq', r, 0, eng.slen(w), 'ref')
        if (type(w) is Opq and w.tag == 'it') or rkind(eng, w): return v
        if type(w) in (Agg, VAgg): # &Option
            return opt_iter(eng, st, w, r)
    if type(v) is Agg and len(v.f) <= 1: return opt_iter(eng, st, v, None)
    raise Unsupported('into_iter of %r' % (v,))
def opt_iter(eng, st, w, r):
    if type(w) is not Agg: raise Unsupported('option iterator')
    if w.var == 0: return It('seq', Ref(eng.alloc(st, CSeq(()))), 0, 0, 'val')
    x = w.f[0] if r is None else Ref(r.cell, r.path + (('d', 1), ('f', 0)))
    return It('seq', Ref(eng.alloc(st, CSeq((x,)))), 0, 1, 'val')
def m_into_iter(eng, st, a, fn): return into_iter(eng, st, a[0])
def m_iter(eng, st, a, fn): return into_iter(eng, st, a[0])
def m_next(eng, st, a, fn):
    r = a[0]; v = eng.load(st, r)
    while type(v) is Ref: r = v; v = eng.load(st, r)
    out = []
    for s, w, h, x in nxt(eng, st, v):
        eng.store(s, r, w)
        out.append((s, SOME(x) if h else NONE))
    return out
def m_next_back(eng, st, a, fn):
    r = a[0]; v = eng.load(st, r)
    out = []
    for s, w, h, x in nxt_back(eng, st, v):
        eng.store(s, r, w); out.append((s, SOME(x) if h else NONE))
    return out
def adapter(kind, *extra):
    def f(eng, st, a, fn):
        return It(kind, *(list(a) + list(extra)))
    return f
def m_rev(eng, st, a, fn):
    if ilen(eng, st, a[0]) is None: raise Unsupported('rev')
    return It('rev', a[0], 0)
def m_zip(eng, st, a, fn): return It('zip', a[0], into_iter(eng, st, a[1]))
def m_chain(eng, st, a, fn): return It('chain', a[0], into_iter(eng, st, a[1]))
def m_cloned(eng, st, a, fn): return It('cloned', a[0])
def m_enumerate(eng, st, a, fn): return It('enum', a[0], 0)
def m_flat_map(eng, st, a, fn): return It('flat_map', a[0], a[1], None)
def m_flatten(eng, st, a, fn): return It('flatten', a[0], None, None)
def m_scan(eng, st, a, fn): return It('scan', a[0], Ref(eng.alloc(st, a[1])), a[2])
def m_by_ref(eng, st, a, fn): return a[0]
def m_peekable(eng, st, a, fn): return It('peek', a[0], None)
def m_peek(eng, st, a, fn):
    r = a[0]; v = eng.load(st, r)
    if v.d[2] is not None:
        h, x = v.d[2].d
        return SOME(Ref(eng.alloc(st, x))) if h else NONE
    out = []
    for s, w, h, x in nxt(eng, st, v.d[1]):
        eng.store(s, r, It('peek', w, Opq('pk', h, x)))
        out.append((s, SOME(Ref(eng.alloc(s, x))) if h else NONE))
    return out
def m_step_by(eng, st, a, fn):
    if a[1] == 0: return eng.panic(st, 'step_by(0)')
    if not isinstance(a[1], int): raise Unsupported('step_by')
    return It('stepby', a[0], a[1])
def m_chunks(exact):
    def f(eng, st, a, fn):
        import models
        r = models.seqref(eng, st, a[0]); n = eng.slen(eng.load(st, r))
        if not isinstance(a[1], int): raise Unsupported('symbolic chunk size')
        if a[1] == 0: return eng.panic(st, 'chunk size zero')
        if exact and isinstance(n, int): n = n - n % a[1]
        return It('chunks', r, 0, n, a[1], exact)
    return f
def m_windows(eng, st, a, fn):
    import models
    r = models.seqref(eng, st, a[0]); n = eng.slen(eng.load(st, r))
    if not isinstance(a[1], int) or not isinstance(n, int): raise Unsupported('windows')
    return It('windows', r, 0, n, a[1])
def m_drain(eng, st, a, fn):
    import models
    r = models.seqref(eng, st, a[0]); v = eng.load(st, r)
    n = eng.slen(v)
    s, e = models.rng_bounds(eng, st, a[1], n, eng.m.tyname(a[1].ty) if type(a[1]) is Agg and a[1].ty is not None else 'RangeFull')
    if isinstance(s, int) and isinstance(e, int) and type(v) is CSeq:
        sub_ = CSeq(v.items[s:e])
        eng.store(st, r, CSeq(v.items[:s] + v.items[e:]))
        return It('seq', Ref(eng.alloc(st, sub_)), 0, e - s, 'val')
    if s == 0 and e is n:
        eng.store(st, r, CSeq(()))
        return It('seq', Ref(eng.alloc(st, v)), 0, n, 'val')
    raise Unsupported('drain')
def m_size(eng, st, a, fn):
    v = a[0]
    while type(v) is Ref: v = eng.load(st, v)
    n = ilen(eng, st, v)
    if n is None: raise Unsupported('len of iterator')
    return n
def m_repeat(eng, st, a, fn): return It('repeat', a[0])
def m_once(eng, st, a, fn): return It('seq', Ref(eng.alloc(st, CSeq((a[0],)))), 0, 1, 'val')
def m_empty(eng, st, a, fn): return It('seq', Ref(eng.alloc(st, CSeq(()))), 0, 0, 'val')

# ------------------------------------------------------------------ consumption
def consume(eng, st, it, sink):
    """sink(state, item) -> [(state, stop?)] ; -> [(state, stopped?)]"""
    out = []
    itc = eng.alloc(st, it)
    def body(s):
        """one iteration: -> (continuing states, finished [(state, stopped?)])"""
        cont = []; fin = []
        for s1, w, h, x in nxt(eng, s, s.heap[itc]):
            s1.heap[itc] = w
            if not h: fin.append((s1, False)); continue
            for s2, stp in sink(s1, x):
                if stp: fin.append((s2, True))
                else: cont.append(s2)
        return cont, fin
    n = None
    try: n = ilen(eng, st, it)
    except Unsupported: pass
    key = ('py', eng.cur[-1] if eng.cur else '', 0)
    if n is not None and not isinstance(n, int) and key in eng.rule and not eng.probe_depth_block:
        import loops
        return loops.apply_py(eng, st, body, key)
    work = [st]; k = 0
    while work:
        cont = []
        for s in work:
            c, f = body(s)
            cont += c; out += f
        if len(cont) > 1: cont = eng.merge_states(cont, None, None)
        work = cont
        k += 1
        if n is not None and not isinstance(n, int) and k > eng.loop_limit: 
            from exec import LoopLimit
            raise LoopLimit(key)
        if k > 20000: raise Unsupported('long iteration')
    return out

def merged(eng, st0, res):
    """merge [(state, value)]"""
    if len(res) <= 1: return res
    cell = ('h', 'ret%d' % eng.ncell); eng.ncell += 1
    for s, v in res: s.heap[cell] = v
    sts = eng.merge_states([s for s, _ in res], None, None)
    out = []
    for s in sts:
        v = s.heap.pop(cell); out.append((s, v))
    return out

def collect_vec(eng, st, it):
    n = None
    if indexable(eng, st, it): n = ilen(eng, st, it)
    if n is not None and not isinstance(n, int):
        return [(st, lazy(eng, st, it, n))]
    acc = eng.alloc(st, CSeq(()))
    import models
    def sink(s, x):
        s.heap[acc] = models.seq_push(eng, s.heap[acc], x); return [(s, False)]
    res = consume(eng, st, it, sink)
    return merged(eng, st, [(s, s.heap[acc]) for s, _ in res])
def lazy(eng, st, it, n):
    """sequence whose i-th element is the i-th item; the producing closure must not change the state"""
    snap = st.clone()
    cells = set(snap.heap)
    cache = {}
    def get(i):
        k = i.get_id()
        if k in cache and cache[k][0].eq(i): return cache[k][1]
        s = snap.clone()
        s.pc = list(s.pc); s.pc.append(z3.ULT(i, bv(n, 64)))
        np = len(eng.panics)
        r = item(eng, s, it, i)
        for s2, x in r:
            for c in cells:
                if s2.heap.get(c) is not snap.heap[c]: raise Unsupported('collect of an effectful closure over a symbolic length')
        if len(r) != 1:
            r = merged(eng, s, r)
            if len(r) != 1: raise Unsupported('collect')
        x = r[0][1]
        if type(x) is Ref and x.cell not in cells: x = eng.load(r[0][0], x)
        cache[k] = (i, x)
        return x
    # panics of the closure are reported once, for an arbitrary index
    i = eng.fresh_bv('ix')
    if eng.feasible(snap, z3.ULT(i, bv(n, 64))): get(i)
    eng_probe = eng
    def quiet(j):
        eng.probe += 1
        try: return get(j)
        finally: eng.probe -= 1
    return SSeq(n, quiet)

def m_collect(eng, st, a, fn):
    t = eng.m.tyname(fn['args'][1]) if len(fn['args']) > 1 else ''
    return collect_to(eng, st, a[0], t)
def m_from_iter(eng, st, a, fn):
    return collect_to(eng, st, into_iter(eng, st, a[0]), eng.m.tyname(fn['args'][0]))
def collect_to(eng, st, it, t):
    if t.startswith(('std::vec::Vec', 'std::boxed::Box<[')): return collect_vec(eng, st, it)
    if t.startswith(('std::option::Option<std::vec::Vec', 'std::result::Result<std::vec::Vec')):
        isres = t.startswith('std::result')
        acc = eng.alloc(st, CSeq(())); bad = eng.alloc(st, UNIT)
        import models
        def sink(s, x):
            out = []
            if type(x) is VAgg: alts = [(s2, v) for s2, v in ((s3, Agg(x.ty, k, x.alts[k])) for k in x.alts for s3 in [assume_clone(eng, s, eng.simp(x.var == k))] if s3 is not None)]
            else: alts = [(s, x)]
            for s2, v in alts:
                good = v.var == (0 if isres else 1)
                if good: s2.heap[acc] = models.seq_push(eng, s2.heap[acc], v.f[0]); out.append((s2, False))
                else: s2.heap[bad] = v; out.append((s2, True))
            return out
        res = consume(eng, st, it, sink)
        return merged(eng, st, [(s, s.heap[bad] if stp else Agg(None, 0 if isres else 1, (s.heap[acc],))) for s, stp in res])
    if t.startswith('std::string::String'): return [(st, StrV('opaque', ()))]
    raise Unsupported('collect into ' + t)
def assume_clone(eng, s, c):
    if c is False: return None
    s2 = s.clone()
    if c is not True:
        if not eng.feasible(s, c): return None
        s2.pc.append(c)
    return s2
def m_extend(eng, st, a, fn):
    import models
    r = models.seqref(eng, st, a[0])
    it = into_iter(eng, st, a[1])
    ts = models.tyargs(eng, fn)
    out = []
    for s, v in collect_vec(eng, st, it):
        if type(v) is CSeq: v = CSeq([eng.load(s, x) if type(x) is Ref and len(ts) > 1 and ts[1].startswith('&') else x for x in v.items])
        elif len(ts) > 1 and ts[1].startswith('&'):
            g = v.get; s0 = s.clone()
            v = SSeq(v.len, lambda i, g=g, s0=s0: eng.load(s0, g(i)))
        eng.store(s, r, eng.seq_concat(eng.load(s, r), v)); out.append((s, UNIT))
    return out
def m_fold(eng, st, a, fn):
    acc = eng.alloc(st, a[1])
    def sink(s, x):
        out = []
        for s2, v in eng.call_value(a[2], [s.heap[acc], x], s): s2.heap[acc] = v; out.append((s2, False))
        return out
    return merged(eng, st, [(s, s.heap[acc]) for s, _ in consume(eng, st, a[0], sink)])
def m_for_each(eng, st, a, fn):
    def sink(s, x): return [(s2, False) for s2, _ in eng.call_value(a[1], [x], s)]
    return merged(eng, st, [(s, UNIT) for s, _ in consume(eng, st, a[0], sink)])
def m_try_for_each(eng, st, a, fn):
    it = a[0]
    if type(it) is Ref: it = eng.load(st, it)
    bad = eng.alloc(st, Agg(None, 0, (UNIT,)))
    def sink(s, x):
        out = []
        for s2, v in eng.call_value(a[1], [x], s):
            if type(v) is not Agg: raise Unsupported('try_for_each')
            if v.var == 0: out.append((s2, False))
            else: s2.heap[bad] = v; out.append((s2, True))
        return out
    return merged(eng, st, [(s, s.heap[bad]) for s, _ in consume(eng, st, it, sink)])
def m_quant(name):
    def f(eng, st, a, fn):
        it = a[0]
        ref = it if type(it) is Ref else None
        if ref is not None: it = eng.load(st, ref)
        cnt = eng.alloc(st, 0); fnd = eng.alloc(st, NONE)
        def sink(s, x):
            out = []
            arg = Ref(eng.alloc(s, x)) if name in ('find',) else x
            for s2, v in eng.call_value(a[1], [arg], s):
                for s3, t in decide(eng, s2, v):
                    if name == 'position': pass
                    stop = t if name != 'all' else not t
                    if stop: s3.heap[fnd] = SOME(x) if name == 'find' else SOME(s3.heap[cnt])
                    s3.heap[cnt] = s3.heap[cnt] + 1
                    out.append((s3, stop))
            return out
        res = consume(eng, st, it, sink)
        def val_(s, stp):
            if name == 'all': return not stp
            if name == 'any': return stp
            return s.heap[fnd]
        return merged(eng, st, [(s, val_(s, t)) for s, t in res])
    return f
def m_sum(kind):
    def f(eng, st, a, fn):
        import models
        t = eng.m.tyname(fn['args'][1]) if len(fn['args']) > 1 else 'usize'
        acc = eng.alloc(st, (ZERO if kind == 'sum' else ONE) if models.is_field_ty(t) else (0 if kind == 'sum' else 1))
        f2 = {'args': [fn['args'][1], fn['args'][1]], 'decl': ''} if len(fn['args']) > 1 else fn
        g = models.m_arith('add' if kind == 'sum' else 'mul')
        def sink(s, x):
            r = g(eng, s, [s.heap[acc], x], f2)
            if isinstance(r, list): return [(s2, False) for s2, v in r]
            s.heap[acc] = r
            return [(s, False)]
        return merged(eng, st, [(s, s.heap[acc]) for s, _ in consume(eng, st, a[0], sink)])
    return f
def m_count(eng, st, a, fn):
    c = eng.alloc(st, 0)
    n = ilen(eng, st, a[0])
    if n is not None: return n
    def sink(s, x): s.heap[c] = add(eng, s.heap[c], 1); return [(s, False)]
    return merged(eng, st, [(s, s.heap[c]) for s, _ in consume(eng, st, a[0], sink)])
def m_nth(eng, st, a, fn):
    r = a[0]; v = eng.load(st, r)
    if not isinstance(a[1], int): raise Unsupported('nth')
    sts = [(st, v)]
    for _ in range(a[1]): sts = [(s2, w) for s, u in sts for s2, w, h, x in nxt(eng, s, u)]
    out = []
    for s, u in sts:
        for s2, w, h, x in nxt(eng, s, u): eng.store(s2, r, w); out.append((s2, SOME(x) if h else NONE))
    return out
def m_last(eng, st, a, fn):
    l = eng.alloc(st, NONE)
    def sink(s, x): s.heap[l] = SOME(x); return [(s, False)]
    return merged(eng, st, [(s, s.heap[l]) for s, _ in consume(eng, st, a[0], sink)])

def register(eng, M_, P):
    eng.probe_depth_block = False
    I = 'std::iter::Iterator::'
    M_['std::iter::IntoIterator::into_iter'] = m_into_iter
    for pre in ('std::slice::<impl [T]>::', 'core::slice::<impl [T]>::', 'std::vec::Vec::<T, A>::', 'std::array::<impl [T; N]>::'):
        M_[pre + 'iter'] = m_iter; M_[pre + 'iter_mut'] = m_iter
        M_[pre + 'chunks'] = m_chunks(False); M_[pre + 'chunks_exact'] = m_chunks(True)
        M_[pre + 'chunks_mut'] = m_chunks(False); M_[pre + 'windows'] = m_windows
        M_[pre + 'drain'] = m_drain
    M_[I + 'next'] = m_next
    M_['std::iter::DoubleEndedIterator::next_back'] = m_next_back
    for n, f in (('map', adapter('map')), ('filter', adapter('filter')), ('filter_map', adapter('filter_map')), ('take_while', adapter('take_while')), ('inspect', adapter('inspect')),
                 ('take', adapter('take')), ('skip', adapter('skip')), ('rev', m_rev), ('zip', m_zip), ('chain', m_chain), ('cloned', m_cloned), ('copied', m_cloned), ('enumerate', m_enumerate),
                 ('flat_map', m_flat_map), ('flatten', m_flatten), ('scan', m_scan), ('by_ref', m_by_ref), ('peekable', m_peekable), ('step_by', m_step_by), ('fuse', lambda e, s, a, f: a[0]),
                 ('collect', m_collect), ('fold', m_fold), ('for_each', m_for_each), ('try_for_each', m_try_for_each), ('all', m_quant('all')), ('any', m_quant('any')), ('find', m_quant('find')), ('position', m_quant('position')),
                 ('sum', m_sum('sum')), ('product', m_sum('product')), ('count', m_count), ('nth', m_nth), ('last', m_last)):
        M_[I + n] = f
    M_['std::iter::Peekable::<I>::peek'] = m_peek
    M_['std::iter::ExactSizeIterator::len'] = m_size
    M_['std::iter::FromIterator::from_iter'] = m_from_iter
    M_['std::iter::Extend::extend'] = m_extend
    M_['std::iter::repeat'] = m_repeat
    M_['std::iter::once'] = m_once
    M_['std::iter::empty'] = m_empty
    M_['std::iter::zip'] = lambda e, s, a, f: It('zip', into_iter(e, s, a[0]), into_iter(e, s, a[1]))
