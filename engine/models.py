"""Contracts of library functions (Rust std/alloc/core items whose bodies are not walked, and the dependencies
ark-ff, ark-relations, ark-groth16, rand).  These are the assumed (trusted) contracts; every one used is listed in
the evidence.  Signature: f(eng, st, args, fn) -> value | [(state, value)] | NotImplemented."""
import z3
from poly import Poly, ZERO, ONE, A, R, TooBig
import poly
from val import *
import val
import iters

SOME = lambda v: Agg(None, 1, (v,))
NONE = Agg(None, 0, ())
OK = lambda v: Agg(None, 0, (v,))
ERR = lambda v: Agg(None, 1, (v,))

def tyargs(eng, fn):
    return [eng.m.tyname(a) if isinstance(a, int) else '#' for a in fn['args']]
def is_field_ty(n): return n.startswith('ark_ff::Fp')
def strip(n):
    while n.startswith('&'): n = n[5:] if n.startswith('&mut ') else n[1:]
    return n
def L(eng, st, v):
    while type(v) is Ref: v = eng.load(st, v)
    return v

# ------------------------------------------------------------------ scalar field
def f_eq(eng, a, b):
    d = a - b
    if d.is_const(): return d.is_zero()
    k = d.key(); k2 = (-d).key()
    t = eng.feq.get(k)
    if t is None: t = eng.feq.get(k2)
    if t is None:
        bp = bool_poly(d)
        t = z3.Bool(eng.fresh('feq')) if bp is None else bp
        eng.feq[k] = t
        eng.feq_rev[t.get_id() if not isinstance(t, bool) else 0] = (t, d)
    return t
def bool_poly(d):
    """exact boolean for d == 0 when d is c0 + c1*[b]"""
    ts = dict(d.t); c0 = ts.pop((), 0)
    if len(ts) != 1: return None
    (m, c1), = ts.items()
    if len(m) != 1 or not A.boolean[m[0][0]]: return None
    b = A.meta.get(('bool', m[0][0]))
    if b is None: return None
    if c0 == 0: return b_not(b)
    if (c0 + c1) % R == 0: return b
    return False

def pw(eng, st, v):
    p = L(eng, st, v)
    if isinstance(p, Poly): return p
    raise Unsupported('field operand %r' % (p,))

def m_arith(op):
    def f(eng, st, a, fn):
        ts = tyargs(eng, fn)
        t0 = strip(ts[0]) if ts else ''
        t1 = strip(ts[1]) if len(ts) > 1 else t0
        if 'LinearCombination' in t0 or 'LinearCombination' in t1 or 'r1cs::Variable' in t0: return m_lc(eng, st, a, fn, op)
        if not is_field_ty(t0):
            if type(L(eng, st, a[0])) is Opq and L(eng, st, a[0]).tag in ('instant', 'duration'): return Opq('duration')
            if t0 in INTS or t0 in ('f32', 'f64', 'F32', 'F64', 'bool'): return int_arith(eng, st, a, fn, op, t0)
            return NotImplemented
        x, y = pw(eng, st, a[0]), pw(eng, st, a[1])
        return {'add': lambda: (x + y).fold(), 'sub': lambda: (x - y).fold(), 'mul': lambda: (x * y).fold()}[op]() if op in ('add', 'sub', 'mul') else field_div(eng, x, y)
    return f
INTS = {'u8': (8, False), 'u16': (16, False), 'u32': (32, False), 'u64': (64, False), 'u128': (128, False), 'usize': (64, False),
        'i8': (8, True), 'i16': (16, True), 'i32': (32, True), 'i64': (64, True), 'i128': (128, True), 'isize': (64, True)}
OPN = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor', 'shl': 'Shl', 'shr': 'Shr'}
def int_arith(eng, st, a, fn, op, t0):
    x, y = L(eng, st, a[0]), L(eng, st, a[1])
    if t0 == 'bool': return eng.boolop(OPN[op], x, y)
    if t0 not in INTS: return Opq('float')
    bits, sg = INTS[t0]
    o = OPN[op]
    if o in ('Add', 'Sub', 'Mul'):
        r = eng.cint(o, x, y, bits, sg, True) if isinstance(x, int) and isinstance(y, int) else eng.sint(o, x, y, bits, sg, True, None)
        v, ov = r.f
        return guard(eng, st, b_not(ov), v, 'Overflow(%s)' % o)
    if o in ('Div', 'Rem'):
        nz = (y != 0) if isinstance(y, int) else eng.simp(y != 0)
        v = eng.cint(o, x, y, bits, sg, False) if isinstance(x, int) and isinstance(y, int) else eng.sint(o, x, y, bits, sg, False, None)
        return guard(eng, st, nz, v, 'division by zero')
    return eng.cint(o, x, y, bits, sg, False) if isinstance(x, int) and isinstance(y, int) else eng.sint(o, x, y, bits, sg, False, None)
def guard(eng, st, c, v, msg):
    """v under condition c, panic otherwise"""
    if not eng.probe: eng.asserts += 1
    if c is True: return v
    if c is False: return eng.panic(st, msg, msg)
    if eng.feasible(st, b_not(c)):
        ps = st.clone(); ps.pc.append(b_not(c))
        eng.panic(ps, msg, msg)
        if not eng.feasible(st, c): return []
        st.pc.append(c)
    return v
def field_div(eng, x, y):
    if y.is_const() and not y.is_zero(): return x.scale(pow(y.cval(), R - 2, R))
    raise Unsupported('field division')

def m_arith_assign(op):
    g = m_arith(op)
    def f(eng, st, a, fn):
        cur = eng.load(st, a[0])
        v = g(eng, st, [cur, a[1]], fn)
        if v is NotImplemented: return v
        if isinstance(v, list): return v
        eng.store(st, a[0], v)
        return UNIT
    return f

def m_square(eng, st, a, fn):
    x = pw(eng, st, a[0]); return (x * x).fold()
def m_square_ip(eng, st, a, fn):
    x = pw(eng, st, a[0]); eng.store(st, a[0], (x * x).fold()); return a[0]
def m_double(eng, st, a, fn):
    x = pw(eng, st, a[0]); return (x + x).fold()
def m_double_ip(eng, st, a, fn):
    x = pw(eng, st, a[0]); eng.store(st, a[0], (x + x).fold()); return a[0]
def m_neg(eng, st, a, fn):
    t = strip(tyargs(eng, fn)[0])
    if is_field_ty(t): return (-pw(eng, st, a[0])).fold()
    if 'LinearCombination' in t: return Opq('lc', L(eng, st, a[0]).d[0].scale(-1))
    return NotImplemented
def m_pow(eng, st, a, fn):
    x = pw(eng, st, a[0]); e = L(eng, st, a[1])
    if type(e) is Opq and e.tag == 'big' and e.d[0].is_const(): n = e.d[0].cval()
    elif type(e) is CSeq and all(isinstance(i, int) for i in e.items): n = sum(w << (64 * i) for i, w in enumerate(e.items))
    else: raise Unsupported('field power')
    if n > 1 << 12: raise Unsupported('large power')
    return x.pow(n).fold()
def m_zero(eng, st, a, fn):
    t = tyargs(eng, fn)[0]
    if is_field_ty(t): return ZERO
    if 'LinearCombination' in t: return Opq('lc', LCv({}))
    return NotImplemented
def m_one(eng, st, a, fn): return ONE
def m_is_zero(eng, st, a, fn): return f_eq(eng, pw(eng, st, a[0]), ZERO)
def m_is_one(eng, st, a, fn): return f_eq(eng, pw(eng, st, a[0]), ONE)

def field_of_int(eng, v):
    if isinstance(v, bool) or z3.is_bool(v): return field_of_bool(v)
    if isinstance(v, int): return Poly.const(v)
    l = lin_of(v)
    if l is not None and all(c >= 0 for c in l[1].values()) and l[0] >= 0:
        p = Poly.const(l[0])
        for k, c in l[1].items(): p = p + field_of_bool(BOOL[k]).scale(c)
        return p.fold()
    # uninterpreted injection of the machine integer
    w = z3.simplify(v) if not z3.is_const(v) else v
    if z3.is_bv_value(w): return Poly.const(w.as_long())
    k = ('int', w.get_id())
    e = eng.fint.get(k)
    if e is None:
        e = (w, Poly.var('int(%s)' % (w.decl().name() if z3.is_const(w) else '#%d' % w.get_id())))
        eng.fint[k] = e
        A.meta[('int', list(e[1].t)[0][0][0])] = w
    return e[1]

def m_from(eng, st, a, fn):
    ts = tyargs(eng, fn)
    if is_field_ty(ts[0]):
        if len(ts) > 1 and is_field_ty(ts[1]): return a[0]
        v = L(eng, st, a[0])
        if type(v) is Opq and v.tag == 'big': return v.d[0]
        if isinstance(v, (int, bool)) or z3.is_expr(v):
            if len(ts) > 1 and ts[1].startswith('i'): raise Unsupported('signed field conversion')
            return field_of_int(eng, v)
        return NotImplemented
    if 'BigInteger' in ts[0]:
        v = L(eng, st, a[0])
        if isinstance(v, Poly): return Opq('big', v)
        if isinstance(v, int) or z3.is_bv(v): return Opq('big', field_of_int(eng, v))
    if len(ts) > 1:
        if ts[0] == ts[1]: return a[0]
        if ts[0] in INTS and (ts[1] in INTS or ts[1] in ('bool', 'char')):
            ti = fn['args']
            return eng.cast('IntToInt', a[0], ti[1], ti[0])
        if 'String' in ts[0] and ts[1] in ('&str', 'std::string::String'): return L(eng, st, a[0])
        if ts[0].startswith('std::vec::Vec') or ts[0].startswith('std::boxed::Box'):
            v = L(eng, st, a[0])
            if type(v) in (CSeq, SSeq): return v
        if ts[0].startswith(('f32', 'f64', 'F32', 'F64')): return Opq('float')
    return NotImplemented
def m_into(eng, st, a, fn):
    ts = tyargs(eng, fn)
    if len(ts) < 2: return NotImplemented
    if ts[0] == ts[1]: return a[0]
    if is_field_ty(ts[0]) and 'BigInteger' in ts[1]: return Opq('big', pw(eng, st, a[0]))
    f2 = dict(fn); f2['args'] = [fn['args'][1], fn['args'][0]]
    return m_from(eng, st, a, f2)
def m_into_repr(eng, st, a, fn): return Opq('big', pw(eng, st, a[0]))
def m_from_repr(eng, st, a, fn):
    v = L(eng, st, a[0])
    return SOME(v.d[0])

BITINFO = {}
def bits_of_field(eng, p):
    """the 256 little-endian bits of the canonical representative of p"""
    r = eng.fbits.get(p)
    if r is not None: return r
    if p.is_const():
        c = p.cval(); r = [bool((c >> i) & 1) for i in range(256)]
    else:
        r = pow2_form(p)
        if r is None:
            nm = 'bits%d' % len(eng.fbits)
            fixed = eng.bit_assign(eng, p) if callable(eng.bit_assign) else eng.bit_assign
            r = [z3.Bool('%s.%d' % (nm, i)) for i in range(255)] + [False]
            for i, b in enumerate(r[:255]): BITINFO[b.decl().name()] = (p, i)
            for i, b in enumerate(fixed): r[i] = b
            eng.bitrel.append((p, r))
    eng.fbits[p] = r
    return r
def pow2_form(p):
    """p = sum 2^k * boolean atom (distinct k < 254): its bits are those booleans"""
    out = [False] * 256
    for m, c in p.t.items():
        if c & (c - 1) or c >= 1 << 254: return None
        k = c.bit_length() - 1
        if out[k] is not False: return None
        if m == (): out[k] = True; continue
        if len(m) != 1 or not A.boolean[m[0][0]]: return None
        b = A.meta.get(('bool', m[0][0]))
        if b is None: return None
        out[k] = b
    return out
def m_to_bits_le(eng, st, a, fn):
    v = L(eng, st, a[0])
    if type(v) is Opq and v.tag == 'big': return CSeq(bits_of_field(eng, v.d[0]))
    return NotImplemented
def m_to_bits_be(eng, st, a, fn):
    v = L(eng, st, a[0])
    if type(v) is Opq and v.tag == 'big': return CSeq(bits_of_field(eng, v.d[0])[::-1])
    return NotImplemented
def m_get_bit(eng, st, a, fn):
    v = L(eng, st, a[0]); i = a[1]
    bs = bits_of_field(eng, v.d[0])
    if isinstance(i, int): return bs[i] if i < 256 else False
    raise Unsupported('symbolic bit index')
def m_field_bits_adt(eng, st, a, fn): return NotImplemented

def m_eq(eng, st, a, fn):
    r = deep_eq(eng, st, L(eng, st, a[0]), L(eng, st, a[1]))
    return r
def m_ne(eng, st, a, fn):
    r = m_eq(eng, st, a, fn)
    return r if r is NotImplemented else b_not(r)
def deep_eq(eng, st, x, y):
    x, y = L(eng, st, x), L(eng, st, y)
    if isinstance(x, Poly) and isinstance(y, Poly): return f_eq(eng, x, y)
    bx = isinstance(x, bool) or z3.is_bool(x); by = isinstance(y, bool) or z3.is_bool(y)
    if bx and by: return eng.boolop('Eq', x, y)
    ix = isinstance(x, int) or z3.is_bv(x); iy = isinstance(y, int) or z3.is_bv(y)
    if ix and iy:
        if isinstance(x, int) and isinstance(y, int): return x == y
        n = x.size() if z3.is_bv(x) else y.size()
        return eng.sint('Eq', x, y, n, False, False, None)
    if type(x) is Agg and type(y) is Agg:
        if x.var != y.var: return False
        r = True
        for p, q in zip(x.f, y.f): r = b_and(r, deep_eq(eng, st, p, q))
        return r
    if type(x) in (Agg, VAgg) and type(y) in (Agg, VAgg):
        aa = x.alts if type(x) is VAgg else {x.var: x.f}
        bb = y.alts if type(y) is VAgg else {y.var: y.f}
        r = False
        for v in aa:
            if v in bb:
                c = b_and(eng.simp(bv(x.var, 64) == v), eng.simp(bv(y.var, 64) == v))
                for p, q in zip(aa[v], bb[v]): c = b_and(c, deep_eq(eng, st, p, q))
                r = b_or(r, c)
        return r
    if type(x) is CSeq and type(y) is CSeq:
        if len(x.items) != len(y.items): return False
        r = True
        for p, q in zip(x.items, y.items): r = b_and(r, deep_eq(eng, st, p, q))
        return r
    if type(x) is StrV and type(y) is StrV and x.kind == y.kind == 'lit': return x.d == y.d
    if type(x) is Opq and type(y) is Opq:
        if x.tag == 'big' and y.tag == 'big': return f_eq(eng, x.d[0], y.d[0])
        if x.tag == 'float': return eng.fresh_bool('feq')
    if x is y: return True
    raise Unsupported('equality of %r and %r' % (type(x), type(y)))

# ------------------------------------------------------------------ strings
def m_to_string(eng, st, a, fn):
    v = L(eng, st, a[0])
    if isinstance(v, StrV): return v
    if (isinstance(v, int) and not isinstance(v, bool)) or z3.is_bv(v): return StrV('int', v)
    return StrV('opaque', ())
def m_from_str(eng, st, a, fn):
    t = tyargs(eng, fn)[0]
    v = L(eng, st, a[0])
    if is_field_ty(t):
        if isinstance(v, StrV) and v.kind == 'int': return OK(field_of_int(eng, v.d))
        if isinstance(v, StrV) and v.kind == 'lit' and v.d.isdigit(): return OK(Poly.const(int(v.d)))
    raise Unsupported('from_str of %r' % (v,))
def m_parse(eng, st, a, fn):
    f2 = dict(fn); f2['args'] = fn['args'][:1]
    return eng.models['std::str::FromStr::from_str'](eng, st, a, f2)
def m_str_id(eng, st, a, fn): return L(eng, st, a[0])
def m_opaque_str(eng, st, a, fn): return StrV('opaque', ())

# ------------------------------------------------------------------ Vec, slices, arrays
def seqref(eng, st, r):
    """a Ref whose target is a sequence"""
    while type(r) is Ref:
        v = eng.load(st, r)
        if type(v) is Ref: r = v
        else: return r
    if type(r) in (CSeq, SSeq): return Ref(eng.alloc(st, r))
    return r
def m_vec_new(eng, st, a, fn): return CSeq(())
def m_from_elem(eng, st, a, fn):
    n = a[1]
    if isinstance(n, int):
        if n > 100000: raise Unsupported('huge vec')
        return CSeq([a[0]] * n)
    v = a[0]
    return SSeq(n, lambda i: v, ('rep', v))
def m_len(eng, st, a, fn): return eng.slen(L(eng, st, a[0]))
def m_is_empty(eng, st, a, fn):
    n = eng.slen(L(eng, st, a[0]))
    return n == 0 if isinstance(n, int) else eng.simp(n == 0)
def m_push(eng, st, a, fn):
    r = seqref(eng, st, a[0])
    v = eng.load(st, r)
    eng.store(st, r, seq_push(eng, v, a[1]))
    return UNIT
def seq_push(eng, v, x):
    if type(v) is CSeq: return CSeq(v.items + (x,))
    return eng.seq_concat(v, CSeq((x,)))
def m_pop(eng, st, a, fn):
    r = seqref(eng, st, a[0]); v = eng.load(st, r)
    if type(v) is CSeq:
        if not v.items: return NONE
        eng.store(st, r, CSeq(v.items[:-1])); return SOME(v.items[-1])
    raise Unsupported('pop')
def m_append(eng, st, a, fn):
    r, q = seqref(eng, st, a[0]), seqref(eng, st, a[1])
    x, y = eng.load(st, r), eng.load(st, q)
    eng.store(st, r, eng.seq_concat(x, y))
    eng.store(st, q, CSeq(()))
    return UNIT
def m_extend_slice(eng, st, a, fn):
    r = seqref(eng, st, a[0])
    y = L(eng, st, a[1])
    eng.store(st, r, eng.seq_concat(eng.load(st, r), y))
    return UNIT
def m_clear(eng, st, a, fn): eng.store(st, seqref(eng, st, a[0]), CSeq(())); return UNIT
def m_truncate(eng, st, a, fn):
    r = seqref(eng, st, a[0]); v = eng.load(st, r)
    if type(v) is CSeq and isinstance(a[1], int): eng.store(st, r, CSeq(v.items[:a[1]])); return UNIT
    n = eng.slen(v)
    def cut(s):
        w = eng.to_sseq(v); eng.store(s, r, SSeq(a[1], w.get)); return UNIT
    return fork(eng, st, ult(eng, a[1], n), cut, lambda s: UNIT)
def m_resize(eng, st, a, fn):
    r = seqref(eng, st, a[0]); v = eng.load(st, r)
    if type(v) is CSeq and isinstance(a[1], int):
        n = a[1]
        eng.store(st, r, CSeq(v.items[:n] + (a[2],) * (n - len(v.items)))); return UNIT
    n = eng.slen(v); x = a[2]
    def cut(s):
        w = eng.to_sseq(v); eng.store(s, r, SSeq(a[1], w.get)); return UNIT
    def grow(s):
        d = isub(eng, a[1], n)
        eng.store(s, r, eng.seq_concat(v, CSeq([x] * d) if isinstance(d, int) and d < 4096 else SSeq(d, lambda i: x, ('rep', x)))); return UNIT
    return fork(eng, st, ult(eng, a[1], n), cut, grow)
def m_reverse(eng, st, a, fn):
    r = seqref(eng, st, a[0]); v = eng.load(st, r)
    if type(v) is CSeq: eng.store(st, r, CSeq(v.items[::-1])); return UNIT
    if type(v) is SSeq:
        n = bv(v.len, 64)
        eng.store(st, r, SSeq(v.len, lambda i: v.get(z3.simplify(n - 1 - bv(i, 64))))); return UNIT
    raise Unsupported('reverse')
def m_insert(eng, st, a, fn):
    r = seqref(eng, st, a[0]); v = eng.load(st, r)
    if type(v) is CSeq and isinstance(a[1], int):
        if a[1] > len(v.items): return eng.panic(st, 'insertion index')
        eng.store(st, r, CSeq(v.items[:a[1]] + (a[2],) + v.items[a[1]:])); return UNIT
    raise Unsupported('insert')
def m_remove(eng, st, a, fn):
    r = seqref(eng, st, a[0]); v = eng.load(st, r)
    if type(v) is CSeq and isinstance(a[1], int):
        if a[1] >= len(v.items): return eng.panic(st, 'removal index')
        eng.store(st, r, CSeq(v.items[:a[1]] + v.items[a[1] + 1:])); return v.items[a[1]]
    raise Unsupported('remove')
def m_swap(eng, st, a, fn):
    r = seqref(eng, st, a[0]); v = eng.load(st, r)
    if type(v) is CSeq and isinstance(a[1], int) and isinstance(a[2], int):
        l = list(v.items); l[a[1]], l[a[2]] = l[a[2]], l[a[1]]
        eng.store(st, r, CSeq(l)); return UNIT
    raise Unsupported('swap')
def m_fill(eng, st, a, fn):
    r = seqref(eng, st, a[0]); v = eng.load(st, r)
    if type(v) is CSeq: eng.store(st, r, CSeq([a[1]] * len(v.items))); return UNIT
    raise Unsupported('fill')
def m_copy_from(eng, st, a, fn):
    r = seqref(eng, st, a[0]); v = eng.load(st, r); w = L(eng, st, a[1])
    n, m = eng.slen(v), eng.slen(w)
    eq = n == m if isinstance(n, int) and isinstance(m, int) else eng.simp(bv(n, 64) == bv(m, 64))
    g = guard(eng, st, eq, 1, 'copy_from_slice length mismatch')
    if g == []: return []
    eng.store(st, r, w); return UNIT
def m_to_vec(eng, st, a, fn): return L(eng, st, a[0])
def m_seq_ident_ref(eng, st, a, fn):
    v = eng.load(st, a[0]) if type(a[0]) is Ref else a[0]
    if type(v) is StrV: return v
    if type(v) is Ref: return v if False else seqref(eng, st, v)
    return a[0]
def m_deref(eng, st, a, fn):
    t = tyargs(eng, fn)[0]
    if t.startswith(('std::vec::Vec', 'std::boxed::Box', 'std::string::String')): return m_seq_ident_ref(eng, st, a, fn)
    if 'Lazy' in t or 'Static' in t or t.startswith('CALLSITE') : return Opq('static', t)
    return NotImplemented
def rng_bounds(eng, st, v, n, tn):
    """(start, end, ok) of a range index value on a sequence of length n"""
    f = v.f if type(v) is Agg else ()
    if 'RangeFull' in tn: return 0, n
    if 'RangeFrom' in tn: return f[0], n
    if 'RangeToInclusive' in tn: return 0, plus1(eng, f[0])
    if 'RangeTo' in tn: return 0, f[0]
    if 'RangeInclusive' in tn: return f[0], plus1(eng, f[1])
    return f[0], f[1]
def plus1(eng, x): return x + 1 if isinstance(x, int) else x + 1
def ule(eng, a, b):
    if isinstance(a, int) and isinstance(b, int): return a <= b
    la, lb = lin_of(a), lin_of(b)
    return eng.sint('Le', a, b, 64, False, False, None)
def ult(eng, a, b):
    if isinstance(a, int) and isinstance(b, int): return a < b
    return eng.sint('Lt', a, b, 64, False, False, None)
def isub(eng, a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    r = z3.simplify(bv(a, 64) - bv(b, 64))
    return r.as_long() if z3.is_bv_value(r) else r
def iadd(eng, a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(a, int): a, b = b, a
    if isinstance(b, int):
        if b == 0: return a
        l = lin_of(a)
        if l is not None and 0 <= lin_range(l)[0] + b and lin_range(l)[1] + b < 1 << 64: return lin_expr((l[0] + b, l[1]), 64)
    r = z3.simplify(bv(a, 64) + bv(b, 64))
    return r.as_long() if z3.is_bv_value(r) else r
def m_index(eng, st, a, fn):
    r = seqref(eng, st, a[0])
    v = eng.load(st, r)
    if type(v) not in (CSeq, SSeq):
        if type(v) is StrV: return StrV('opaque', ())
        return NotImplemented
    n = eng.slen(v)
    i = a[1]
    if type(i) is Agg:
        tn = tyargs(eng, fn)[-1] if len(fn['args']) > 1 else (eng.m.tyname(i.ty) if i.ty is not None else 'Range')
        if 'Range' not in tn: tn = eng.m.tyname(i.ty) if i.ty is not None else 'Range'
        s, e = rng_bounds(eng, st, i, n, tn)
        g = guard(eng, st, b_and(ule(eng, s, e), ule(eng, e, n)), 1, 'slice index out of range')
        if g == []: return []
        return Ref(r.cell, r.path + (('ss', s, isub(eng, e, s)),))
    g = guard(eng, st, ult(eng, i, n), 1, 'index out of bounds')
    if g == []: return []
    return Ref(r.cell, r.path + (('i', i),))
def m_get(eng, st, a, fn):
    r = seqref(eng, st, a[0]); v = eng.load(st, r); n = eng.slen(v); i = a[1]
    if type(i) is Agg:
        s, e = rng_bounds(eng, st, i, n, eng.m.tyname(i.ty) if i.ty is not None else 'Range')
        c = b_and(ule(eng, s, e), ule(eng, e, n)); ok = SOME(Ref(r.cell, r.path + (('ss', s, isub(eng, e, s)),)))
    else:
        c = ult(eng, i, n); ok = SOME(Ref(r.cell, r.path + (('i', i),)))
    return fork(eng, st, c, lambda s: ok, lambda s: NONE)
def fork(eng, st, c, f, g):
    if c is True: return f(st)
    if c is False: return g(st)
    out = []
    if eng.feasible(st, c):
        s = st.clone(); s.pc.append(c); out.append((s, f(s)))
    if eng.feasible(st, b_not(c)):
        s = st.clone(); s.pc.append(b_not(c)); out.append((s, g(s)))
    return out
def m_first(eng, st, a, fn):
    r = seqref(eng, st, a[0]); n = eng.slen(eng.load(st, r))
    return fork(eng, st, ult(eng, 0, n), lambda s: SOME(Ref(r.cell, r.path + (('i', 0),))), lambda s: NONE)
def m_last(eng, st, a, fn):
    r = seqref(eng, st, a[0]); n = eng.slen(eng.load(st, r))
    return fork(eng, st, ult(eng, 0, n), lambda s: SOME(Ref(r.cell, r.path + (('i', isub(eng, n, 1)),))), lambda s: NONE)
def m_split_at(eng, st, a, fn):
    r = seqref(eng, st, a[0]); n = eng.slen(eng.load(st, r)); k = a[1]
    g = guard(eng, st, ule(eng, k, n), 1, 'split_at out of range')
    if g == []: return []
    return Agg(None, 0, (Ref(r.cell, r.path + (('ss', 0, k),)), Ref(r.cell, r.path + (('ss', k, isub(eng, n, k)),))))
def m_concat(eng, st, a, fn):
    v = L(eng, st, a[0])
    if type(v) is CSeq:
        xs = [L(eng, st, x) for x in v.items]
        if xs and isinstance(xs[0], StrV): return StrV('opaque', ())
        r = CSeq(())
        for x in xs: r = eng.seq_concat(r, x)
        return r
    if type(v) is SSeq:
        x = v.get(z3.BitVec(eng.fresh('cc'), 64))
        n = eng.slen(x)
        if not isinstance(n, int) or n == 0: raise Unsupported('concat of units of unknown size')
        tot = z3.simplify(bv(v.len, 64) * n)
        g = guard(eng, st, ule(eng, bv(v.len, 64), z3.BitVecVal((1 << 63) // n, 64)), 1, 'capacity overflow')
        if g == []: return []
        def get(j):
            j = bv(j, 64)
            if n == 1: return eng.seq_get(v.get(j), 0)
            return eng.seq_get(v.get(z3.simplify(z3.UDiv(j, z3.BitVecVal(n, 64)))), z3.simplify(z3.URem(j, z3.BitVecVal(n, 64))))
        return SSeq(tot, get)
    raise Unsupported('concat')
def m_contains(eng, st, a, fn):
    v = L(eng, st, a[0]); x = L(eng, st, a[1])
    if type(v) is CSeq:
        r = False
        for y in v.items: r = b_or(r, deep_eq(eng, st, y, x))
        return r
    raise Unsupported('contains')
def m_box_new(eng, st, a, fn): return Ref(eng.alloc(st, a[0]))
def m_box_uninit(eng, st, a, fn): return Ref(eng.alloc(st, UNINIT))
def m_box_into_vec(eng, st, a, fn):
    v = L(eng, st, a[0])
    return v

# ------------------------------------------------------------------ integers
def m_ipow(eng, st, a, fn):
    b, e = a
    t = fn['decl']
    tn = t[t.index('<impl ') + 6:t.index('>', t.index('<impl '))] if '<impl ' in t else 'usize'
    bits, sg = INTS.get(tn, (64, False))
    if isinstance(b, int) and isinstance(e, int):
        r = b ** e
        w = eng.wrap(r, bits, sg)
        return guard(eng, st, w == r, w, 'Overflow(Pow)')
    if isinstance(b, int) and b == 2:
        ov = z3.ULT(e, z3.BitVecVal(bits - (1 if sg else 0), e.size()))
        x = e
        if e.size() < bits: x = z3.ZeroExt(bits - e.size(), e)
        elif e.size() > bits: x = z3.Extract(bits - 1, 0, e)
        return guard(eng, st, eng.simp(ov), z3.BitVecVal(1, bits) << x, 'Overflow(Pow)')
    if isinstance(e, int) and e <= 4:
        v = 1
        for _ in range(e):
            r = eng.sint('Mul', v, b, bits, sg, True, None) if not (isinstance(v, int) and isinstance(b, int)) else eng.cint('Mul', v, b, bits, sg, True)
            v = guard(eng, st, b_not(r.f[1]), r.f[0], 'Overflow(Mul)')
            if v == []: return []
        return v
    raise Unsupported('symbolic power')
def int_ty_of(fn):
    t = fn['decl']
    return t[t.index('<impl ') + 6:t.index('>', t.index('<impl '))] if '<impl ' in t else 'usize'
def m_int_method(name):
    def f(eng, st, a, fn):
        tn = int_ty_of(fn)
        if tn not in INTS: return NotImplemented
        bits, sg = INTS[tn]
        conc = all(isinstance(x, int) for x in a)
        def b2(op, checked=False):
            return eng.cint(op, a[0], a[1], bits, sg, checked) if conc else eng.sint(op, a[0], a[1], bits, sg, checked, None)
        if name in ('wrapping_add', 'wrapping_sub', 'wrapping_mul'): return b2(name[9:].capitalize())
        if name in ('overflowing_add', 'overflowing_sub', 'overflowing_mul'): return b2(name[12:].capitalize(), True)
        if name in ('checked_add', 'checked_sub', 'checked_mul'):
            r = b2(name[8:].capitalize(), True)
            return fork(eng, st, b_not(r.f[1]), lambda s: SOME(r.f[0]), lambda s: NONE)
        if name in ('saturating_add', 'saturating_sub', 'saturating_mul') and not sg:
            r = b2(name[11:].capitalize(), True)
            lim = 0 if name == 'saturating_sub' else (1 << bits) - 1
            ov = r.f[1]
            if isinstance(ov, bool): return lim if ov else r.f[0]
            return merge(ov, bv(lim, bits), bv(r.f[0], bits))
        if name in ('min', 'max'): return NotImplemented
        if name in ('wrapping_shl', 'wrapping_shr'): return b2('Shl' if name.endswith('l') else 'Shr')
        if name == 'is_power_of_two': 
            x = a[0]
            if conc: return x > 0 and x & (x - 1) == 0
            return eng.simp(z3.And(x != 0, x & (x - 1) == 0))
        if name == 'div_ceil' and not sg:
            if conc: return -(-a[0] // a[1]) if a[1] else eng.panic(st, 'division by zero')
            x, y = bv(a[0], bits), bv(a[1], bits)
            q = z3.UDiv(x, y); return q + z3.If(z3.URem(x, y) != 0, z3.BitVecVal(1, bits), z3.BitVecVal(0, bits))
        if name in ('count_ones', 'leading_zeros', 'trailing_zeros') and conc:
            x = a[0] & ((1 << bits) - 1)
            if name == 'count_ones': return bin(x).count('1')
            if name == 'leading_zeros': return bits - x.bit_length()
            return bits if x == 0 else (x & -x).bit_length() - 1
        if name == 'rem_euclid' and not sg: return int_arith(eng, st, a, fn, 'rem', tn)
        if name == 'div_euclid' and not sg: return int_arith(eng, st, a, fn, 'div', tn)
        if name == 'abs_diff' and not sg:
            if conc: return abs(a[0] - a[1])
            x, y = bv(a[0], bits), bv(a[1], bits)
            return z3.If(z3.UGT(x, y), x - y, y - x)
        return NotImplemented
    return f
def m_ord(name):
    def f(eng, st, a, fn):
        ts = tyargs(eng, fn)
        t = strip(ts[0]) if ts else ''
        x, y = L(eng, st, a[0]), L(eng, st, a[1])
        if t in ('f32', 'f64', 'F32', 'F64'): return eng.fresh_bool('fcmp')
        if 'tracing' in t: return False
        if t not in INTS: return NotImplemented
        bits, sg = INTS[t]
        op = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}.get(name)
        g = lambda o: eng.cint(o, x, y, bits, sg, False) if isinstance(x, int) and isinstance(y, int) else eng.sint(o, x, y, bits, sg, False, None)
        if op: return g(op)
        if name in ('min', 'max'):
            c = g('Le' if name == 'min' else 'Ge')
            if isinstance(c, bool): return x if c else y
            return merge(c, bv(x, bits), bv(y, bits))
        return NotImplemented
    return f
def m_try_into(eng, st, a, fn):
    ts = tyargs(eng, fn)
    src, dst = (ts[0], ts[1]) if 'TryInto' in fn['decl'] else (ts[1], ts[0])
    v = a[0]
    if src in INTS and dst in INTS:
        sb, ss = INTS[src]; db, ds = INTS[dst]
        ti = (fn['args'][0], fn['args'][1]) if 'TryInto' in fn['decl'] else (fn['args'][1], fn['args'][0])
        if isinstance(v, int):
            lo, hi = (-(1 << (db - 1)), (1 << (db - 1)) - 1) if ds else (0, (1 << db) - 1)
            return OK(v) if lo <= v <= hi else ERR(Opq('err'))
        if not ss and not ds:
            r = eng.cast('IntToInt', v, ti[0], ti[1])
            if db >= sb: return OK(r)
            return fork(eng, st, eng.simp(z3.ULT(v, z3.BitVecVal(1 << db, sb))), lambda s: OK(r), lambda s: ERR(Opq('err')))
        if not ss and ds:
            r = eng.cast('IntToInt', v, ti[0], ti[1])
            if db > sb: return OK(r)
            return fork(eng, st, eng.simp(z3.ULT(v, z3.BitVecVal(1 << (db - 1), sb))), lambda s: OK(r), lambda s: ERR(Opq('err')))
        return NotImplemented
    w = L(eng, st, v)
    if type(w) is CSeq and '[' in dst:
        return NotImplemented
    return NotImplemented

# ------------------------------------------------------------------ constraint systems (ark-relations)
class LCv:
    """linear combination: variable -> Poly coefficient"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def add(self, var, c):
        r = dict(self.t); v = r.get(var)
        n = c if v is None else v + c
        if n.is_zero(): r.pop(var, None)
        else: r[var] = n
        return LCv(r)
    def plus(self, o, k=1):
        r = self
        for v, c in o.t.items(): r = r.add(v, c if k == 1 else c.scale(k))
        return r
    def scale(self, k): return LCv({v: c.scale(k) for v, c in self.t.items()})
    def mulp(self, p): return LCv({v: c * p for v, c in self.t.items()})
    def __repr__(self): return 'LC' + repr(self.t)

def var_of(eng, st, v):
    v = L(eng, st, v)
    if type(v) is Opq and v.tag == 'var': return v.d[0]
    if type(v) is Agg and v.ty is not None and eng.types[v.ty]['k'] == 'adt' and eng.types[v.ty]['name'].endswith('Variable'):
        return eng.types[v.ty]['v'][v.var]['name'] if eng.types[v.ty]['v'] else 'One'
    if type(v) is Agg and v.ty is not None: return {'One': 'One', 'Zero': 'Zero'}.get(eng.types[v.ty]['v'][v.var]['name'])
    raise Unsupported('variable %r' % (v,))
def to_lc(eng, st, v):
    v = L(eng, st, v)
    if type(v) is Opq and v.tag == 'lc': return v.d[0]
    if type(v) is Agg and len(v.f) == 2 and isinstance(L(eng, st, v.f[0]), Poly):
        c = L(eng, st, v.f[0]); w = L(eng, st, v.f[1])
        if type(w) is Opq and w.tag == 'lc': return w.d[0].mulp(c)
        x = var_of(eng, st, w)
        return LCv({}) if x == 'Zero' or c.is_zero() else LCv({x: c})
    x = var_of(eng, st, v)
    return LCv({}) if x == 'Zero' else LCv({x: ONE})
def m_lc(eng, st, a, fn, op):
    if op == 'mul':
        l = to_lc(eng, st, a[0]); return Opq('lc', l.mulp(pw(eng, st, a[1])))
    x, y = to_lc(eng, st, a[0]), to_lc(eng, st, a[1])
    return Opq('lc', x.plus(y, 1 if op == 'add' else -1))
def m_lc_zero(eng, st, a, fn): return Opq('lc', LCv({}))
CSCELL = ('cs', 0)
def cs_get(st): return st.heap[CSCELL]
class CS:
    """persistent record of an R1CS under construction"""
    __slots__ = ('mode', 'nin', 'nwit', 'vars', 'cons')
    def __init__(self, mode, nin=0, nwit=0, vars=None, cons=None):
        self.mode = mode; self.nin = nin; self.nwit = nwit; self.vars = vars; self.cons = cons
    def listed(self):
        def un(l):
            o = []
            while l is not None: o.append(l[1]); l = l[0]
            return o[::-1]
        return un(self.vars), un(self.cons)
def m_new_var(kind):
    def f(eng, st, a, fn):
        cs = cs_get(st)
        if cs.mode == 'setup':
            if kind == 'I': c2 = CS(cs.mode, cs.nin + 1, cs.nwit, (cs.vars, (('I', cs.nin), None)), cs.cons); nm = ('I', cs.nin)
            else: c2 = CS(cs.mode, cs.nin, cs.nwit + 1, (cs.vars, (('W', cs.nwit), None)), cs.cons); nm = ('W', cs.nwit)
            st.heap[CSCELL] = c2
            return OK(Opq('var', nm))
        res = eng.call_value(a[1], [], st)
        out = []
        for s, v in res:
            v = L(eng, s, v)
            if type(v) is VAgg: raise Unsupported('symbolic assignment result')
            if v.var == 1: out.append((s, v)); continue
            val_ = v.f[0]
            cs = cs_get(s)
            nm = (kind, cs.nin if kind == 'I' else cs.nwit)
            if kind == 'I': s.heap[CSCELL] = CS(cs.mode, cs.nin + 1, cs.nwit, (cs.vars, (nm, val_)), cs.cons)
            else: s.heap[CSCELL] = CS(cs.mode, cs.nin, cs.nwit + 1, (cs.vars, (nm, val_)), cs.cons)
            out.append((s, OK(Opq('var', nm))))
        return out
    return f
def m_new_lc(eng, st, a, fn): raise Unsupported('new_lc')
def m_enforce(eng, st, a, fn):
    cs = cs_get(st)
    t = tuple(to_lc(eng, st, x) for x in a[1:4])
    st.heap[CSCELL] = CS(cs.mode, cs.nin, cs.nwit, cs.vars, (cs.cons, t + (eng.where(),)))
    return OK(UNIT)
def m_cs_ref(eng, st, a, fn): return Opq('csref')
def m_cs_is_setup(eng, st, a, fn): return cs_get(st).mode == 'setup'

# ------------------------------------------------------------------ files
def fkey(eng, st, p):
    p = L(eng, st, p)
    if isinstance(p, StrV): return ('file', p.kind, p.d if isinstance(p.d, str) else str(p.d))
    if type(p) is Opq: return ('file', p.tag, str(p.d))
    raise Unsupported('path %r' % (p,))
def m_oo_new(eng, st, a, fn): return Opq('oo', frozenset())
def m_oo_flag(name):
    def f(eng, st, a, fn):
        o = eng.load(st, a[0])
        s = set(o.d[0])
        if a[1] is True: s.add(name)
        elif a[1] is False: s.discard(name)
        else: raise Unsupported('symbolic open flag')
        eng.store(st, a[0], Opq('oo', frozenset(s)))
        return a[0]
    return f
ZARR = lambda: z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8))
def open_file(eng, st, path, flags):
    k = fkey(eng, st, path)
    cur = st.heap.get(k)
    if cur is None: cur = Opq('filec', z3.Array('disk0', z3.BitVecSort(64), z3.BitVecSort(8)), z3.BitVec('disklen0', 64))
    if 'truncate' in flags and 'write' in flags: cur = Opq('filec', ZARR(), 0)
    st.heap[k] = cur
    pos = eng.alloc(st, 0)
    eng.opened.append((k, flags))
    return OK(Opq('file', k, pos, flags))
def m_oo_open(eng, st, a, fn):
    o = eng.load(st, a[0])
    return open_file(eng, st, a[1], o.d[0])
def m_file_open(eng, st, a, fn): return open_file(eng, st, a[0], frozenset(['read']))
def m_file_create(eng, st, a, fn): return open_file(eng, st, a[0], frozenset(['write', 'create', 'truncate']))
def handle(eng, st, r):
    h = L(eng, st, r)
    if type(h) is Opq and h.tag in ('bufw', 'bufr'): return handle(eng, st, h.d[0])
    if type(h) is Opq and h.tag == 'file': return h
    raise Unsupported('file handle %r' % (h,))
def m_seek(eng, st, a, fn):
    h = handle(eng, st, a[0]); v = L(eng, st, a[1])
    nm = None
    if type(v) is Agg and v.ty is not None: nm = eng.types[v.ty]['v'][v.var]['name']
    elif type(v) is Agg: nm = ['Start', 'End', 'Current'][v.var]
    if nm == 'Start': p = v.f[0]
    elif nm == 'Current': p = iadd(eng, st.heap[h.d[1]], v.f[0])
    elif nm == 'End':
        c = st.heap[h.d[0]]; p = iadd(eng, c.d[1], v.f[0])
    else: raise Unsupported('seek')
    st.heap[h.d[1]] = p
    return OK(p)
def m_rewind(eng, st, a, fn):
    h = handle(eng, st, a[0]); st.heap[h.d[1]] = 0; return OK(UNIT)
def addr_cmp(i, j):
    """True/False when two addresses are known equal/distinct, else None"""
    if isinstance(i, z3.ExprRef) and isinstance(j, z3.ExprRef) and i.eq(j): return True
    def lin(x):
        if isinstance(x, int): return (x, {})
        if z3.is_bv_value(x): return (x.as_long(), {})
        l = lin_of(x)
        return l
    a, b = lin(i), lin(j)
    if a is None or b is None: return None
    d = lin_add(a, b, -1)
    if not d[1]: return d[0] == 0
    lo, hi = lin_range(d)
    if lo > 0 or hi < 0: return False
    return None
def sel(arr, i):
    """array read, seeing through stores to addresses known to be distinct"""
    a = arr
    while z3.is_store(a):
        c = addr_cmp(i, a.arg(1))
        if c is True: return a.arg(2)
        if c is None: return z3.Select(arr, bv(i, 64)) if a is arr else z3.Select(a, bv(i, 64))
        a = a.arg(0)
    return z3.Select(a, bv(i, 64))
def m_read(exact):
    def f(eng, st, a, fn):
        h = handle(eng, st, a[0])
        if 'read' not in h.d[2]: return ERR(Opq('err'))
        r = seqref(eng, st, a[1]); buf = eng.load(st, r)
        n = eng.slen(buf)
        if not isinstance(n, int): raise Unsupported('read into a buffer of symbolic length')
        c = st.heap[h.d[0]]; pos = st.heap[h.d[1]]; ln = c.d[1]
        conds = [ult(eng, iadd(eng, pos, i), ln) for i in range(n)]
        arr = c.d[0]
        def full(s):
            eng.store(s, r, CSeq([sel(arr, iadd(eng, pos, i)) for i in range(n)]))
            s.heap[h.d[1]] = iadd(eng, pos, n)
        if n == 0: return OK(UNIT if exact else 0)
        allc = conds[-1]
        def ok(s): full(s); return OK(UNIT if exact else n)
        if exact: return fork(eng, st, allc, ok, lambda s: ERR(Opq('err')))
        def part(s):
            # fewer than n bytes are left
            if n == 1: return OK(0)
            old = eng.load(s, r)
            items = []; cnt = 0
            for i in range(n):
                items.append(merge(conds[i], sel(arr, iadd(eng, pos, i)), bv(old.items[i], 8)) if not isinstance(conds[i], bool) else (sel(arr, iadd(eng, pos, i)) if conds[i] else old.items[i]))
                cnt = iadd(eng, cnt, z3.If(conds[i], z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)) if not isinstance(conds[i], bool) else int(conds[i]))
            eng.store(s, r, CSeq(items)); s.heap[h.d[1]] = iadd(eng, pos, cnt)
            return OK(cnt)
        return fork(eng, st, allc, ok, part)
    return f
def m_write(all_):
    def f(eng, st, a, fn):
        h = handle(eng, st, a[0])
        b = L(eng, st, a[1])
        if type(b) is StrV: b = SSeq(eng.fresh_bv('strlen'), lambda i: 0)
        if 'write' not in h.d[2] and 'append' not in h.d[2]: return ERR(Opq('err'))
        c = st.heap[h.d[0]]; ln = c.d[1]
        pos = st.heap[h.d[1]] if 'append' not in h.d[2] else ln
        n = eng.slen(b)
        if type(b) is CSeq and n <= 4096:
            arr = c.d[0]
            for i, x in enumerate(b.items): arr = z3.Store(arr, bv(iadd(eng, pos, i), 64), bv(x, 8))
        else:
            w = eng.to_sseq(b); j = z3.BitVec(eng.fresh('j'), 64)
            arr = z3.Lambda([j], z3.If(z3.And(z3.UGE(j, bv(pos, 64)), z3.ULT(j - bv(pos, 64), bv(n, 64))), bv(w.get(j - bv(pos, 64)), 8), sel(c.d[0], j)))
        end = iadd(eng, pos, n)
        if isinstance(end, int) and isinstance(ln, int): ln = max(ln, end)
        else:
            g = ule(eng, end, ln)
            if g is True: pass
            elif eng.valid(st, g)[0]: pass
            elif eng.valid(st, ule(eng, ln, end))[0]: ln = end
            else: ln = z3.If(g, bv(ln, 64), bv(end, 64))
        st.heap[h.d[0]] = Opq('filec', arr, ln)
        st.heap[h.d[1]] = end
        return OK(UNIT if all_ else n)
    return f
def m_set_len(eng, st, a, fn):
    h = handle(eng, st, a[0])
    if 'write' not in h.d[2]: return ERR(Opq('err'))
    c = st.heap[h.d[0]]; n = a[1]; ln = c.d[1]
    if isinstance(ln, int) and ln == 0: arr = ZARR()
    else:
        j = z3.BitVec(eng.fresh('j'), 64)
        arr = z3.Lambda([j], z3.If(z3.ULT(j, bv(ln, 64)), sel(c.d[0], j), z3.BitVecVal(0, 8)))
    st.heap[h.d[0]] = Opq('filec', arr, n)
    return OK(UNIT)
def m_flush(eng, st, a, fn): return OK(UNIT)
def m_bufw_new(eng, st, a, fn): return Opq('bufw', a[-1] if type(L(eng, st, a[-1])) is Opq and L(eng, st, a[-1]).tag == 'file' else a[0])
def m_fs_write(eng, st, a, fn):
    r = open_file(eng, st, a[0], frozenset(['write', 'create', 'truncate']))
    cell = eng.alloc(st, r.f[0])
    return m_write(True)(eng, st, [Ref(cell), a[1]], fn)
def m_file_metadata(eng, st, a, fn):
    h = handle(eng, st, a[0]); return OK(Opq('meta', st.heap[h.d[0]].d[1]))
def m_meta_len(eng, st, a, fn): return L(eng, st, a[0]).d[0]

# ------------------------------------------------------------------ randomness
def m_gen_range(eng, st, a, fn):
    rg = L(eng, st, a[1]); ts = tyargs(eng, fn)
    t = next((x for x in ts if x in INTS), None)
    if t is None:
        d = rg.ty; t = None
        if d is not None and eng.types[d]['args']: t = eng.m.tyname(eng.types[d]['args'][0])
    if t not in INTS: raise Unsupported('gen_range')
    bits, sg = INTS[t]
    lo, hi = rg.f[0], rg.f[1]
    incl = rg.ty is not None and 'Inclusive' in eng.m.tyname(rg.ty)
    v = eng.fresh_rand(bits)
    if isinstance(lo, int) and isinstance(hi, int):
        h2 = hi + 1 if incl else hi
        if not lo < h2: return eng.panic(st, 'empty range in gen_range')
        if h2 - lo == 1: return lo
        if h2 - lo == 2:
            b = eng.fresh_bool('rnd')
            e = z3.If(b, z3.BitVecVal(lo + 1, bits), z3.BitVecVal(lo, bits))
            l = lin_ite(b, 1, 0)
            return set_lin(e, (l[0] + lo, l[1]))
        eng.rand_range[v.decl().name()] = (lo, h2)
    cmp = (lambda x, y: x < y) if sg else z3.ULT
    le = (lambda x, y: x <= y) if sg else z3.ULE
    g = guard(eng, st, eng.simp(cmp(bv(lo, bits), bv(hi, bits))) if not incl else eng.simp(le(bv(lo, bits), bv(hi, bits))), 1, 'empty range in gen_range')
    if g == []: return []
    st.pc.append(z3.And(le(bv(lo, bits), v), (le if incl else cmp)(v, bv(hi, bits))))
    eng.__dict__.setdefault('draws', set()).add(v.decl().name())
    return v
def m_gen(eng, st, a, fn):
    t = [x for x in tyargs(eng, fn)][-1]
    return rand_val(eng, t)
def rand_val(eng, t):
    if t == 'bool': return eng.fresh_bool('rnd')
    if t in INTS: return eng.fresh_rand(INTS[t][0])
    if is_field_ty(t): return Poly.var(eng.fresh('rndf'))
    if t.startswith(('F', 'f')): return Opq('float')
    raise Unsupported('random ' + t)
def m_gen_bool(eng, st, a, fn): return eng.fresh_bool('rnd')
def m_rand_field(eng, st, a, fn):
    for t in tyargs(eng, fn):
        if is_field_ty(t): return Poly.var(eng.fresh('rndf'))
    return NotImplemented

# ------------------------------------------------------------------ groth16
def snap(eng, st, v, depth=0):
    """deep value of v (references followed) for recording"""
    if depth > 12: return v
    v = L(eng, st, v)
    if type(v) is Agg: return Agg(v.ty, v.var, tuple(snap(eng, st, x, depth + 1) for x in v.f))
    if type(v) is CSeq: return CSeq([snap(eng, st, x, depth + 1) for x in v.items])
    return v
def m_groth(name):
    def f(eng, st, a, fn):
        args = [snap(eng, st, x) for x in a]
        call = (name, args, list(st.pc))
        if not eng.probe: eng.calls.append(call)
        st.heap[('ghost', 'calls')] = st.heap.get(('ghost', 'calls'), ()) + ((name, tuple(args)),)
        if name == 'verify_proof':
            okc = eng.fresh_bool('verify_ok'); val_ = eng.fresh_bool('verify_accepts')
            st.heap[('ghost', 'verify')] = st.heap.get(('ghost', 'verify'), ()) + ((okc, val_),)
            return fork(eng, st, okc, lambda s: OK(val_), lambda s: ERR(Opq('err')))
        if name == 'prepare_verifying_key': return Opq('pvk', args[0])
        if name == 'generate_random_parameters': return OK(Opq('params', args[0]))
        if name == 'create_random_proof': return OK(Opq('proof', args[0]))
        return Opq(name)
    return f

# ------------------------------------------------------------------ misc
def m_unit(eng, st, a, fn): return UNIT
def m_opq(tag): return lambda eng, st, a, fn: Opq(tag)
def m_false(eng, st, a, fn): return False
def m_clone(eng, st, a, fn):
    t = tyargs(eng, fn)[0]
    v = eng.load(st, a[0]) if type(a[0]) is Ref else a[0]
    if type(v) is Ref and not t.startswith('&'):
        w = eng.load(st, v)        # Box
        if t.startswith('std::boxed::Box'): return Ref(eng.alloc(st, w))
        return v
    if type(v) is Agg and v.ty is not None and eng.types[v.ty]['k'] == 'adt' and eng.types[v.ty]['local']: return NotImplemented
    return v
def m_panic(eng, st, a, fn):
    msg = fn['decl']
    return eng.panic(st, msg, 'panic')
def m_id(eng, st, a, fn): return a[0]
def m_call_once(eng, st, a, fn):
    f, tup = a[0], a[1]
    args = list(tup.f) if type(tup) is Agg else [tup]
    return eng.call_value(f, args, st)
def m_mem_swap(eng, st, a, fn):
    x, y = eng.load(st, a[0]), eng.load(st, a[1])
    eng.store(st, a[0], y); eng.store(st, a[1], x); return UNIT
def m_mem_replace(eng, st, a, fn):
    x = eng.load(st, a[0]); eng.store(st, a[0], a[1]); return x
def m_mem_take(eng, st, a, fn):
    x = eng.load(st, a[0]); t = tyargs(eng, fn)[0]
    eng.store(st, a[0], default(eng, t)); return x
def default(eng, t):
    if t.startswith('std::vec::Vec'): return CSeq(())
    if t in INTS: return 0
    if t == 'bool': return False
    if is_field_ty(t): return ZERO
    if t.startswith('std::option::Option'): return NONE
    raise Unsupported('default ' + t)
def m_default(eng, st, a, fn):
    try: return default(eng, tyargs(eng, fn)[0])
    except Unsupported: return NotImplemented
def m_as_ref(eng, st, a, fn):
    t = tyargs(eng, fn)[0]
    if t.startswith('std::option') : return NotImplemented
    return m_seq_ident_ref(eng, st, a, fn)
def opt_parts(v):
    """condition 'is Some', payload"""
    if type(v) is Agg: return (v.var == 1, v.f[0] if v.var == 1 else None)
    raise Unsupported('option %r' % (v,))
def m_opt_as_ref(eng, st, a, fn):
    r = a[0]
    v = eng.load(st, r)
    while type(v) is Ref: r = v; v = eng.load(st, r)
    if type(v) is Agg:
        if v.var == 0: return NONE
        return SOME(Ref(r.cell, r.path + (('d', 1), ('f', 0))))
    if type(v) is VAgg:
        return VAgg(None, v.var, {0: (), 1: (Ref(r.cell, r.path + (('d', 1), ('f', 0))),)})
    return NotImplemented
def m_opt_cloned(eng, st, a, fn):
    v = a[0]
    if type(v) is Agg: return NONE if v.var == 0 else SOME(eng.load(st, v.f[0]))
    if type(v) is VAgg: return VAgg(None, v.var, {k: tuple(eng.load(st, x) for x in f) for k, f in v.alts.items()})
    return NotImplemented

def register(eng):
    M_ = eng.models
    eng.feq = {}; eng.feq_rev = {}; eng.fint = {}; eng.fbits = {}; eng.bitrel = []; eng.bit_assign = []
    eng.opened = []; eng.calls = []; eng.rands = []; eng.rand_range = {}
    def fr(bits):
        v = eng.fresh_bv('rnd', bits); eng.rands.append(v); return v
    eng.fresh_rand = fr
    P = []
    M_['patterns'] = P
    for op in ('add', 'sub', 'mul', 'div', 'rem', 'bitand', 'bitor', 'bitxor', 'shl', 'shr'):
        c = {'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor'}.get(op, op.capitalize())
        M_['std::ops::%s::%s' % (c, op)] = m_arith(op)
        M_['std::ops::%sAssign::%s_assign' % (c, op)] = m_arith_assign(op)
    M_['std::ops::Neg::neg'] = m_neg
    for pre in ('std::prelude::v1::', 'std::option::Option::', 'core::option::Option::', 'std::result::Result::', 'core::result::Result::'):
        M_[pre + 'Some'] = lambda eng, st, a, fn: SOME(a[0])
        M_[pre + 'Ok'] = lambda eng, st, a, fn: Agg(None, 0, (a[0],))
        M_[pre + 'Err'] = lambda eng, st, a, fn: Agg(None, 1, (a[0],))
    M_['ark_ff::Field::square'] = m_square
    M_['ark_ff::Field::square_in_place'] = m_square_ip
    M_['ark_ff::Field::double'] = m_double
    M_['ark_ff::Field::double_in_place'] = m_double_ip
    M_['ark_ff::Field::pow'] = m_pow
    for z in ('ark_ff::Zero', 'num_traits::Zero', 'ark_std::Zero', 'num_traits::identities::Zero'):
        M_[z + '::zero'] = m_zero; M_[z + '::is_zero'] = m_is_zero
    for z in ('ark_ff::One', 'num_traits::One', 'ark_std::One'):
        M_[z + '::one'] = m_one; M_[z + '::is_one'] = m_is_one
    M_['std::convert::From::from'] = m_from
    M_['std::convert::Into::into'] = m_into
    M_['ark_ff::PrimeField::into_repr'] = m_into_repr
    M_['ark_ff::PrimeField::into_bigint'] = m_into_repr
    M_['ark_ff::PrimeField::from_repr'] = m_from_repr
    M_['ark_ff::BigInteger::to_bits_le'] = m_to_bits_le
    M_['ark_ff::BigInteger::to_bits_be'] = m_to_bits_be
    M_['ark_ff::BigInteger::get_bit'] = m_get_bit
    M_['std::cmp::PartialEq::eq'] = m_eq
    M_['std::cmp::PartialEq::ne'] = m_ne
    for n in ('lt', 'le', 'gt', 'ge'): M_['std::cmp::PartialOrd::' + n] = m_ord(n)
    for n in ('min', 'max'): M_['std::cmp::Ord::' + n] = m_ord(n); M_['std::cmp::' + n] = m_ord(n)
    M_['std::string::ToString::to_string'] = m_to_string
    M_['std::str::FromStr::from_str'] = m_from_str
    M_['std::str::<impl str>::parse'] = m_parse
    M_['core::str::<impl str>::parse'] = m_parse
    for n in ('std::string::String::as_str', 'std::borrow::ToOwned::to_owned', 'std::path::Path::to_str', 'std::str::<impl str>::to_owned', 'std::str::<impl str>::to_string', 'std::string::String::from', 'std::path::Path::new'):
        M_[n] = m_to_owned
    P.append((lambda d, fn: d in ('std::fmt::format', 'alloc::fmt::format', 'std::fmt::Arguments::<\'a>::new', 'std::string::String::new') or 'fmt::rt::Argument' in d or d.startswith('std::fmt::Arguments'), m_fmt))
    # vectors and slices
    for pre in ('std::vec::Vec::<T>::', 'std::vec::Vec::<T, A>::'):
        for n, f in (('new', m_vec_new), ('with_capacity', m_vec_new), ('new_in', m_vec_new), ('with_capacity_in', m_vec_new), ('len', m_len), ('is_empty', m_is_empty), ('push', m_push), ('pop', m_pop),
                     ('append', m_append), ('extend_from_slice', m_extend_slice), ('clear', m_clear), ('truncate', m_truncate), ('resize', m_resize), ('insert', m_insert), ('remove', m_remove),
                     ('as_slice', m_seq_ident_ref), ('as_mut_slice', m_seq_ident_ref), ('reserve', m_unit), ('reserve_exact', m_unit), ('shrink_to_fit', m_unit), ('capacity', m_len), ('into_boxed_slice', m_id)):
            M_[pre + n] = f
    for pre in ('std::slice::<impl [T]>::', 'core::slice::<impl [T]>::', 'alloc::slice::<impl [T]>::', 'std::array::<impl [T; N]>::'):
        for n, f in (('len', m_len), ('is_empty', m_is_empty), ('to_vec', m_to_vec), ('into_vec', m_to_vec), ('get', m_get), ('get_mut', m_get), ('first', m_first), ('last', m_last), ('split_at', m_split_at), ('split_at_mut', m_split_at),
                     ('swap', m_swap), ('reverse', m_reverse), ('fill', m_fill), ('copy_from_slice', m_copy_from), ('clone_from_slice', m_copy_from), ('contains', m_contains), ('concat', m_concat), ('as_slice', m_seq_ident_ref)):
            M_[pre + n] = f
    M_['std::vec::from_elem'] = m_from_elem
    M_['std::ops::Deref::deref'] = m_deref
    M_['std::ops::DerefMut::deref_mut'] = m_deref
    M_['std::convert::AsRef::as_ref'] = m_as_ref
    M_['std::convert::AsMut::as_mut'] = m_as_ref
    M_['std::borrow::Borrow::borrow'] = m_as_ref
    M_['std::ops::Index::index'] = m_index
    M_['std::ops::IndexMut::index_mut'] = m_index
    M_['std::boxed::Box::<T>::new'] = m_box_new
    M_['std::boxed::Box::<T>::new_uninit'] = m_box_uninit
    M_['std::boxed::box_new_uninit'] = m_box_uninit
    M_['std::boxed::box_assume_init_into_vec_unsafe'] = m_box_into_vec
    # integers
    P.append((lambda d, fn: d.startswith(('core::num::<impl ', 'std::num::<impl ')) and d.endswith('>::pow'), m_ipow))
    for n in ('wrapping_add', 'wrapping_sub', 'wrapping_mul', 'checked_add', 'checked_sub', 'checked_mul', 'saturating_add', 'saturating_sub', 'saturating_mul', 'overflowing_add', 'overflowing_sub', 'overflowing_mul',
              'is_power_of_two', 'div_ceil', 'count_ones', 'leading_zeros', 'trailing_zeros', 'rem_euclid', 'div_euclid', 'abs_diff', 'wrapping_shl', 'wrapping_shr'):
        P.append(((lambda nn: lambda d, fn: d.startswith(('core::num::<impl ', 'std::num::<impl ')) and d.endswith('>::' + nn))(n), m_int_method(n)))
    M_['std::convert::TryInto::try_into'] = m_try_into
    M_['std::convert::TryFrom::try_from'] = m_try_into
    # constraint systems
    P.append((lambda d, fn: d.endswith('::new_witness_variable'), m_new_var('W')))
    P.append((lambda d, fn: d.endswith('::new_input_variable'), m_new_var('I')))
    P.append((lambda d, fn: d.endswith('ConstraintSystemRef::<F>::enforce_constraint'), m_enforce))
    P.append((lambda d, fn: d.endswith('ConstraintSystemRef::<F>::is_in_setup_mode'), m_cs_is_setup))
    P.append((lambda d, fn: 'LinearCombination<F>>::zero' in d or 'LinearCombination::<F>::zero' in d or d.endswith('LinearCombination::<F>::new'), m_lc_zero))
    P.append((lambda d, fn: 'r1cs::Namespace' in d or 'r1cs::IntoNamespace' in d or d.endswith('::into_ns') or d.endswith('ns::<F>'), m_cs_ref))
    # files
    M_['std::fs::OpenOptions::new'] = m_oo_new
    M_['std::fs::File::options'] = m_oo_new
    for n in ('read', 'write', 'create', 'truncate', 'append', 'create_new'): M_['std::fs::OpenOptions::' + n] = m_oo_flag(n)
    M_['std::fs::OpenOptions::open'] = m_oo_open
    M_['std::fs::File::open'] = m_file_open
    M_['std::fs::File::create'] = m_file_create
    M_['std::fs::File::set_len'] = m_set_len
    M_['std::fs::File::sync_all'] = m_flush
    M_['std::fs::File::sync_data'] = m_flush
    M_['std::fs::File::metadata'] = m_file_metadata
    M_['std::fs::Metadata::len'] = m_meta_len
    M_['std::fs::write'] = m_fs_write
    M_['std::io::Seek::seek'] = m_seek
    M_['std::io::Seek::rewind'] = m_rewind
    M_['std::io::Read::read'] = m_read(False)
    M_['std::io::Read::read_exact'] = m_read(True)
    M_['std::io::Write::write_all'] = m_write(True)
    M_['std::io::Write::write'] = m_write(False)
    M_['std::io::Write::flush'] = m_flush
    for n in ('std::io::BufWriter::<W>::new', 'std::io::BufWriter::<W>::with_capacity', 'std::io::BufReader::<R>::new', 'std::io::BufReader::<R>::with_capacity'): M_[n] = m_bufw_new
    M_['std::io::_print'] = m_unit
    M_['std::io::_eprint'] = m_unit
    # randomness
    for n in ('rand::Rng', 'ark_std::rand::Rng', 'rand::prelude::Rng'):
        M_[n + '::gen_range'] = m_gen_range; M_[n + '::gen'] = m_gen; M_[n + '::gen_bool'] = m_gen_bool
    M_['rand::random'] = m_gen
    M_['rand::thread_rng'] = m_opq('rng')
    M_['ark_std::UniformRand::rand'] = m_rand_field
    M_['ark_ff::UniformRand::rand'] = m_rand_field
    for n in ('verify_proof', 'create_random_proof', 'generate_random_parameters', 'prepare_verifying_key', 'create_proof', 'verify_proof_with_prepared_inputs'):
        P.append(((lambda nn: lambda d, fn: d.startswith('ark_groth16::') and d.endswith('::' + nn))(n), m_groth(n)))
    # time, misc
    M_['std::time::Instant::now'] = m_opq('instant')
    M_['std::time::Instant::elapsed'] = m_opq('duration')
    M_['std::time::Instant::duration_since'] = m_opq('duration')
    P.append((lambda d, fn: d.startswith('std::time::Duration::as_secs'), m_opq('float')))
    P.append((lambda d, fn: d.startswith('std::time::Duration::as_'), lambda eng, st, a, fn: eng.fresh_bv('time', 128)))
    M_['std::clone::Clone::clone'] = m_clone
    M_['std::mem::swap'] = m_mem_swap
    M_['std::mem::replace'] = m_mem_replace
    M_['std::mem::take'] = m_mem_take
    M_['std::mem::drop'] = m_unit
    M_['std::mem::forget'] = m_unit
    M_['std::default::Default::default'] = m_default
    for n in ('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call'): M_['std::ops::' + n] = m_call_once
    M_['std::option::Option::<T>::as_ref'] = m_opt_as_ref
    M_['std::option::Option::<T>::as_mut'] = m_opt_as_ref
    M_['std::option::Option::<&T>::cloned'] = m_opt_cloned
    M_['std::option::Option::<&T>::copied'] = m_opt_cloned
    P.append((lambda d, fn: d.startswith(('core::panicking::', 'std::rt::begin_panic', 'std::panicking::')) or d.endswith('unwrap_failed') or d.endswith('expect_failed') or 'overflow_panic' in d or d.endswith('panic_fmt') or d.endswith('panic_explicit') or 'unwrap_failed_inner' in d or 'handle_alloc_error' in d, m_panic))
    M_['std::hint::black_box'] = m_id
    M_['std::intrinsics::cold_path'] = m_unit
    P.append((lambda d, fn: d.startswith('std::intrinsics::is_val_statically_known'), m_false))
    P.append((lambda d, fn: d.endswith('precondition_check'), m_unit))
    P.append((lambda d, fn: d.startswith('tracing::__macro_support::__is_enabled'), m_false))
    P.append((lambda d, fn: d.endswith('Interest::is_never'), lambda e, s, a, f: True))
    P.append((lambda d, fn: d.startswith(('tracing::', 'tracing_core::')), m_opq('tracing')))
    iters.register(eng, M_, P)
    import models_storage
    models_storage.register(eng, M_, P)
    models_storage.register_bag(eng, M_)
    models_storage.register_sync(eng, M_)
    models_storage.register_bincode(eng, M_)

def m_to_owned(eng, st, a, fn):
    v = L(eng, st, a[0])
    if type(v) in (CSeq, SSeq) or isinstance(v, (StrV, Poly)): return v
    if type(v) is Opq: return v
    return NotImplemented
def m_fmt(eng, st, a, fn):
    d = fn['decl']
    if 'format' in d or 'String' in d: return StrV('opaque', ())
    return Opq('fmt')
