"""Contracts of the libraries the storage crate uses: multi-precision integers (rug, num-bigint) as mathematical integers,
byte strings as their little-endian values, hash functions as uninterpreted functions, hash and tree sets of integers."""
import z3
from val import *
import val, models
from models import L, OK, SOME, NONE, tyargs, strip, seqref

I = z3.IntSort()
P256 = z3.Function('P256', BV64 if 'BV64' in globals() else z3.BitVecSort(64), I)
ND = z3.Function('ND', I, z3.BitVecSort(64))
BYTE = z3.Function('BYTE', I, z3.BitVecSort(64), z3.BitVecSort(8))
def ZV(x): return Opq('Z', z3.IntVal(x) if isinstance(x, int) else x)
def is_z(v): return type(v) is Opq and v.tag == 'Z'
def zterm(v):
    """integer term of an Integer/BigInt value or of a machine integer constant"""
    if is_z(v): return v.d[0]
    if isinstance(v, bool): raise Unsupported('boolean as integer')
    if isinstance(v, int): return z3.IntVal(v if v < 1 << 63 else v - (1 << 64))
    if z3.is_bv(v):
        w = z3.simplify(v)
        if z3.is_bv_value(w): return z3.IntVal(w.as_signed_long() if w.size() <= 32 else w.as_long())
        return z3.BV2Int(v)
    raise Unsupported('integer operand %r' % (v,))
def zc(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else None
def leaves_const(t):
    """t as a tree of ite over constants: [(cond list, int)] or None"""
    t = z3.simplify(t)
    if z3.is_int_value(t): return [([], t.as_long())]
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = leaves_const(t.arg(1)), leaves_const(t.arg(2))
        if a is None or b is None: return None
        c = t.arg(0)
        return [([c] + p, v) for p, v in a] + [([z3.Not(c)] + p, v) for p, v in b]
    if z3.is_app_of(t, z3.Z3_OP_MUL) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
        a = leaves_const(t.arg(1)); k = t.arg(0).as_long()
        return None if a is None else [(p, k * v) for p, v in a]
    return None
def zmul(eng, a, b):
    if zc(a) is not None or zc(b) is not None: return z3.simplify(a * b)
    for x, y in ((a, b), (b, a)):
        l = leaves_const(x)
        if l is not None and len(l) <= 8:
            r = l[-1][1] * y
            for p, v in l[:-1][::-1]: r = z3.If(z3.And(*p), v * y, r)
            return r
    if a.eq(b): return SQ(a)
    return z3.Int(eng.fresh('unk'))
SQ = z3.Function('SQ', I, I)          # x*x, constrained only through the facts of the modular square below
QUOT = z3.Function('QUOT', I, I, I); REMF = z3.Function('REMF', I, I, I)
def zdiv(eng, st, a, b):
    """division truncated towards zero, as in both libraries"""
    k = zc(b)
    if k == 0: eng.panic(st, 'division by zero'); return None
    if zc(a) is not None and k is not None:
        q = abs(zc(a)) // abs(k)
        return z3.IntVal(q if (zc(a) >= 0) == (k > 0) else -q)
    if k is not None and k > 0:
        q = z3.simplify(z3.If(a >= 0, a / k, -((-a) / k)))
        if eng.valid(st, a >= 0)[0]: q = z3.simplify(a / k)
        for h in getattr(eng, 'zhooks', ()): h('div', eng, st, a, k, q)
        return q
    q = QUOT(a, b)
    st.pc.append(z3.Implies(z3.And(a >= 0, b > 0), z3.And(q >= 0, q <= a)))
    return q
def zrem(eng, st, a, b):
    k = zc(b)
    if k == 0: eng.panic(st, 'division by zero'); return None
    if zc(a) is not None and k is not None:
        r = abs(zc(a)) % abs(k)
        return z3.IntVal(r if zc(a) >= 0 else -r)
    if k is not None and k > 0:
        if eng.valid(st, a >= 0)[0]: return z3.simplify(a % k)
        return z3.simplify(z3.If(a >= 0, a % k, -((-a) % k)))
    if eng.valid(st, z3.And(a >= 0, a < b))[0]: return a
    if eng.valid(st, z3.And(a >= b, a < 2 * b, b > 0))[0]: return z3.simplify(a - b)
    r = REMF(a, b)
    st.pc.append(z3.Implies(b > 0, z3.And(r > -b, r < b, z3.Implies(a >= 0, r >= 0), z3.Implies(a <= 0, r <= 0),
                 z3.Implies(z3.And(a > -b, a < b), r == a), z3.Implies(z3.And(a >= b, a < 2 * b), r == a - b))))
    for h in getattr(eng, 'zhooks', ()): h('rem', eng, st, a, b, r)
    return r
def zop(op):
    def f(eng, st, x, y):
        a, b = zterm(x), zterm(y)
        if op == 'add': return ZV(z3.simplify(a + b))
        if op == 'sub': return ZV(z3.simplify(a - b))
        if op == 'mul': return ZV(zmul(eng, a, b))
        if op == 'div': r = zdiv(eng, st, a, b)
        elif op == 'rem': r = zrem(eng, st, a, b)
        elif op in ('shr', 'shl') and zc(b) is not None and 0 <= zc(b) < 4096:
            if op == 'shl': return ZV(z3.simplify(a * (1 << zc(b))))
            if not eng.valid(st, a >= 0)[0]: raise Unsupported('shift of a possibly negative integer')
            r = zdiv(eng, st, a, z3.IntVal(1 << zc(b)))
        elif op == 'bitand' and zc(b) is not None and (zc(b) & (zc(b) + 1)) == 0 and zc(b) >= 0 and eng.valid(st, a >= 0)[0]: r = zrem(eng, st, a, z3.IntVal(zc(b) + 1))
        else: raise Unsupported('integer %s' % op)
        return [] if r is None else ZV(r)
    return f
def wrap_arith(op, old, assign=False):
    z = zop(op)
    def f(eng, st, a, fn):
        x, y = L(eng, st, a[0]), L(eng, st, a[1])
        if is_z(x) or is_z(y):
            r = z(eng, st, x, y)
            if assign:
                if r == []: return []
                eng.store(st, deref(eng, st, a[0]), r); return UNIT
            return r
        return old(eng, st, a, fn)
    return f
def deref(eng, st, r):
    while type(eng.load(st, r)) is Ref: r = eng.load(st, r)
    return r
def wrap_neg(old):
    def f(eng, st, a, fn):
        x = L(eng, st, a[0])
        return ZV(z3.simplify(-x.d[0])) if is_z(x) else old(eng, st, a, fn)
    return f
def wrap_cmp(name, old):
    ops = dict(eq=lambda a, b: a == b, ne=lambda a, b: a != b, lt=lambda a, b: a < b, le=lambda a, b: a <= b, gt=lambda a, b: a > b, ge=lambda a, b: a >= b)
    def f(eng, st, a, fn):
        x, y = L(eng, st, a[0]), L(eng, st, a[1])
        if is_z(x) or is_z(y):
            r = z3.simplify(ops[name](zterm(x), zterm(y)))
            return True if z3.is_true(r) else False if z3.is_false(r) else r
        return old(eng, st, a, fn)
    return f
BIGT = ('rug::Integer', 'num_bigint::BigInt', 'num_bigint::BigUint')
def wrap_from_str(old):
    def f(eng, st, a, fn):
        t = tyargs(eng, fn)[0]; v = L(eng, st, a[0])
        if t in BIGT:
            if isinstance(v, StrV) and v.kind == 'dec': return OK(ZV(v.d))
            if isinstance(v, StrV) and v.kind == 'lit':
                try: return OK(ZV(int(v.d)))
                except ValueError: pass
            raise Unsupported('parsing of an integer from %r' % (v,))
        return old(eng, st, a, fn)
    return f
def wrap_from(old, into):
    def f(eng, st, a, fn):
        ts = tyargs(eng, fn); dst = ts[1] if into and len(ts) > 1 else ts[0]
        if dst in BIGT: return ZV(zterm(L(eng, st, a[0])))
        return old(eng, st, a, fn)
    return f
def wrap_default(old):
    def f(eng, st, a, fn):
        if tyargs(eng, fn)[0] in BIGT: return ZV(0)
        return old(eng, st, a, fn)
    return f
def m_z_new(eng, st, a, fn): return ZV(0)
def m_to_bigint(eng, st, a, fn): return SOME(ZV(zterm(L(eng, st, a[0]))))
def m_is_even(k):
    def f(eng, st, a, fn):
        t = z3.simplify(zterm(L(eng, st, a[0])) % 2 == k)
        return True if z3.is_true(t) else False if z3.is_false(t) else t
    return f
def m_is_zero(old):
    def f(eng, st, a, fn):
        v = L(eng, st, a[0])
        if is_z(v):
            t = z3.simplify(v.d[0] == 0)
            return True if z3.is_true(t) else False if z3.is_false(t) else t
        return old(eng, st, a, fn) if old else NotImplemented
    return f
POW = z3.Function('POWMOD', I, I, I, I)
def m_pow_mod(wrapped):
    """x^e mod m; what is known about it comes from the property's number-theoretic facts (eng.zpow)"""
    def f(eng, st, a, fn):
        x, e, m = (zterm(L(eng, st, v)) for v in a[:3])
        r = None
        h = getattr(eng, 'zpow', None)
        if h is not None: r = h(eng, st, x, e, m)
        if r is None:
            if all(zc(t) is not None for t in (x, e, m)) and zc(e) >= 0 and zc(m) > 0: r = z3.IntVal(pow(zc(x), zc(e), zc(m)))
            else:
                r = POW(x, e, m); st.pc.append(z3.Implies(m > 0, z3.And(r >= 0, r < m)))
        return OK(ZV(r)) if wrapped else ZV(r)
    return f
def m_z_pow(eng, st, a, fn):
    x = zterm(L(eng, st, a[0])); e = L(eng, st, a[1])
    if isinstance(e, int):
        if zc(x) is not None: return ZV(zc(x) ** e)
        if e == 1: return ZV(x)
        if e == 2: return ZV(SQ(x))
    raise Unsupported('integer power')

# ------------------------------------------------------------------ little-endian byte strings
def bound(n): return z3.IntVal(256 ** n) if isinstance(n, int) else P256(n)
def le_seq(eng, v, n):
    """the n bytes whose little-endian value is v (0 <= v < 256^n)"""
    note_len(eng, n)
    eng.__dict__.setdefault('zles', []).append((v, n))
    return SSeq(n, lambda i: BYTE(v, i), ('le', v))
def note_len(eng, n):
    l = eng.__dict__.setdefault('zlens', [])
    if not any((isinstance(x, int) and isinstance(n, int) and x == n) or (is_sym(x) and is_sym(n) and x.eq(n)) for x in l): l.append(n)
def all_zero(eng, v):
    if type(v) is CSeq: return all(isinstance(x, int) and x == 0 for x in v.items)
    return type(v) is SSeq and v.tag is not None and ((v.tag[0] == 'rep' and isinstance(v.tag[1], int) and v.tag[1] == 0) or (v.tag[0] == 'cat' and all_zero(eng, v.tag[1]) and all_zero(eng, v.tag[2])))
def le_value(eng, st, v):
    if all_zero(eng, v): return z3.IntVal(0)
    if type(v) is SSeq and v.tag is not None:
        if v.tag[0] == 'le': return v.tag[1]
        if v.tag[0] == 'cat':
            if all_zero(eng, v.tag[2]): return le_value(eng, st, v.tag[1])
            la = eng.slen(v.tag[1])
            if isinstance(la, int): return le_value(eng, st, v.tag[1]) + 256 ** la * le_value(eng, st, v.tag[2])
    if type(v) is CSeq:
        if all(isinstance(x, int) for x in v.items): return z3.IntVal(sum(x << (8 * i) for i, x in enumerate(v.items)))
        b = parent_of(eng, v)
        if b is not None: return b
        key = tuple(('i', x) if isinstance(x, int) else x.get_id() for x in v.items)
    elif type(v) is SSeq:
        t = extension_of(eng, st, v)
        if t is not None: return t
        key = id(v)
    else: raise Unsupported('value of %r' % (v,))
    memo = eng.__dict__.setdefault('zmemo', {})
    if key not in memo: memo[key] = (v, z3.Int(eng.fresh('le')))
    t = memo[key][1]; n = eng.slen(v); note_len(eng, n)
    st.pc.append(z3.And(t >= 0, t < bound(n)))
    return t
def extension_of(eng, st, v):
    """the value of bytes known to be a known value's bytes followed by zeros (decided by the solver at an arbitrary position)"""
    i = z3.BitVec(eng.fresh('xi'), 64); n = bv(v.len, 64)
    for t, k in reversed(eng.__dict__.get('zles', ())):
        k = bv(k, 64)
        try:
            s = st.clone()
            if not eng.valid(s, z3.ULE(k, n))[0]: continue
            s.pc.append(z3.ULT(i, n))
            if eng.valid(s, bv(v.get(i), 8) == z3.If(z3.ULT(i, k), BYTE(t, i), z3.BitVecVal(0, 8)))[0]: return t
        except Unsupported: return None
    return None
def parent_of(eng, v):
    """bytes 0.. of one value, in order, possibly followed by zeros"""
    its = list(v.items)
    while its and isinstance(its[-1], int) and its[-1] == 0: its.pop()
    if not its or not z3.is_bv(its[0]) or its[0].decl().name() != 'BYTE': return None
    t = its[0].arg(0)
    for i, x in enumerate(its):
        if not z3.is_bv(x) or x.decl().name() != 'BYTE' or not x.arg(0).eq(t) or not z3.is_bv_value(x.arg(1)) or x.arg(1).as_long() != i: return None
    return t if eng.__dict__.get('zwhole', {}).get(t.get_id(), None) == len(its) else None
def order_is(eng, st, v, name):
    v = L(eng, st, v)
    if type(v) is Agg and v.ty is not None:
        try: return eng.types[v.ty]['v'][v.var]['name'] in name
        except Exception: pass
    raise Unsupported('digit order %r' % (v,))
def m_from_digits(eng, st, a, fn):
    if tyargs(eng, fn)[0] != 'u8' or not order_is(eng, st, a[1], ('Lsf', 'LsfLe', 'LsfBe')): raise Unsupported('from_digits')
    return ZV(le_value(eng, st, L(eng, st, a[0])))
def digits(eng, st, t, least):
    """minimal little-endian bytes of |t|"""
    if zc(t) is not None:
        x = abs(zc(t)); n = max((x.bit_length() + 7) // 8, least)
        return CSeq(list(x.to_bytes(n, 'little')))
    if not eng.valid(st, t >= 0)[0]: t = z3.If(t >= 0, t, -t)
    n = ND(t)
    fs = [z3.ULT(n, 1 << 40), z3.ULE(z3.BitVecVal(least, 64), n)]
    for l in eng.__dict__.get('zlens', ()):
        lb = bv(l, 64)
        fs.append(z3.ULE(n, lb) == (t < bound(l)) if not least else z3.Implies(z3.UGE(lb, least), z3.ULE(n, lb) == (t < bound(l))))
    st.pc.append(z3.And(*fs))
    eng.__dict__.setdefault('zles', []).append((t, n))
    return SSeq(n, lambda i: BYTE(t, i), ('le', t))
def m_to_digits(eng, st, a, fn):
    if tyargs(eng, fn)[0] != 'u8' or not order_is(eng, st, a[1], ('Lsf', 'LsfLe', 'LsfBe')): raise Unsupported('to_digits')
    return digits(eng, st, zterm(L(eng, st, a[0])), 0)
def m_from_bytes_le(signed):
    def f(eng, st, a, fn):
        if signed:
            s = L(eng, st, a[0])
            if not (type(s) is Agg and eng.types[s.ty]['v'][s.var]['name'] == 'Plus'): raise Unsupported('sign')
        return ZV(le_value(eng, st, L(eng, st, a[1 if signed else 0])))
    return f
def m_to_bytes_le(signed):
    def f(eng, st, a, fn):
        d = digits(eng, st, zterm(L(eng, st, a[0])), 1)
        return Agg(None, 0, (Opq('sign'), d)) if signed else d
    return f

# ------------------------------------------------------------------ hashes (uninterpreted), by the exact bytes hashed
def flat(eng, v):
    """hashable identity of the contents of a byte string"""
    if type(v) is CSeq: return tuple(x if isinstance(x, int) else ('x', x.get_id()) for x in v.items)
    if type(v) is SSeq and v.tag is not None and v.tag[0] == 'cat': return ('cat', flat(eng, v.tag[1]), flat(eng, v.tag[2]))
    return ('seq', id(v))
def hash_term(eng, name, v, n=32):
    memo = eng.__dict__.setdefault('hmemo', {})
    k = (name, flat(eng, v))
    e = memo.get(k)
    if e is None:
        nm = eng.fresh(name)
        e = memo[k] = (CSeq([z3.BitVec('%s.%d' % (nm, i), 8) for i in range(n)]), v)
    return e[0]
def m_hasher_new(name): return lambda eng, st, a, fn: Opq('hasher', name, CSeq(()))
def m_hasher_update(eng, st, a, fn):
    r = deref(eng, st, a[0]); h = eng.load(st, r)
    if type(h) is not Opq or h.tag != 'hasher': return NotImplemented
    eng.store(st, r, Opq('hasher', h.d[0], eng.seq_concat(h.d[1], L(eng, st, a[1]))))
    return a[0]
def m_hasher_finalize(eng, st, a, fn):
    h = L(eng, st, a[0])
    return Opq('hash', hash_term(eng, h.d[0], h.d[1])) if type(h) is Opq and h.tag == 'hasher' else NotImplemented
def m_hash_bytes(eng, st, a, fn):
    h = L(eng, st, a[0])
    return Ref(eng.alloc(st, h.d[0])) if type(h) is Opq and h.tag == 'hash' else NotImplemented
def m_hash_once(name): return lambda eng, st, a, fn: Opq('hash', hash_term(eng, name, L(eng, st, a[0])))
def m_sha(eng, st, a, fn):
    v = L(eng, st, a[0])
    if getattr(eng, 'hash_uf', False): return Opq('sha', *uf_hash(eng, v))
    return hash_term(eng, 'sha256', v)
HV = z3.DeclareSort('HashValue')
def uf_hash(eng, v):
    """the hash of a byte string of known length as a function of its bytes"""
    if type(v) is SSeq and isinstance(v.n, int): v = CSeq([eng.seq_get(v, i) for i in range(v.n)])
    if type(v) is not CSeq: raise Unsupported('hash of %r' % (v,))
    its = [bv(x, 8) for x in v.items]
    return (z3.Function('SHA%d' % len(its), *([z3.BitVecSort(8)] * len(its)), HV)(*its) if its else z3.Const('SHA0', HV),)
# ------------------------------------------------------------------ rs_merkle: trees are their leaves, proofs the tree and the indices
def m_mt_from(eng, st, a, fn): return Opq('mtree', L(eng, st, a[0]))
def m_mt_root(eng, st, a, fn):
    t = L(eng, st, a[0])
    if type(t) is not Opq or t.tag != 'mtree': raise Unsupported('tree %r' % (t,))
    n = eng.slen(t.d[0]); r = SOME(Opq('mroot', t.d[0]))
    if isinstance(n, int): return r if n else NONE()
    return models.fork(eng, st, n != 0, lambda s: r, lambda s: NONE())
def m_mt_proof(eng, st, a, fn):
    t = L(eng, st, a[0])
    if type(t) is not Opq or t.tag != 'mtree': raise Unsupported('tree %r' % (t,))
    return Opq('mproof', t.d[0], L(eng, st, a[1]))
def m_mp_bytes(eng, st, a, fn): return Opq('mpbytes', L(eng, st, a[0]))
def m_mp_from(eng, st, a, fn):
    v = L(eng, st, a[0])
    if type(v) is Opq and v.tag == 'mpbytes': return OK(v.d[0])
    raise Unsupported('proof from %r' % (v,))
def wrap_try_from(old):
    def f(eng, st, a, fn):
        v = L(eng, st, a[0])
        if type(v) is Opq and v.tag == 'mpbytes': return OK(v.d[0])
        return old(eng, st, a, fn)
    return f
def m_mp_verify(eng, st, a, fn):
    b = eng.fresh_bool('accepted')
    eng.__dict__.setdefault('mverify', []).append((b,) + tuple(L(eng, st, x) for x in a[:5]))
    return b

# ------------------------------------------------------------------ sets of machine integers: the items inserted, in insertion order
def m_set_new(eng, st, a, fn): return Opq('set', CSeq(()))
def set_of(eng, st, r):
    v = L(eng, st, r)
    if type(v) is not Opq or v.tag != 'set': raise Unsupported('set %r' % (v,))
    return v
def sorted_view(eng, st, items):
    """increasing, duplicate-free sequences with exactly the elements of items: one outcome per possible number of distinct values.
    Elements are fresh, constrained to be ordered, each equal to one of the items, each item equal to one of them."""
    outs = []
    if all(isinstance(x, int) for x in items): return [(st, CSeq(sorted(set(items))))]
    n = len(items)
    for m in range(1, n + 1):
        s = st.clone()
        w = [eng.fresh_bv('srt', 64) for _ in range(m)]
        fs = [z3.ULT(w[i], w[i + 1]) for i in range(m - 1)]
        fs += [z3.Or(*[x == bv(y, 64) for y in items]) for x in w] + [z3.Or(*[x == bv(y, 64) for x in w]) for y in items]
        c = z3.And(*fs)
        if eng.feasible(s, c): s.pc.append(c); outs.append((s, CSeq(w)))
    return outs

def register(eng, M_, P):
    eng.zlens = []; eng.zmemo = {}; eng.hmemo = {}; eng.zhooks = []; eng.zpow = None
    for op in ('add', 'sub', 'mul', 'div', 'rem', 'bitand', 'shl', 'shr'):
        c = {'bitand': 'BitAnd'}.get(op, op.capitalize())
        for suf, asg in (('', False), ('Assign', True)):
            k = 'std::ops::%s%s::%s%s' % (c, suf, op, '_assign' if asg else '')
            M_[k] = wrap_arith(op, M_[k], asg)
    M_['std::ops::Neg::neg'] = wrap_neg(M_['std::ops::Neg::neg'])
    for n in ('eq', 'ne'): M_['std::cmp::PartialEq::' + n] = wrap_cmp(n, M_['std::cmp::PartialEq::' + n])
    for n in ('lt', 'le', 'gt', 'ge'): M_['std::cmp::PartialOrd::' + n] = wrap_cmp(n, M_['std::cmp::PartialOrd::' + n])
    M_['std::str::FromStr::from_str'] = wrap_from_str(M_['std::str::FromStr::from_str'])
    M_['std::convert::From::from'] = wrap_from(M_['std::convert::From::from'], False)
    if 'std::convert::Into::into' in M_: M_['std::convert::Into::into'] = wrap_from(M_['std::convert::Into::into'], True)
    M_['std::default::Default::default'] = wrap_default(M_['std::default::Default::default'])
    M_['rug::Integer::new'] = m_z_new
    M_['rug::Integer::pow_mod'] = m_pow_mod(True)
    M_['rug::Integer::pow_mod_ref'] = m_pow_mod(True)
    M_['rug::Integer::is_even'] = m_is_even(0); M_['rug::Integer::is_odd'] = m_is_even(1)
    M_['rug::Integer::from_digits'] = m_from_digits
    M_['rug::Integer::to_digits'] = m_to_digits
    M_['rug::Complete::complete'] = lambda e, s, a, f: L(e, s, a[0])
    M_['rug::ops::Pow::pow'] = m_z_pow
    M_['rug::Integer::square'] = lambda e, s, a, f: ZV(SQ(zterm(L(e, s, a[0]))))
    for n in ('num_bigint::ToBigInt::to_bigint', 'num_bigint::bigint::ToBigInt::to_bigint'): M_[n] = m_to_bigint
    for n in ('num_bigint::BigInt', 'num_bigint::bigint::BigInt'):
        M_[n + '::modpow'] = m_pow_mod(False); M_[n + '::pow'] = m_z_pow
        M_[n + '::from_bytes_le'] = m_from_bytes_le(True); M_[n + '::to_bytes_le'] = m_to_bytes_le(True)
    for n in ('num_traits::Zero::is_zero', 'num_bigint::BigInt::is_zero'): M_[n] = m_is_zero(M_.get(n))
    M_['blake3::Hasher::new'] = m_hasher_new('blake3')
    M_['blake3::Hasher::update'] = m_hasher_update
    M_['blake3::Hasher::finalize'] = m_hasher_finalize
    M_['blake3::Hash::as_bytes'] = m_hash_bytes
    M_['blake3::hash'] = m_hash_once('blake3')
    M_['rs_merkle::Hasher::hash'] = m_sha
    for t in ('rs_merkle::MerkleTree', 'rs_merkle::merkle_tree::MerkleTree'):
        for n, f in (('from_leaves', m_mt_from), ('root', m_mt_root), ('proof', m_mt_proof)): M_[t + '::<T>::' + n] = f
    for t in ('rs_merkle::MerkleProof', 'rs_merkle::merkle_proof::MerkleProof'):
        for n, f in (('to_bytes', m_mp_bytes), ('from_bytes', m_mp_from), ('verify', m_mp_verify)): M_[t + '::<T>::' + n] = f
    if 'std::convert::TryFrom::try_from' in M_: M_['std::convert::TryFrom::try_from'] = wrap_try_from(M_['std::convert::TryFrom::try_from'])
    else: M_['std::convert::TryFrom::try_from'] = m_mp_from

# ------------------------------------------------------------------ bags: collections of indices known only by a property of every element
# Opq('bag', kind, number of elements): kind 'vec' (order of insertion), 'sorted' (ascending), 'hset' (hash set), 'oset' (ordered set),
# 'hseq' (distinct, no particular order), 'sset' (strictly ascending). The property (eng.bag) is proved of each element when it is put in.
def urem(eng, a, b):
    """remainder of symbolic operands: a value of which only the bounds are used"""
    tab = eng.__dict__.setdefault('urems', {})
    k = (a.get_id(), b.get_id())
    if k not in tab:
        r = z3.BitVec(eng.fresh('unk'), 64)
        tab[k] = (r, a, b); tab[r.decl().name()] = z3.Implies(b != 0, z3.And(z3.ULT(r, b), z3.ULE(r, a)))
    return tab[k][0]
def is_bag(v): return type(v) is Opq and v.tag == 'bag'
def BAG(kind, n): return Opq('bag', kind, n)
def urem_facts(eng, x):
    import loops
    tab = eng.__dict__.get('urems', {})
    return [tab[n] for n in loops.names(x) if n in tab]
def bag_put(eng, st, x):
    x = L(eng, st, x)
    p = eng.bag(bv(x, 64))
    s = st.clone()
    for f in urem_facts(eng, p): s.pc.append(f)
    r, m = eng.valid(s, p)
    if not eng.probe: eng.bag_obl.append((r, str(m)[:300] if m is not None else '', eng.where()))
    if getattr(eng, 'bag_terms', None) is not None: eng.bag_terms.append((bv(x, 64), s))
def bag_add(eng, st, n, k): return eng.sint('Add', n, k, 64, False, False, None) if not (isinstance(n, int) and isinstance(k, int)) else n + k
def bag_fn(old, f):
    """the model f where the collection is a bag, the ordinary one elsewhere"""
    def g(eng, st, a, fn):
        if eng.bag is not None and a:
            v = a[0]
            r = None
            while type(v) is Ref: r = v; v = eng.load(st, v)
            if is_bag(v): return f(eng, st, r, v, a, fn)
        if old is None: return NotImplemented
        return old(eng, st, a, fn)
    return g
def b_new(kind, old):
    def g(eng, st, a, fn):
        if eng.bag is not None and (tyargs(eng, fn) or [''])[0] == 'usize': return BAG(kind, 0)
        if kind != 'vec': return NotImplemented if old is None else old(eng, st, a, fn)
        return old(eng, st, a, fn)
    return g
def b_push(eng, st, r, v, a, fn):
    bag_put(eng, st, a[1])
    kind = 'vec'
    eng.store(st, r, BAG(kind, bag_add(eng, st, v.d[1], 1))); return UNIT
def b_len(eng, st, r, v, a, fn): return v.d[1]
def b_empty(eng, st, r, v, a, fn): return v.d[1] == 0 if isinstance(v.d[1], int) else eng.simp(v.d[1] == 0)
def b_insert(eng, st, r, v, a, fn):
    if v.d[0] not in ('hset', 'oset'): raise Unsupported('insert')
    bag_put(eng, st, a[1])
    new = eng.fresh_bool('isnew')
    if isinstance(v.d[1], int) and v.d[1] == 0: st.pc.append(new)
    eng.store(st, r, BAG(v.d[0], bag_add(eng, st, v.d[1], z3.If(new, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))))
    return new
def b_contains(eng, st, r, v, a, fn): return eng.fresh_bool('has')
def b_sort(eng, st, r, v, a, fn):
    k = {'vec': 'sorted', 'hseq': 'sset', 'sset': 'sset', 'sorted': 'sorted'}.get(v.d[0])
    if k is None: raise Unsupported('sort')
    eng.store(st, r, BAG(k, v.d[1])); return UNIT
def fewer(eng, st, n):
    if isinstance(n, int) and n <= 1: return n
    m = eng.fresh_bv('card'); st.pc.append(z3.And(z3.ULE(m, bv(n, 64)), (m == 0) == (bv(n, 64) == 0))); return m
def b_dedup(eng, st, r, v, a, fn):
    k = {'sorted': 'sset', 'sset': 'sset', 'hseq': 'hseq'}.get(v.d[0], v.d[0])
    eng.store(st, r, BAG(k, v.d[1] if v.d[0] in ('sset', 'hseq') else fewer(eng, st, v.d[1]))); return UNIT
def b_into_iter(eng, st, r, v, a, fn): return Opq('bagit', v.d[0], v.d[1])
def b_clone(eng, st, r, v, a, fn): return v
def bag_collect(old, kind_arg):
    def g(eng, st, a, fn):
        v = a[0]
        while type(v) is Ref: v = eng.load(st, v)
        if eng.bag is not None and type(v) is Opq and v.tag in ('bagit', 'bag'):
            t = eng.m.tyname(fn['args'][kind_arg]); k, n = v.d
            if t.startswith('std::vec::Vec'): return BAG({'hset': 'hseq', 'oset': 'sset'}.get(k, k), n)
            if 'HashSet' in t: return BAG('hset', n if k in ('hset', 'oset', 'sset', 'hseq') else fewer(eng, st, n))
            if 'BTreeSet' in t: return BAG('oset', n if k in ('hset', 'oset', 'sset', 'hseq') else fewer(eng, st, n))
            raise Unsupported('collect a bag into ' + t)
        return old(eng, st, a, fn)
    return g
def ident_it(old):
    def g(eng, st, a, fn):
        if eng.bag is not None and a and type(a[0]) is Opq and a[0].tag == 'bagit': return a[0]
        return old(eng, st, a, fn) if old else NotImplemented
    return g
def register_bag(eng, M_):
    eng.bag = None; eng.bag_obl = []
    for pre in ('std::vec::Vec::<T>::', 'std::vec::Vec::<T, A>::'):
        for n in ('new', 'with_capacity'): M_[pre + n] = b_new('vec', M_[pre + n])
        for n, f in (('push', b_push), ('len', b_len), ('is_empty', b_empty), ('dedup', b_dedup)): M_[pre + n] = bag_fn(M_.get(pre + n), f)
    for pre in ('std::slice::<impl [T]>::', 'core::slice::<impl [T]>::', 'alloc::slice::<impl [T]>::'):
        for n, f in (('len', b_len), ('is_empty', b_empty), ('contains', b_contains), ('sort', b_sort), ('sort_unstable', b_sort)): M_[pre + n] = bag_fn(M_.get(pre + n), f)
        for n in ('iter',):
            if pre + n in M_: M_[pre + n] = bag_fn(M_[pre + n], b_into_iter)
    for t, kind in (('std::collections::HashSet', 'hset'), ('std::collections::BTreeSet', 'oset')):
        for g in ('::<T>::', '::<T, S>::', '::<T, A>::', '::<T, S, A>::', '::<T, std::hash::RandomState>::', '::'):
            for n in ('new', 'with_capacity', 'default'): M_[t + g + n] = b_new(kind, M_.get(t + g + n))
            for n, f in (('insert', b_insert), ('len', b_len), ('is_empty', b_empty), ('contains', b_contains), ('iter', b_into_iter)): M_[t + g + n] = bag_fn(M_.get(t + g + n), f)
    M_['std::iter::IntoIterator::into_iter'] = bag_fn(M_['std::iter::IntoIterator::into_iter'], b_into_iter)
    M_['std::iter::Iterator::collect'] = bag_collect(M_['std::iter::Iterator::collect'], 1)
    M_['std::iter::FromIterator::from_iter'] = bag_collect(M_['std::iter::FromIterator::from_iter'], 0)
    for n in ('copied', 'cloned'): M_['std::iter::Iterator::' + n] = ident_it(M_.get('std::iter::Iterator::' + n))
    M_['std::clone::Clone::clone'] = bag_fn(M_['std::clone::Clone::clone'], b_clone)
    M_['std::ops::Deref::deref'] = bag_fn(M_['std::ops::Deref::deref'], lambda eng, st, r, v, a, fn: r)
    M_['std::ops::DerefMut::deref_mut'] = bag_fn(M_['std::ops::DerefMut::deref_mut'], lambda eng, st, r, v, a, fn: r)

# ------------------------------------------------------------------ shared memory and thread pools
# An Arc is a reference to a shared cell, a lock is transparent, a guard is a reference to the cell. Tasks given to a pool run at join.
# They are executed one after the other; independence of the schedule is an obligation: every task, run again from the state at join with
# everything the other tasks write replaced by an unusable value, writes the same places with the same values.
def sh_new(eng, st, a, fn): return Ref(eng.alloc(st, a[0]))
def sh_lock(eng, st, a, fn):
    r = a[0]
    while type(eng.load(st, r)) is Ref: r = eng.load(st, r)
    return OK(r)
def sh_deref(old):
    def g(eng, st, a, fn):
        t = tyargs(eng, fn)[0]
        if t.startswith(('std::sync::Arc', 'std::rc::Rc', 'std::sync::RwLockReadGuard', 'std::sync::RwLockWriteGuard', 'std::sync::MutexGuard')):
            v = eng.load(st, a[0])
            if type(v) is Ref: return v
        return old(eng, st, a, fn)
    return g
def sh_clone(old):
    def g(eng, st, a, fn):
        if tyargs(eng, fn)[0].startswith(('std::sync::Arc', 'std::rc::Rc')):
            v = eng.load(st, a[0])
            if type(v) is Ref: return v
        return old(eng, st, a, fn)
    return g
def tp_new(eng, st, a, fn):
    n = a[0] if fn['decl'].endswith('::new') else a[-1]
    z = eng.simp(bv(n, 64) == 0) if not isinstance(n, int) else n == 0
    if z is True or (z is not False and not eng.valid(st, z3.Not(z))[0]): raise Unsupported('thread pool of possibly no threads')
    return Ref(eng.alloc(st, CSeq([])))
def tp_cell(eng, st, r):
    while type(eng.load(st, r)) is Ref: r = eng.load(st, r)
    return r
def tp_exec(eng, st, a, fn):
    c = tp_cell(eng, st, a[0]); v = eng.load(st, c)
    if type(v) is not CSeq: raise Unsupported('thread pool')
    eng.store(st, c, CSeq(list(v.items) + [a[1]])); return UNIT
def writes(h0, st):
    """{(cell, element or None): value} of the cells of h0 that st changed"""
    w = {}
    for c, v in h0.items():
        x = st.heap.get(c)
        if x is v: continue
        if type(v) is CSeq and type(x) is CSeq and len(v.items) == len(x.items):
            for i, (p, q) in enumerate(zip(v.items, x.items)):
                if p is not q: w[(c, i)] = q
        else: w[(c, None)] = x
    return w
def tp_run(eng, st, f):
    r = eng.call_value(f, [], st)
    if len(r) != 1: raise Unsupported('a task of a thread pool has %d outcomes' % len(r))
    return r[0][0]
def tp_join(eng, st, a, fn):
    c = tp_cell(eng, st, a[0]); v = eng.load(st, c)
    if type(v) is not CSeq: raise Unsupported('thread pool')
    eng.store(st, c, CSeq([]))
    s0 = st.clone(); h0 = dict(s0.heap); cur = st; ws = []
    for f in v.items:
        before = dict(cur.heap); nxt = tp_run(eng, cur.clone(), f)
        ws.append({k: x for k, x in writes(before, nxt).items() if k[0] in h0}); cur = nxt
    for i, f in enumerate(v.items):
        s = s0.clone()
        for j, w in enumerate(ws):
            if j == i: continue
            for (cell, ix) in w:
                if ix is None: s.heap[cell] = Opq('poison', cell)
                else:
                    it = list(s.heap[cell].items); it[ix] = Opq('poison', cell); s.heap[cell] = CSeq(it)
        h1 = dict(s.heap)
        n0 = len(eng.panics)
        s2 = tp_run(eng, s, f)
        w2 = writes(h1, s2)
        if set(k for k in w2 if k[0] in h0) != set(ws[i]): raise Unsupported('the writes of a task depend on the other tasks')
        for k, x in ws[i].items():
            q = models.deep_eq(eng, s2, x, w2[k])
            if q is not True and not eng.valid(s2, q)[0]: raise Unsupported('the result of a task depends on the other tasks')
        if len(eng.panics) > n0: raise Unsupported('a task panics depending on the other tasks')
    eng.pool_tasks = eng.__dict__.get('pool_tasks', 0) + len(v.items)
    st.heap, st.pc, st.cnt, st.fs, st.env = cur.heap, cur.pc, cur.cnt, cur.fs, cur.env
    return UNIT
def register_sync(eng, M_):
    for t in ('std::sync::Arc::<T>::new', 'std::rc::Rc::<T>::new', 'alloc::sync::Arc::<T>::new'): M_[t] = sh_new
    for t in ('std::sync::RwLock::<T>::', 'std::sync::Mutex::<T>::', 'std::sync::RwLock::<T>::', 'std::sync::poison::rwlock::RwLock::<T>::', 'std::sync::poison::mutex::Mutex::<T>::'):
        M_[t + 'new'] = models.m_id
        for n in ('read', 'write', 'lock'): M_[t + n] = sh_lock
    M_['std::ops::Deref::deref'] = sh_deref(M_['std::ops::Deref::deref']); M_['std::ops::DerefMut::deref_mut'] = sh_deref(M_['std::ops::DerefMut::deref_mut'])
    M_['std::clone::Clone::clone'] = sh_clone(M_['std::clone::Clone::clone'])
    M_['threadpool::ThreadPool::new'] = tp_new; M_['threadpool::ThreadPool::execute'] = tp_exec; M_['threadpool::ThreadPool::join'] = tp_join

# ------------------------------------------------------------------ bincode: an encoding whose decoding reads back the value and ignores what follows
def z_to_string(old):
    def g(eng, st, a, fn):
        v = L(eng, st, a[0])
        return StrV('dec', v.d[0]) if is_z(v) else old(eng, st, a, fn)
    return g
def bc_into(eng, st, a, fn):
    h = models.handle(eng, st, a[0])
    if 'write' not in h.d[2] or 'append' in h.d[2]: raise Unsupported('serialise to such a handle')
    if st.heap[h.d[1]] != 0: raise Unsupported('serialise at another position')
    st.heap[h.d[0]] = Opq('encoded', L(eng, st, a[1])); st.heap[h.d[1]] = eng.fresh_bv('encpos')
    return OK(UNIT)
def bc_from(eng, st, a, fn):
    h = models.handle(eng, st, a[0]); c = st.heap[h.d[0]]
    if type(c) is not Opq or c.tag != 'encoded' or not isinstance(st.heap[h.d[1]], int) or st.heap[h.d[1]] != 0: raise Unsupported('deserialise')
    v = c.d[0]; t = eng.m.tyname(fn['args'][-1])
    if type(v) is not Agg or v.ty is None or not t.endswith(eng.m.tyname(v.ty).rsplit('::', 1)[-1]): raise Unsupported('deserialise as ' + t)
    st.heap[h.d[1]] = eng.fresh_bv('encpos')
    return OK(v)
def str_bytes(old):
    def g(eng, st, a, fn):
        v = L(eng, st, a[0])
        if isinstance(v, StrV) and v.kind == 'opaque':
            n = eng.fresh_bv('unklen'); st.pc.append(z3.ULT(n, 1 << 20)); arr = z3.Array(eng.fresh('unkstr'), z3.BitVecSort(64), z3.BitVecSort(8))
            return Ref(eng.alloc(st, SSeq(n, lambda i: z3.Select(arr, bv(i, 64)))))
        return old(eng, st, a, fn) if old else NotImplemented
    return g
def register_bincode(eng, M_):
    for n in ('std::string::String::as_bytes', 'core::str::<impl str>::as_bytes', 'std::str::<impl str>::as_bytes'): M_[n] = str_bytes(M_.get(n))
    M_['std::string::ToString::to_string'] = z_to_string(M_['std::string::ToString::to_string'])
    M_['bincode::serialize_into'] = bc_into; M_['bincode::deserialize_from'] = bc_from
