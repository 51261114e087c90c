"""Contracts of the proof_of_space crate."""
import z3, itertools, os
from framework import *
import ref, models
from models import CSCELL

PROPS = {}
def prop(cls):
    PROPS[cls.__name__] = cls()
    return cls

def ref_to(e, st, v): return Ref(e.alloc(st, v))
BV64 = z3.BitVecSort(64)
def sym_seq(e, st, nm, sort, ln='n', bound=1 << 48):
    n = z3.BitVec(ln, 64); st.pc.append(z3.ULT(n, bound))
    arr = z3.Array(nm, BV64, sort)
    return SSeq(n, lambda i: z3.Select(arr, i)), n, arr
def mval(m, x): 
    v = m.eval(x, model_completion=True)
    return v.as_long() if z3.is_bv(v) else z3.is_true(v)
def slen(e, v): return e.slen(v)
def seq_items(v):
    if type(v) is not CSeq: raise Unsupported('result of unknown length')
    return list(v.items)

# ------------------------------------------------------------------------------------------------ C01
def spec_byte(X, n, i):
    w = z3.BitVecVal(0, 8)
    for j in range(8): w = w + z3.If(z3.And(z3.ULT(8 * i + j, n), z3.Select(X, 8 * i + j)), z3.BitVecVal(1 << j, 8), z3.BitVecVal(0, 8))
    return w
def case_b2b(bs): return Case('bytes_to_bits ' + ref.hexb(bs), ref.bits(ref.b2b(bs)), 'byte to bit conversion')
def case_unb(l): return Case('bits_to_bytes ' + ref.bits(l), ref.hexb(ref.unb(l)), 'bit to byte conversion')

@prop
class C01:
    crate = 'space'; level = 'proof'
    contracts = [
        'bytes_to_bits(x): requires true; ensures |r| = 8*|x| and for all i < |r|: r[i] = bit (i mod 8) of x[i div 8]',
        'bits_to_bytes(x): requires true; ensures |r| = ceil(|x|/8) and for all i < |r|: r[i] = sum over j<8, 8i+j<|x| of x[8i+j]*2^j',
        'lemma: bits_to_bytes(bytes_to_bits(x)) = x; bytes_to_bits(bits_to_bytes(b)) = b followed by false up to the next multiple of 8',
    ]
    def prove(self, ctx):
        BOOL = z3.BoolSort(); BYTE = z3.BitVecSort(8)
        i = z3.BitVec('i', 64)
        def hint_b(m, X, n, cap=64):
            k = mval(m, n)
            if k > 4096: return None
            return case_b2b([mval(m, z3.Select(X, z3.BitVecVal(j, 64))) for j in range(k)])
        def hint_u(m, X, n):
            k = mval(m, n)
            if k > 8192: return None
            return case_unb([mval(m, z3.Select(X, z3.BitVecVal(j, 64))) for j in range(k)])
        def b2b_unbounded():
            e, rs = ctx.run('vp_root_bytes_to_bits', lambda e, st: [ref_to(e, st, sym_seq(e, st, 'X', BYTE)[0])])
            n = z3.BitVec('n', 64); X = z3.Array('X', BV64, BYTE)
            h = lambda m: hint_b(m, X, n)
            ctx.nopanic(e, hint=h)
            for s, v in rs:
                ctx.oblige(e, s, bv(slen(e, v), 64) == 8 * n, 'length is 8 per byte', h)
                s.pc.append(z3.ULT(i, 8 * n))
                g = e.seq_get(v, i)
                ctx.oblige(e, s, b_z3(g) == (z3.Extract(0, 0, z3.LShR(z3.Select(X, z3.LShR(i, 3)), z3.Extract(7, 0, i & 7))) == 1), 'bit i is bit i mod 8 of byte i div 8', h)
        def b2b_bounded():
            for n in range(0, 6):
                by = [z3.BitVec('y%d' % k, 8) for k in range(n)]
                e, rs = ctx.run('vp_root_bytes_to_bits', lambda e, st: [ref_to(e, st, CSeq(by))])
                h = lambda m: case_b2b([mval(m, y) for y in by])
                ctx.nopanic(e, hint=h)
                for s, v in rs:
                    its = seq_items(v)
                    if not ctx.oblige(e, s, len(its) == 8 * n, 'length', h): continue
                    for k, b in enumerate(its): ctx.oblige(e, s, b_z3(b) == (z3.Extract(k % 8, k % 8, by[k // 8]) == 1), 'bit %d of %d bytes' % (k, n), h)
        ctx.either('bytes_to_bits', b2b_unbounded, b2b_bounded, 'inputs of at most 5 bytes')
        def unb_unbounded():
            e, rs = ctx.run('vp_root_bits_to_bytes', lambda e, st: [ref_to(e, st, sym_seq(e, st, 'X', BOOL)[0])])
            n = z3.BitVec('n', 64); X = z3.Array('X', BV64, BOOL)
            h = lambda m: hint_u(m, X, n)
            ctx.nopanic(e, hint=h)
            for s, v in rs:
                ctx.oblige(e, s, bv(slen(e, v), 64) == z3.LShR(n + 7, 3), 'length is rounded up to whole bytes', h)
                s.pc.append(z3.ULT(i, z3.LShR(n + 7, 3)))
                ctx.oblige(e, s, e.seq_get(v, i) == spec_byte(X, n, i), 'byte i holds bits 8i..8i+7, least significant first, zero padded', h)
        def unb_bounded():
            for n in range(0, 19):
                bs = [z3.Bool('b%d' % k) for k in range(n)]
                e, rs = ctx.run('vp_root_bits_to_bytes', lambda e, st: [ref_to(e, st, CSeq(bs))])
                h = lambda m: case_unb([mval(m, y) for y in bs])
                ctx.nopanic(e, hint=h)
                for s, v in rs:
                    its = seq_items(v)
                    if not ctx.oblige(e, s, len(its) == (n + 7) // 8, 'length', h): continue
                    for k, b in enumerate(its):
                        w = z3.BitVecVal(0, 8)
                        for j in range(8):
                            if 8 * k + j < n: w = w + z3.If(bs[8 * k + j], z3.BitVecVal(1 << j, 8), z3.BitVecVal(0, 8))
                        ctx.oblige(e, s, bv(b, 8) == w, 'byte %d of %d bits' % (k, n), h)
        ctx.either('bits_to_bytes', unb_unbounded, unb_bounded, 'inputs of at most 18 bits', budget=200)
        def lemmas():
            # over the two contracts only
            e = Engine(ctx.mir); st = State()
            n = z3.BitVec('n', 64); X = z3.Array('X', BV64, BYTE)
            st.pc = [z3.ULT(n, 1 << 48), z3.ULT(i, n)]
            # bits of x as the contract of bytes_to_bits gives them
            byte = z3.BitVecVal(0, 8); x = z3.Select(X, i)
            for j in range(8): byte = byte + z3.If(z3.Extract(j, j, x) == 1, z3.BitVecVal(1 << j, 8), z3.BitVecVal(0, 8))
            ctx.oblige(e, st, byte == x, 'bits_to_bytes . bytes_to_bits is the identity')
            B = z3.Array('B', BV64, BOOL)
            st = State(); st.pc = [z3.ULT(n, 1 << 48), z3.ULT(i, 8 * z3.LShR(n + 7, 3))]
            by = spec_byte(B, n, z3.LShR(i, 3))
            bit = z3.Extract(0, 0, z3.LShR(by, z3.Extract(7, 0, i & 7))) == 1
            ctx.oblige(e, st, bit == z3.And(z3.ULT(i, n), z3.Select(B, i)), 'bytes_to_bits . bits_to_bytes pads with false')
        ctx.section('round trip lemma', lemmas)
    def falsify(self, ctx):
        r = ctx.rnd
        for n in (0, 1, 2, 3, 5, 8, 9, 16, 17, 33, 100):
            for _ in range(20 if n < 10 else 4):
                yield case_b2b([r.choice([0, 255, 1, 128, r.randrange(256)]) for _ in range(n)])
        for b in range(256): yield case_b2b([b])
        for n in list(range(0, 40)) + [63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]:
            for k in range(12):
                yield case_unb([True] * n if k == 0 else [False] * n if k == 1 else [r.random() < .5 for _ in range(n)])
        for k in range(1 << 9): yield case_unb([bool((k >> j) & 1) for j in range(9)])
        for n in (4096, 5000, 70000): yield case_unb([r.random() < .5 for _ in range(n)]); yield case_b2b([r.randrange(256) for _ in range(n)])

# ------------------------------------------------------------------------------------------------ C02
def case_b2u(l): return Case('bits_to_usize ' + ref.bits(l), str(sum(1 << i for i, b in enumerate(l) if b)), 'bits to integer')
def case_u2b(x, n): return Case('usize_to_bits %d %d' % (x, n), ref.bits([bool((x >> i) & 1) for i in range(n)]), 'integer to bits')
@prop
class C02:
    crate = 'space'; level = 'proof'
    contracts = [
        'bits_to_usize(x): requires |x| <= 63; ensures r = sum of x[i]*2^i, no overflow',
        'usize_to_bits(x, n): requires 1 <= n <= 2^32; ensures |r| = n and r[i] = bit i of x for i < 64, false for i >= 64',
        'lemma: bits_to_usize(usize_to_bits(x, n)) = x mod 2^n for n <= 63; usize_to_bits(bits_to_usize(b), |b|) = b',
    ]
    assumptions = ['bits_to_usize is unrolled for each of the 64 admissible lengths (complete: the precondition bounds the length)']
    def prove(self, ctx):
        def b2u():
            for n in range(0, 64):
                bs = [z3.Bool('b%d' % k) for k in range(n)]
                e, rs = ctx.run('vp_root_bits_to_usize', lambda e, st: [ref_to(e, st, CSeq(bs))])
                h = lambda m: case_b2u([mval(m, y) for y in bs])
                ctx.nopanic(e, 'no overflow at length %d' % n, hint=h)
                want = z3.Concat(*([z3.BitVecVal(0, 64 - n)] + [z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for b in bs[::-1]])) if n else z3.BitVecVal(0, 64)
                for s, v in rs:
                    l = lin_of(v) if not isinstance(v, int) else (v, {})
                    if l is not None and l == (0, {bool_key(b): 1 << k for k, b in enumerate(bs)}): ctx.add('value at length %d' % n, 'proved')
                    else: ctx.oblige(e, s, bv(v, 64) == want, 'value at length %d' % n, h)
        ctx.section('bits_to_usize', b2u)
        x = z3.BitVec('x', 64)
        def u2b_each():
            for n in range(1, 65):
                e, rs = ctx.run('vp_root_usize_to_bits', lambda e, st: [x, n])
                h = lambda m: case_u2b(mval(m, x), n)
                ctx.nopanic(e, 'no panic at n=%d' % n, hint=h)
                for s, v in rs:
                    its = seq_items(v)
                    if not ctx.oblige(e, s, len(its) == n, 'length is n=%d' % n, h): continue
                    c = z3.And(*[b_z3(b) == (z3.Extract(k, k, x) == 1) for k, b in enumerate(its)])
                    ctx.oblige(e, s, c, 'every bit at n=%d' % n, h)
        ctx.section('usize_to_bits, 1 <= n <= 64', u2b_each)
        def u2b_big():
            i = z3.BitVec('i', 64); n = z3.BitVec('n', 64)
            def mk(e, st):
                st.pc += [z3.UGT(n, 64), z3.ULE(n, 1 << 32)]
                return [x, n]
            e, rs = ctx.run('vp_root_usize_to_bits', mk)
            h = lambda m: case_u2b(mval(m, x), mval(m, n)) if mval(m, n) < 5000 else None
            ctx.nopanic(e, hint=h)
            for s, v in rs:
                ctx.oblige(e, s, bv(slen(e, v), 64) == n, 'length is n', h)
                for k in range(64):
                    ctx.oblige(e, s, b_z3(e.seq_get(v, z3.BitVecVal(k, 64))) == (z3.Extract(k, k, x) == 1), 'bit %d' % k, h)
                s.pc += [z3.ULT(i, n), z3.UGE(i, 64)]
                ctx.oblige(e, s, z3.Not(b_z3(e.seq_get(v, i))), 'bits from 64 on are false', h)
        def u2b_some():
            for n in (65, 66, 70, 100):
                e, rs = ctx.run('vp_root_usize_to_bits', lambda e, st: [x, n])
                h = lambda m: case_u2b(mval(m, x), n)
                ctx.nopanic(e, 'no panic at n=%d' % n, hint=h)
                for s, v in rs:
                    its = seq_items(v)
                    if not ctx.oblige(e, s, len(its) == n, 'length is n=%d' % n, h): continue
                    ctx.oblige(e, s, z3.And(*[b_z3(b) == (z3.Extract(k, k, x) == 1) if k < 64 else z3.Not(b_z3(b)) for k, b in enumerate(its)]), 'every bit at n=%d' % n, h)
        ctx.either('usize_to_bits, n > 64', u2b_big, u2b_some, 'n in 65, 66, 70, 100', budget=60)
        def lemma():
            e = Engine(ctx.mir)
            bad = 0
            for n in range(0, 64):
                st = State()
                v = z3.Concat(*([z3.BitVecVal(0, 64 - n)] + [z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for k in range(n - 1, -1, -1)])) if n else z3.BitVecVal(0, 64)
                ok, m = e.valid(st, z3.simplify(v) == (x & ((1 << n) - 1)))
                if not ok: bad += 1
            ctx.add('value and bits are inverse for every n <= 63', 'undecided' if bad else 'proved')
            ctx.account(e)
        ctx.section('round trip lemma', lemma)
    def falsify(self, ctx):
        r = ctx.rnd
        for n in range(0, 64):
            yield case_b2u([True] * n); yield case_b2u([False] * n)
            for k in range(n): yield case_b2u([j == k for j in range(n)])
            for _ in range(4): yield case_b2u([r.random() < .5 for _ in range(n)])
        for n in list(range(1, 66)) + [100, 200]:
            for x in [0, 1, (1 << 64) - 1, 1 << 63, (1 << 63) - 1, 1 << 32, (1 << 32) - 1] + [r.getrandbits(r.randrange(1, 65)) for _ in range(8)] + [1 << k for k in range(0, 64, 5)]: yield case_u2b(x, n)

# ------------------------------------------------------------------------------------------------ C06 / C07
V = Poly.var
def spec_df(xl, xr, cs, ex, tag='df'):
    for i, c in enumerate(cs):
        t = define('%s.t%d' % (tag, i), xl + c)
        p = define('%s.p%d' % (tag, i), t.pow(ex))
        xl, xr = define('%s.%d' % (tag, i), p + xr), xl
    return xl
def spec_df_flat(xl, xr, cs, ex, tag='df'):
    for i, c in enumerate(cs): xl, xr = define('%s.%d' % (tag, i), (xl + c).pow(ex) + xr), xl
    return xl
def spec_hash(x, k, cs, ex, tag='h'):
    h = ZERO
    for i, c in enumerate(cs):
        t = x + k if i == 0 else h + k + c
        h = define('%s.%d' % (tag, i), t.pow(ex))
    return h + k
def env_of(env, names):
    return [evalatom(poly.A.index[n], env) if n in poly.A.index else env['rnd'].randrange(R) for n in names]

DF = {3: ('mimc3_df', 322), 5: ('mimc5_df', 10)}
HASH = {5: ('mimc5_hash', 10), 7: ('mimc7_hash', 91)}
def case_df(ex, xl, xr, cs): return Case('%s %s %s %s' % (DF[ex][0], ref.hx(xl), ref.hx(xr), ref.hxs(cs)), ref.h64(ref.df(xl, xr, cs, ex)), '%s against the Feistel specification' % DF[ex][0])
def case_hash(ex, x, k, cs): return Case('%s %s %s %s' % (HASH[ex][0], ref.hx(x), ref.hx(k), ref.hxs(cs)), ref.h64(ref.hash1(x, k, cs, ex)), '%s against the specification' % HASH[ex][0])
def case_multi(ex, xs, k, cs): return Case('multi_%s %s %s %s' % (HASH[ex][0], ref.hxs(xs), ref.hx(k), ref.hxs(cs)), ref.h64(ref.multi(xs, k, cs, ex)), 'multi_%s against the specification' % HASH[ex][0])

@prop
class C06:
    crate = 'space'; level = 'proof'
    contracts = [
        'mimc3_df / mimc5_df(xl, xr, c): requires |c| = 322 / 10; ensures r = xl_n where (xl, xr)_{i+1} = (xr_i + (xl_i + c_i)^e, xl_i), e = 3 / 5, for every xl, xr, c in the field',
        'with any other number of constants the call panics instead of returning a value',
    ]
    def prove(self, ctx):
        for ex in (3, 5):
            nm, rounds = DF[ex]
            def go():
                poly.reset(); val.reset_tables()
                cs = [V('c%d' % i) for i in range(rounds)]; xl, xr = V('xl'), V('xr')
                want = spec_df_flat(xl, xr, cs, ex)
                e, rs = ctx.run('vp_root_' + nm, lambda e, st: [xl, xr, ref_to(e, st, CSeq(cs))])
                def hint(env):
                    v = env_of(env, ['xl', 'xr'] + ['c%d' % i for i in range(rounds)])
                    return case_df(ex, v[0], v[1], v[2:])
                ctx.nopanic(e, hint=None)
                if not rs: ctx.add('returns a value', 'refuted', 'no normal return')
                for s, v in rs: ctx.poly_eq(v, want, 'result is the %d-round Feistel output' % rounds, hint=hint)
            ctx.section(nm, go)
            def wrong():
                poly.reset()
                n = z3.BitVec('n', 64)
                for ln in (0, 1, rounds - 1, rounds + 1, rounds + 7):
                    e, rs = ctx.run('vp_root_' + nm, lambda e, st: [V('xl'), V('xr'), ref_to(e, st, CSeq([V('c%d' % i) for i in range(ln)]))])
                    if rs: ctx.hints.append(('rejects %d constants' % ln, Case('%s 1 2 %s' % (nm, ref.hxs([3] * ln)), lambda o: None if o[-1].startswith('panic') else 'accepted %d constants' % ln, 'wrong constant count')))
                    ctx.add('rejects %d constants' % ln, 'proved' if not rs else 'refuted', 'returns a value')
            def wrong_all():
                poly.reset()
                n = z3.BitVec('n', 64)
                def mk(e, st):
                    st.pc += [z3.ULT(n, 1 << 48), n != rounds]
                    return [V('xl'), V('xr'), ref_to(e, st, SSeq(n, lambda i: V('c[%s]' % z3.simplify(i).sexpr())))]
                e, rs = ctx.run('vp_root_' + nm, mk)
                live = [s for s, v in rs if e.feasible(s, True)]
                if live: ctx.add('rejects every other number of constants', 'undecided', 'a path returns')
                else: ctx.add('rejects every other number of constants', 'proved')
            ctx.either(nm + ' wrong constant count', wrong_all, wrong, 'counts 0, 1, rounds-1, rounds+1, rounds+7')
    def falsify(self, ctx):
        r = ctx.rnd
        for k in range(40):
            for ex in (3, 5):
                n = DF[ex][1]
                yield case_df(ex, ref.edge(r, k), ref.edge(r, (k * 3) % 9), [ref.edge(r, (k + i) % 11) for i in range(n)])
        for ex in (3, 5):
            nm, n = DF[ex]
            for ln in (0, 1, n - 1, n + 1, 2 * n): yield Case('%s 1 2 %s' % (nm, ref.hxs([3] * ln)), lambda o, ln=ln: None if o[-1].startswith('panic') else 'accepted %d constants' % ln, 'wrong constant count')

class MultiGhost:
    """r_0 = key, r_{k+1} = r_k + x_k + H(x_k, r_k)"""
    name = 'running hash'
    def __init__(self, key, x, H): self.key = key; self.x = x; self.H = H; self.vals = [key]
    def conc(self, i):
        while len(self.vals) <= i:
            j = len(self.vals) - 1; r = self.vals[-1]; x = self.x(z3.BitVecVal(j, 64))
            self.vals.append(r + x + self.H(x, r))
        return self.vals[i]
    def at(self, i, v): return type(v) is Poly and v == self.conc(i)
    def value(self, k):
        k = z3.simplify(k)
        if z3.is_bv_value(k): return self.conc(k.as_long())
        p = V('r[%s]' % k.sexpr()); poly.A.meta[('gidx', list(p.t)[0][0][0])] = k
        return p
    def eq(self, eng, s, v, k1):
        k = z3.simplify(k1 - 1); r = self.value(k); x = self.x(k)
        return type(v) is Poly and (v - (r + x + self.H(x, r))).is_zero()

def hash_fn_atom(x, k): return V('H(%r;%r)' % (sorted(x.t.items()), sorted(k.t.items())))
def contract_hash(root_decl_ok):
    pass

@prop
class C07:
    crate = 'space'; level = 'proof'
    contracts = [
        'mimc5_hash / mimc7_hash(x, key, c): requires |c| >= 10 / 91; ensures r = h_n + key where h_0 = (x+key)^e and h_i = (h_{i-1} + key + c_i)^e, e = 5 / 7',
        'multi_mimc5_hash / multi_mimc7_hash(xs, key, c): ensures r = r_{|xs|} where r_0 = key and r_{i+1} = r_i + xs_i + hash(xs_i, r_i, c), for every length of xs (induction over the loop; the single-block hash enters by its contract)',
    ]
    def prove(self, ctx):
        for ex in (5, 7):
            nm, rounds = HASH[ex]
            def single():
                poly.reset(); val.reset_tables()
                cs = [V('c%d' % i) for i in range(rounds)]; x, k = V('x'), V('key')
                want = spec_hash(x, k, cs, ex)
                e, rs = ctx.run('vp_root_' + nm, lambda e, st: [x, k, ref_to(e, st, CSeq(cs))])
                def hint(env):
                    v = env_of(env, ['x', 'key'] + ['c%d' % i for i in range(rounds)])
                    return case_hash(ex, v[0], v[1], v[2:])
                ctx.nopanic(e)
                if not rs: ctx.add('returns a value', 'refuted', 'no normal return')
                for s, v in rs: ctx.poly_eq(v, want, 'result is the %d-round hash' % rounds, hint=hint)
            ctx.section(nm, single)
            def multi():
                poly.reset(); val.reset_tables()
                x = lambda i: V('x[%s]' % z3.simplify(i).sexpr())
                cs = [V('c%d' % i) for i in range(rounds)]; key = V('key')
                n = z3.BitVec('n', 64)
                def H(a, b): return hash_fn_atom(a, b)
                used = []
                def contract(e, st, args, fn):
                    a, b = models.pw(e, st, args[0]), models.pw(e, st, args[1])
                    c = e.load(st, args[2])
                    if type(c) is not CSeq or list(c.items) != cs: raise Unsupported('hash called with other constants')
                    used.append(1)
                    return H(a, b)
                decl = 'mimc::mimc_hash::' + nm
                def mk(e, st):
                    st.pc.append(z3.ULT(n, 1 << 48))
                    return [ref_to(e, st, SSeq(n, x)), key, ref_to(e, st, CSeq(cs))]
                e, rs = ctx.run('vp_root_multi_' + nm, mk, ghosts=lambda e: [MultiGhost(key, x, H)], contracts={decl: contract, 'proof_of_space::' + decl: contract})
                if used: ctx.assumed.add(nm + ' (its contract is proved above)')
                ctx.nopanic(e)
                if not rs: ctx.add('returns a value', 'refuted', 'no normal return')
                for s, v in rs:
                    if type(v) is Poly and len(v.t) == 1:
                        (mono, c), = v.t.items()
                        k = poly.A.meta.get(('gidx', mono[0][0])) if len(mono) == 1 and c == 1 and mono[0][1] == 1 else None
                        if k is not None:
                            ctx.oblige(e, s, k == n, 'result is the running hash after all elements'); continue
                    if type(v) is Poly and v == key:
                        ctx.oblige(e, s, n == 0, 'result is the key only for an empty list'); continue
                    ctx.add('result is the running hash after all elements', 'undecided', 'result %r' % (v,))
            def multi_b():
                for K in range(0, 5 if ex == 5 else 3):
                    poly.reset(); val.reset_tables()
                    cs = [V('c%d' % i) for i in range(rounds)]; key = V('key'); xs = [V('x%d' % i) for i in range(K)]
                    want = key
                    for i, x in enumerate(xs): want = define('r%d' % i, want + x + spec_hash(x, want, cs, ex, 'h%d' % i))
                    e, rs = ctx.run('vp_root_multi_' + nm, lambda e, st: [ref_to(e, st, CSeq(xs)), key, ref_to(e, st, CSeq(cs))])
                    def hint(env):
                        v = env_of(env, ['key'] + ['x%d' % i for i in range(K)] + ['c%d' % i for i in range(rounds)])
                        return case_multi(ex, v[1:1 + K], v[0], v[1 + K:])
                    ctx.nopanic(e)
                    for s, v in rs: ctx.poly_eq(v, want, '%d elements' % K, hint=hint)
            ctx.either('multi_' + nm, multi, multi_b, 'at most %d elements' % (4 if ex == 5 else 2))
    def falsify(self, ctx):
        r = ctx.rnd
        for k in range(30):
            for ex in (5, 7):
                n = HASH[ex][1]
                cs = [ref.edge(r, (k + i) % 11) for i in range(n)]
                yield case_hash(ex, ref.edge(r, k), ref.edge(r, (k * 3) % 9), cs)
                for K in (0, 1, 2, 3, 7): yield case_multi(ex, [ref.edge(r, (k + j) % 9) for j in range(K)], ref.edge(r, (k * 5) % 9), cs)
        for K in (50, 51, 64, 100, 300):
            for ex in (5, 7): yield case_multi(ex, [r.randrange(R) for _ in range(K)], r.randrange(R), [r.randrange(R) for _ in range(HASH[ex][1])])

# ------------------------------------------------------------------------------------------------ circuits
import circuits
from circuits import bits_of, low_poly, bit_poly

def opt(v): return ('opt', v)
def cmd_circ(cmd, fields, extra=''):
    parts = [cmd]
    for k, v in fields.items():
        if isinstance(v, int): parts.append('%s=%s' % (k, ref.hx(v)))
        elif isinstance(v, str): parts.append('%s=%s' % (k, v))
        else: parts.append('%s=%s' % (k, ref.hxs(v)))
    return ' '.join(parts) + extra
def case_complete(cmd, fields, public, desc='honest witness'):
    want = ref.hxs(public)
    def chk(o):
        p = o[-1].split(' ')
        if p[0] != 'ok': return 'synthesis fails: ' + o[-1][:200]
        if p[1] != 'sat': return 'honest assignment does not satisfy the circuit (%s)' % p[1]
        if [int(x, 16) for x in (p[6].split(',') if p[6] != '-' else [])] != [x % R for x in public]: return 'public inputs %s, expected %s' % (p[6][:300], want[:300])
    return Case(cmd_circ(cmd, fields), chk, desc, inputs=fields)
def case_forged(cmd, fields, inst, wit, what):
    def chk(o):
        p = o[-1].split(' ')
        return 'forged assignment satisfies the circuit: ' + what if p[:2] == ['ok', 'sat'] else None
    return Case(cmd_circ(cmd, fields, ' instance=%s witness=%s' % (ref.hxs(inst), ref.hxs(wit))), chk, 'forged assignment', inputs=dict(fields=fields, instance=[hex(x) for x in inst], what=what))

class Circ:
    """one circuit: symbolic struct fields, specified public inputs, soundness claims"""
    def fields(self): raise NotImplementedError      # symbolic
    def concrete(self, env): raise NotImplementedError   # -> fields for the native command, expected public inputs
def run_circuit(ctx, c, tag, parts=('complete', 'sound', 'shape')):
    circuits.reset()
    f, public, claims = c.spec()
    def hint(env):
        nf, pub = c.concrete(env)
        return case_complete(c.cmd, nf, pub)
    e, rs = circuits.build(ctx, c.root, f, 'prove')
    ctx.nopanic(e, '%s: synthesis does not panic' % tag)
    rs = [(s, v) for s, v in rs if e.feasible(s, True)]
    if not rs: ctx.add('%s: synthesis succeeds' % tag, 'refuted', 'no normal return'); return
    S0 = None
    setup = None
    for i, (s, v) in enumerate(rs):
        ptag = tag if len(rs) == 1 else '%s, path %d' % (tag, i)
        # inputs that take this path
        penv = lambda s=s: circuits.path_env(e, s, ctx.rnd) if len(rs) > 1 else eval_env(ctx.rnd)
        def phint(env, s=s):
            if len(rs) > 1: env = circuits.path_env(e, s, ctx.rnd)
            return None if env is None else hint(env)
        if type(v) is not Agg: raise Unsupported('synthesis result')
        if v.var != 0:
            h = phint(eval_env(ctx.rnd))
            if h is not None: ctx.hints.append(('%s: synthesis succeeds' % ptag, h))
            ctx.add('%s: synthesis succeeds' % ptag, 'refuted' if h is not None else 'undecided', 'returns an error'); continue
        cs = models.cs_get(s)
        if 'complete' in parts:
            if len(rs) == 1: circuits.completeness(ctx, e, cs, public, ptag, hint)
            else: path_complete(ctx, e, s, cs, public, ptag, phint)
        if 'sound' in parts:
            S = circuits.solve(ctx, cs)
            if S0 is None: S0 = (S, cs)
            if cs.nin != len(public): raise Unsupported('number of public inputs')
            def hint2(fg):
                nf, pub = c.concrete(fg['env'])
                return case_forged(c.cmd, nf, fg['instance'], fg['witness'], fg['what'])
            circuits.soundness(ctx, S, claims(S), ptag, hint2)
        if 'shape' in parts:
            if setup is None:
                e2, rs2 = circuits.build(ctx, c.root, f, 'setup')
                ctx.nopanic(e2, '%s: key generation does not panic' % tag)
                rs2 = [(s, v) for s, v in rs2 if e2.feasible(s, True)]
                if len(rs2) != 1: raise Unsupported('%d synthesis paths' % len(rs2))
                s2, v2 = rs2[0]
                if type(v2) is not Agg or v2.var != 0: ctx.add('%s: key generation succeeds' % tag, 'refuted', 'returns an error'); return
                setup = models.cs_get(s2)
            env = penv()
            circuits.shape(ctx, cs, setup, ptag, env is not None, None if env is None else (lambda env=env: case_shape(c.cmd, c.concrete(env)[0])))
    return S0
def path_complete(ctx, e, s, cs, public, tag, hint):
    """completeness on one of several execution paths: the path's equalities are substituted"""
    n0 = len(ctx.obls); h0 = len(ctx.hints)
    env = circuits.path_env(e, s, ctx.rnd)
    circuits.completeness(ctx, e, cs, public, tag, hint, env)
    if env is None:
        for o in ctx.obls[n0:]:
            if o['status'] == 'refuted': o['status'] = 'undecided'

class DFCirc(Circ):
    def __init__(self, ex): self.ex = ex; nm, self.n = DF[ex]; self.root = 'vp_root_c_' + nm; self.cmd = 'c_' + nm
    def spec(self):
        cs = [V('c%d' % i) for i in range(self.n)]; xl, xr = V('xl'), V('xr')
        w = spec_df_flat(xl, xr, cs, self.ex)
        return dict(xl=opt(xl), xr=opt(xr), constants=cs), [w], lambda S: [('public output is the delay function of the private inputs', S.sol[('I', 0)] - w)]
    def concrete(self, env):
        v = env_of(env, ['xl', 'xr'] + ['c%d' % i for i in range(self.n)])
        return dict(xl=v[0], xr=v[1], constants=v[2:]), [ref.df(v[0], v[1], v[2:], self.ex)]
class HashCirc(Circ):
    def __init__(self, ex, K): self.ex = ex; self.K = K; nm, self.n = HASH[ex]; self.root = 'vp_root_c_' + nm; self.cmd = 'c_' + nm
    def spec(self):
        cs = [V('c%d' % i) for i in range(self.n)]; key = V('key'); xs = [V('x%d' % i) for i in range(self.K)]
        r = key
        for i, x in enumerate(xs): r = define('r%d' % i, r + x + spec_hash(x, r, cs, self.ex, 'h%d' % i))
        return dict(x_inputs=[opt(x) for x in xs], key=opt(key), constants=cs), [r], lambda S: [('public output is the hash of the private inputs', S.sol[('I', 0)] - r)]
    def concrete(self, env):
        v = env_of(env, ['key'] + ['x%d' % i for i in range(self.K)] + ['c%d' % i for i in range(self.n)])
        xs = v[1:1 + self.K]; cs = v[1 + self.K:]
        return dict(x_inputs=xs, key=v[0], constants=cs), [ref.multi(xs, v[0], cs, self.ex)]
def bit_u8(b):
    if b is False: return 0
    e = z3.If(b, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
    return set_lin(e, lin_ite(b, 1, 0))
class EqualCirc(Circ):
    root = 'vp_root_c_equal'; cmd = 'c_equal'
    def __init__(self, d): self.d = d
    def spec(self):
        x2 = V('x2'); b = bits_of(x2)
        x1 = low_poly(b, self.d)
        full = low_poly(b, 255)
        def claims(S):
            lo = low_poly(b, min(self.d, 255))
            return [('first public input is the low %d bits of the decomposition' % self.d, S.sol[('I', 0)] - lo) + (('top',) if self.d == 256 else ()),
                    ('second public input is the 256-bit decomposition', S.sol[('I', 1)] - full, 'top')]
        return dict(x1=opt(x1 if self.d < 255 else x2), x2=opt(x2), x_bits=[opt(bit_u8(x)) for x in b], difficulty=self.d), [x1 if self.d < 255 else x2, x2], claims
    def concrete(self, env):
        x, = env_of(env, ['x2'])
        return dict(x1=x & ((1 << self.d) - 1), x2=x, x_bits=''.join('01'[(x >> i) & 1] for i in range(256)), difficulty='%d' % self.d), [x & ((1 << self.d) - 1), x]
class PowCirc(Circ):
    root = 'vp_root_c_pow'; cmd = 'c_pow'
    def spec(self):
        g = V('g'); b = [z3.Bool('xb.%d' % i) for i in range(20)]
        y = ONE; gi = g
        for i in range(20):
            bp = bit_poly(b[i])
            f = define('f%d' % i, gi * bp + ONE - bp)
            y = define('y%d' % i, y * f)
            gi = define('g%d' % i, gi * gi)
        return dict(g=opt(g), x_bits=[opt(bit_u8(x)) for x in b]), [y], lambda S: [('public output is the base raised to the private bits', S.sol[('I', 0)] - y)]
    def concrete(self, env):
        g, = env_of(env, ['g'])
        bs = [int(evalatom(poly.A.index['[xb.%d]' % i], env)) if '[xb.%d]' % i in poly.A.index else 0 for i in range(20)]
        return dict(g=g, x_bits=''.join(map(str, bs))), [pow(g, sum(b << i for i, b in enumerate(bs)), R)]
class PospaceCirc(Circ):
    root = 'vp_root_c_pospace'; cmd = 'c_pospace'
    def __init__(self, K, N): self.K = K; self.N = N
    def spec(self):
        K, N = self.K, self.N
        dc = [V('c%d' % i) for i in range(10)]; hc = [V('k%d' % i) for i in range(10)]
        xs = [V('x%d' % i) for i in range(K)]; key, m = V('key'), V('m')
        ys = [spec_df_flat(key + x, m, dc, 5, 's%d' % i) for i, x in enumerate(xs)]
        bs = [bits_of(y) for y in ys]
        yns = [low_poly(b, N) for b in bs]
        r = key
        for i, x in enumerate(xs): r = define('r%d' % i, r + x + spec_hash(x, r, hc, 5, 'h%d' % i))
        def claims(S):
            out = []
            for i in range(K):
                out.append(('public index %d is the low %d bits of the decomposition' % (i, N), S.sol[('I', 2 + i)] - yns[i]))
                out.append(('decomposition %d is the delay function of key plus preimage %d' % (i, i), low_poly(bs[i], 255) - ys[i], 'top'))
            out.append(('first public input is the key of the computation', S.sol[('I', 0)] - key))
            out.append(('second public input is m', S.sol[('I', 1)] - m))
            out.append(('last public input is the hash of the same preimages under the public key', S.sol[('I', K + 2)] - r))
            return out
        return dict(key=opt(key), x=[opt(x) for x in xs], m=opt(m), df_constants=dc, yn=[opt(y) for y in yns], x_hash=opt(r), hash_constants=hc), [key, m] + yns + [r], claims
    def concrete(self, env):
        v = env_of(env, ['key', 'm'] + ['c%d' % i for i in range(10)] + ['k%d' % i for i in range(10)] + ['x%d' % i for i in range(self.K)])
        return pospace_fields(v[0], v[1], v[22:], v[2:12], v[12:22], self.N)
def pospace_fields(key, m, xs, dc, hc, N):
    yn = [ref.df((key + x) % R, m, dc, 5) & ((1 << N) - 1) for x in xs]
    h = ref.multi(xs, key, hc, 5)
    return dict(key=key, x=xs, m=m, df_constants=dc, yn=yn, x_hash=h, hash_constants=hc), [key, m] + yn + [h]

# ---- native cases of circuits
def case_forced(cmd, fields, force, what):
    """honest witness, one public input replaced: must not satisfy"""
    def chk(o):
        p = o[-1].split(' ')
        return 'accepted with %s' % what if p[:2] == ['ok', 'sat'] else None
    return Case(cmd_circ(cmd, fields, ' force=' + force), chk, 'false statement', inputs=dict(fields=fields, force=force, what=what))
def none_fields(fields):
    out = {}
    for k, v in fields.items():
        if k in ('df_constants', 'hash_constants', 'constants', 'difficulty'): out[k] = v
        elif isinstance(v, int): out[k] = 'none'
        elif isinstance(v, str): out[k] = 'n' * len(v)
        else: out[k] = ','.join(['none'] * len(v)) if v else '-'
    return out
def case_shape(cmd, fields):
    def chk(o):
        a, b = o[0].split(' '), o[1].split(' ')
        if a[0] != 'ok' or b[0] != 'ok' or a[1] not in ('sat', 'unsat') or b[1] != 'shape': return 'synthesis fails: %s / %s' % (o[0][:200], o[1][:200])
        if a[2:6] != b[2:6]: return 'proving emits %s, key generation %s' % (a[2:6], b[2:6])
    return Case([cmd_circ(cmd, fields), cmd_circ(cmd, none_fields(fields), ' mode=setup')], chk, 'key generation and proving synthesise the same circuit', inputs=fields)
def circ_native(c, rnd, kinds, seeds=6):
    for k in range(seeds):
        env = eval_env(rnd)
        circuits.reset(); c.spec()
        # edge values in the inputs
        for nm in list(poly.A.index):
            if not nm.startswith('[') and poly.A.meta.get(poly.A.index[nm]) is None and not poly.A.boolean[poly.A.index[nm]]:
                env['v'][poly.A.index[nm]] = ref.edge(rnd, rnd.randrange(11)) if k else rnd.randrange(R)
        f, pub = c.concrete(env)
        if 'complete' in kinds: yield case_complete(c.cmd, f, pub)
        if 'sound' in kinds:
            for i, v in enumerate(pub):
                for w in {(v + 1) % R, (v - 1) % R, (v + (1 << 20)) % R, 0, (-v) % R, rnd.randrange(R)} - {v % R}:
                    yield case_forced(c.cmd, f, 'i%d:%s' % (i + 1, ref.hx(w)), 'public input %d = %x instead of %x' % (i, w, v))
                    if i > 12: break
        if 'shape' in kinds: yield case_shape(c.cmd, f)

def const(ctx, name):
    e, rs = ctx.run('vp_root_const_' + name, lambda e, st: [])
    return rs[0][1]
def nconst(ctx):
    try: return const(ctx, 'n'), const(ctx, 'response_count')
    except (Unsupported, Budget): return 20, 50
ALIAS = 'the 256 decomposition bits of a value v are only constrained modulo the field order r: the bits of v + r satisfy the circuit as well'
def alias_finding(ctx, S, i, known_id, y):
    """the decomposition of y + r instead of y: a satisfying assignment with other low bits"""
    rnd = ctx.rnd
    env = {'rnd': rnd, 'v': {}, 'b': {}}
    v = evalp(y, env) + R
    if v >> 256: return
    bits = circuits.BITS[y]
    tops = [a for a in S.freeat if poly.A.boolean[a] and poly.A.names[a].startswith('free:')]
    names = ['[%s]' % b.decl().name() for b in bits[:255]]
    for k, n in enumerate(names):
        if n not in poly.A.index: return
        env['v'][poly.A.index[n]] = (v >> k) & 1
    # the 256th bit is its own variable; try every candidate
    fixed = set(env['v'])
    for a in S.freeat: evalatom(a, env)
    for a in list(env['v']):
        if poly.A.meta.get(a) is not None and a not in fixed: del env['v'][a]
    for a in tops: env['v'][a] = 0
    for a in tops or [None]:
        v2 = dict(env['v'])
        if a is not None: v2[a] = v >> 255
        e2 = circuits.repair(S, v2, fixed | {a}, rnd)
        if e2 is not None and circuits.check_assignment(S, e2):
            if known_id in known_ids(ctx.prop): ctx.known.append(known_id + ': ' + ALIAS)
            return True
    return False
def known_ids(prop):
    try: return {k['id'] for k in json.load(open(KNOWN))['findings'] if k['property'] == prop}
    except FileNotFoundError: return set()

class CircProp:
    crate = 'space'; level = 'proof'
    parts = ()
    def circs(self, ctx): raise NotImplementedError
    def prove(self, ctx):
        def go(tag, c):
            r = run_circuit(ctx, c, tag, self.parts)
            if r and 'sound' in self.parts: self.after(ctx, c, r[0])
        cs = self.circs(ctx)
        # largest first, so that the parallel run is balanced
        ctx.parallel([(tag, (lambda tag=tag, c=c: go(tag, c)), bound) for tag, c, bound in sorted(cs, key=lambda x: -getattr(x[1], 'K', 0))])
    def after(self, ctx, c, S): pass
    def falsify(self, ctx):
        for tag, c, bound in self.circs(ctx):
            if getattr(c, 'K', 1) > 6: continue
            yield from circ_native(c, ctx.rnd, self.parts, 10 if not ctx.thorough else 40)
class PospaceProp(CircProp):
    native_quick = 3
    def scale(self, ctx):
        # the deployed number of preimages, one honest or false statement after another
        n, rc = nconst(ctx)
        yield from circ_native(PospaceCirc(rc, n), ctx.rnd, self.parts, 2)
    def circs(self, ctx):
        n, rc = nconst(ctx)
        ks = [1, 2, 3, rc] if not ctx.thorough else list(range(1, 9)) + [16, 32, rc - 1, rc, rc + 1]
        return [('%d preimages' % k, PospaceCirc(k, n), 'number of preimages %s' % sorted(ks)) for k in ks]
PNOTE = 'number of preimages enumerated (quick: 1, 2, 3 and the deployed count; thorough: 1..8, 16, 32, 49, 50, 51); within each, every key, m, preimage and constant vector'
@prop
class C08(PospaceProp):
    parts = ('complete',)
    assumptions = [PNOTE, 'ark-relations: new_*_variable / enforce_constraint record exactly what they are given']
    contracts = ['PospaceDemo::generate_constraints: for key, m, x_i, constants in the field, yn_i = low N bits of mimc5_df(key + x_i, m), x_hash = multi_mimc5_hash(x, key): synthesis succeeds without panic, the assigned values satisfy every emitted constraint, the public inputs are [key, m, yn_0.., x_hash] in this order']
@prop
class C09(PospaceProp):
    parts = ('sound',)
    assumptions = [PNOTE, 'Groth16 is knowledge sound', 'decomposition bits are only fixed modulo the field order (known finding pospace-alias)']
    contracts = ['PospaceDemo::generate_constraints: every assignment satisfying the emitted constraints has public inputs [key, m, yn.., h] for which private x_i exist with: sum of 256 decomposition bits = mimc5_df(key + x_i, m), yn_i = the low N of these bits, h = multi_mimc5_hash(x, key) for the same x_i and key']
    def after(self, ctx, c, S):
        if c.K == 1: alias_finding(ctx, S, 0, 'pospace-alias', list(circuits.BITS)[0])
@prop
class C10(PospaceProp):
    parts = ('shape',)
    assumptions = [PNOTE]
    contracts = ['PospaceDemo::generate_constraints: synthesis without assignments (key generation) and with assignments (proving) emits the same number of public and private variables and the same constraint matrices']

@prop
class C13(CircProp):
    parts = ('complete', 'shape')
    contracts = [
        'MiMC3DFDemo / MiMC5DFDemo: the honest assignment satisfies every constraint and the public input is mimc_df(xl, xr)',
        'MiMC5HashDemo / MiMC7HashDemo: the honest assignment satisfies every constraint and the public input is multi_mimc_hash(xs, key)',
        'EqualDemo: for x2, its bits, x1 = x2 mod 2^difficulty the honest assignment satisfies every constraint, public inputs [x1, x2]',
        'PowDemo: for every g and 20 exponent bits the honest assignment satisfies every constraint, public input g^e',
        'key generation and proving emit the same matrices for each of them',
    ]
    assumptions = ['number of hash inputs enumerated (1..4 quick, 1..10 and 50 thorough; with no input the circuit has no public output); difficulty enumerated (sample quick; all 0..256 thorough)']
    def circs(self, ctx):
        out = [('mimc3_df circuit', DFCirc(3), None), ('mimc5_df circuit', DFCirc(5), None), ('pow circuit', PowCirc(), None)]
        for ex in (5, 7):
            ks = [1, 2, 3, 4] if not ctx.thorough else list(range(1, 11)) + [50]
            out += [('mimc%d_hash circuit, %d inputs' % (ex, k), HashCirc(ex, k), 'number of inputs in %s' % ks) for k in ks]
        ds = [1, 2, 8, 9, 31, 64, 128, 200, 254, 255, 256] if not ctx.thorough else list(range(1, 257))
        out += [('equal circuit, difficulty %d' % d, EqualCirc(d), 'difficulty in %s' % (ds if len(ds) < 40 else '1..256')) for d in ds]
        return out
@prop
class C14(C13):
    parts = ('sound',)
    contracts = [
        'MiMC3DFDemo / MiMC5DFDemo: under every satisfying assignment the public input is mimc_df of the private inputs',
        'MiMC5HashDemo / MiMC7HashDemo: under every satisfying assignment the public input is multi_mimc_hash of the private inputs under the private key',
        'EqualDemo: under every satisfying assignment x2 = sum of the 256 decomposition bits and x1 = sum of the low `difficulty` of these bits',
        'PowDemo: under every satisfying assignment the public input is g raised to the private bits',
    ]
    assumptions = C13.assumptions + ['decomposition bits are only fixed modulo the field order (known finding equal-alias)']
    def after(self, ctx, c, S):
        if isinstance(c, EqualCirc) and c.d == 8: alias_finding(ctx, S, 1, 'equal-alias', list(circuits.BITS)[0])
PROPS['C13'].parts = ('complete', 'shape')
