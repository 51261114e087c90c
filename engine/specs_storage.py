"""Contracts of the proof_of_storage crate."""
import z3, os, tempfile, shutil, time
from specs_space import *
from specs_disk import find_rule, at, Scratch
import models_storage as MS, loops, specs_seal
from models_storage import ZV, zterm, zc, le_seq, le_value, P256

ZI = z3.IntSort(); B64 = z3.BitVecSort(64)
QR = z3.Function('QR', ZI, z3.BoolSort())          # x is a non-zero square modulo p
ROOT = z3.Function('ROOT', ZI, ZI)                 # x^((p+1)/4) mod p
SQM = z3.Function('SQM', ZI, ZI)                   # x^2 mod p
SS = z3.Function('SS', ZI, ZI); SI = z3.Function('SI', ZI, ZI)
JAC = z3.Function('JAC', ZI, ZI, ZI)
def sc(name, fn): return {'proof_of_storage::' + name: fn, name: fn}

class Field:
    """number theory of a prime p = 4q+3, as facts attached to the powers the code takes"""
    def __init__(self, e, st):
        self.q = z3.Int('q'); self.p = z3.simplify(4 * self.q + 3); self.e = e
        st.pc.append(self.q >= 1 << 20)
        self.roots = []; self.sqs = []; self.qrs = []
        e.zpow = self.pow; e.zhooks.append(self.hook)
    def isp(self, eng, st, m): return m.eq(self.p) or eng.valid(st, m == self.p)[0]
    def inst(self, st, f):
        st.pc.append(f)
    def qr(self, st, x):
        p = self.p
        for y in self.qrs: self.inst(st, z3.Implies(z3.And(x > 0, x < p, x + y == p), QR(x) == z3.Not(QR(y))))
        self.qrs.append(x)
        return QR(x)
    def sq_fact(self, a, x, r): return z3.Implies(z3.And(x > 0, x < self.p, z3.Or(a == r, a == self.p - r)), SQM(a) == z3.If(QR(x), x, self.p - x))
    def pow(self, eng, st, x, e, m):
        if not self.isp(eng, st, m): return None
        p = self.p
        if zc(e) == 2: return self.square(eng, st, x)
        if eng.valid(st, e == self.q + 1)[0]:
            self.qr(st, x)
            r = ROOT(x)
            self.inst(st, z3.And(r >= 0, r < p, z3.Implies(z3.And(x > 0, x < p), r > 0), z3.Implies(x == 0, r == 0)))
            self.roots.append((x, r))
            for a in self.sqs: self.inst(st, self.sq_fact(a, x, r))
            return r
        return None
    def square(self, eng, st, x):
        p = self.p; s = SQM(x)
        self.inst(st, z3.And(s >= 0, s < p, z3.Implies(x == 0, s == 0)))
        for y, r in self.roots: self.inst(st, self.sq_fact(x, y, r))
        for y in self.sqs: self.inst(st, z3.Implies(z3.Or(x == y, x + y == p), SQM(x) == SQM(y)))
        self.sqs.append(x)
        return s
    def hook(self, op, eng, st, a, b, r):
        if op == 'rem' and z3.is_app(a) and a.decl().name() == 'SQ' and self.isp(eng, st, b):
            st.pc.append(r == self.square(eng, st, a.arg(0)))
    def legendre(self, eng, st, args, fn):
        x, m = zterm(models.L(eng, st, args[0])), zterm(models.L(eng, st, args[1]))
        if not self.isp(eng, st, m): raise Unsupported('symbol with another modulus')
        if not eng.valid(st, z3.And(x >= 0, x < self.p))[0]: raise Unsupported('precondition of legendre')
        f = self.qr(st, x)
        r = z3.Int(eng.fresh('leg'))
        st.pc.append(r == z3.If(x == 0, 0, z3.If(f, 1, -1)))
        return ZV(r)

LIBS = {'rug': dict(pre='', mod='vde::rug_sloth::', desc='rug'), 'num-bigint': dict(pre='big_', mod='vde::sloth::', desc='num-bigint')}

@prop
class C15:
    crate = 'storage'; level = 'proof'
    always_native = False
    contracts = [
        'legendre(x, p), p odd and at least 3, 0 <= x < p: returns the Jacobi symbol (x/p) (recursive call by its own contract; loop invariant (x0/p) = (2/p)^e (x/p))',
        'single_sloth(x, p), p = 4q+3 prime, 0 <= x < p: returns y with 0 <= y < p, y = 0 only for x = 0, and single_sloth_inv(y, p) = x; legendre by its contract',
        'sloth(x, p, t) = t-fold single_sloth, sloth_inv(y, p, t) = t-fold single_sloth_inv, any t; lemma sloth_inv(sloth(x, p, t), p, t) = x by induction on t',
        'vde(b, p, t, mode, l), value(b) < p < 256^l: returns l bytes with value sloth(value(b), p, t); vde_inv likewise with sloth_inv; hence vde_inv(vde(b)) = b padded to l bytes',
        'prepare_params(l), l in {64, 128, 256}: the key is a prime = 3 mod 4 with max(2^256, 256^(l-1)) < key < 256^l; the iv has 128 bytes',
    ]
    assumptions = ['quadratic residuosity facts for a prime p = 3 mod 4 (Euler criterion, x^((p+1)/4) squared is x or -x) and the laws of the Jacobi symbol are taken as mathematics', 'primality of the key constants is decided by sympy.isprime']
    def prove(self, ctx):
        tasks = []
        for lib in LIBS:
            tasks.append(('legendre (%s)' % lib, lambda lib=lib: self.legendre(ctx, lib), None))
            tasks.append(('one step (%s)' % lib, lambda lib=lib: self.step(ctx, lib), None))
            for nm, inv in (('sloth', False), ('sloth_inv', True)): tasks.append(('%s rounds (%s)' % (nm, lib), lambda lib=lib, nm=nm: self.rounds(ctx, lib, nm), None))
        tasks.append(('round trip of t rounds', lambda: self.lemma(ctx), None))
        for nm in ('vde', 'vde_inv'):
            for mode in ('sloth', 'other'):
                tasks.append(('%s (rug, mode %s)' % (nm, mode), lambda nm=nm, mode=mode: self.vde(ctx, nm, mode), None))
        tasks.append(('key and iv', lambda: self.params(ctx), None))
        ctx.parallel(tasks)
    def legendre(self, ctx, lib):
        L_ = LIBS[lib]
        x0, q = z3.Int('x0'), z3.Int('h'); p = z3.simplify(2 * q + 1)
        dec = L_['mod'] + 'legendre'
        first = [True]
        def contract(e, st, args, fn):
            if first[0]: first[0] = False; return NotImplemented
            a, b = zterm(models.L(e, st, args[0])), zterm(models.L(e, st, args[1]))
            ok = e.valid(st, z3.And(b % 2 == 1, b >= 3, a >= 0, a < b))[0]
            e.calls_ok.append(ok)
            st.pc.append(z3.Or(JAC(a, b) == 0, JAC(a, b) == 1, JAC(a, b) == -1))
            return ZV(JAC(a, b))
        j2 = z3.Or(p % 8 == 1, p % 8 == 7)
        def hook(op, eng, st, a, b, r):
            if op == 'div' and b == 2: st.pc.append(z3.Implies(z3.And(a % 2 == 0, a > 0), JAC(a, p) == z3.If(j2, JAC(r, p), -JAC(r, p))))
            if op == 'rem' and not isinstance(b, int):
                st.pc.append(z3.Implies(z3.And(a % 2 == 1, b % 2 == 1, b >= 3, a > b), JAC(b, a) == z3.If(z3.And(a % 4 == 3, b % 4 == 3), -JAC(r, b), JAC(r, b))))
        def zinv(vs):
            out = []
            for i, (a0, a) in enumerate(vs):
                out.append(('pos%d' % i, a > 0)); out.append(('nn%d' % i, a >= 0)); out.append(('lt%d' % i, a < p))
                for j, (b0, b) in enumerate(vs):
                    if i != j: out.append(('jac%d,%d' % (i, j), JAC(x0, p) == z3.If(z3.And(b % 2 != 0, z3.Not(j2)), -JAC(a, p), JAC(a, p))))
            return out
        def tweak(e, st):
            e.zhooks.append(hook); e.zinv = zinv; e.only_p1 = True; e.loop_limit = 2; e.calls_ok = []
        def mk(e, st):
            first[0] = True
            st.pc += [q >= 1, x0 >= 0, x0 < p, JAC(z3.IntVal(0), p) == 0, JAC(z3.IntVal(1), p) == 1]
            return [ZV(x0), ref_to(e, st, ZV(p))]
        e, rs = ctx.run('vp_root_%slegendre' % L_['pre'], mk, contracts=sc(dec, contract), tweak=tweak)
        ctx.nopanic(e)
        ctx.add('recursive call meets the precondition', 'proved' if all(e.calls_ok) else 'undecided')
        for s, v in rs: ctx.oblige(e, s, zterm(v) == JAC(x0, p), 'returns the symbol', hint=lambda m: self.hint_cases(lib))
        if not rs: ctx.add('returns', 'refuted', 'no normal return')
    def hint_cases(self, lib):
        return [case_sloth(lib, x, p, 1) for p in (1000003, P64) for x in (0, 1, 2, 3, 4, 5, 6, 7, 10, 12, p - 1, p - 2, p // 2)]
    def step(self, ctx, lib):
        L_ = LIBS[lib]
        x = z3.Int('x'); F = [None]
        def mk(e, st):
            F[0] = Field(e, st)
            st.pc += [x >= 0, x < F[0].p]
            return [ref_to(e, st, ZV(x)), ref_to(e, st, ZV(F[0].p))]
        con = sc(L_['mod'] + 'legendre', lambda e, st, a, fn: F[0].legendre(e, st, a, fn))
        e, rs = ctx.run('vp_root_%ssingle_sloth' % L_['pre'], mk, contracts=con)
        ctx.assumed.add('legendre (its own contract, proved in this check)')
        p = F[0].p
        hint = lambda m: self.hint_cases(lib)
        if not rs: ctx.add('returns', 'refuted', 'no normal return')
        inv = ctx.mir.roots['vp_root_%ssingle_sloth_inv' % L_['pre']]
        for s, v in rs:
            y = zterm(v)
            ctx.oblige(e, s, z3.And(y >= 0, y < p), 'result is reduced', hint)
            ctx.oblige(e, s, (y == 0) == (x == 0), 'only zero maps to zero', hint)
            for s2, w in e.exec_fn(inv, [ref_to(e, s, v), ref_to(e, s, ZV(p))], s.clone()):
                ctx.oblige(e, s2, zterm(w) == x, 'the inverse step returns the input', hint)
        ctx.finish(e)
        ctx.nopanic(e, hint=hint)
    def rounds(self, ctx, lib, nm):
        L_ = LIBS[lib]
        x, p = z3.Int('x'), z3.Int('p'); t = z3.BitVec('t', 64)
        f = SI if nm.endswith('inv') else SS
        def contract(e, st, args, fn):
            a, b = zterm(models.L(e, st, args[0])), zterm(models.L(e, st, args[1]))
            if not b.eq(p): raise Unsupported('called with another modulus')
            return ZV(f(a))
        S = z3.Function('S', B64, ZI)
        class G:
            name = 'iterated step'
            def at(self, i, v):
                w = x
                for _ in range(i): w = f(w)
                return z3.is_expr(v) and v.eq(w)
            def value(self, k):
                k = z3.simplify(k)
                return x if z3.is_bv_value(k) and k.as_long() == 0 else S(k)
            def eq(self, eng, s, v, k1): return z3.is_expr(v) and z3.is_int(v) and (v.eq(f(self.value(k1 - 1))) or eng.valid(s, v == f(S(z3.simplify(k1 - 1))))[0])
        def mk(e, st):
            st.pc += [z3.ULT(t, 1 << 40), S(z3.BitVecVal(0, 64)) == x]
            return [ref_to(e, st, ZV(x)), ref_to(e, st, ZV(p)), t]
        e, rs = ctx.run('vp_root_%s%s' % (L_['pre'], nm), mk, ghosts=lambda e: [G()], contracts=sc(L_['mod'] + 'single_' + nm, contract), tweak=lambda e, st: (setattr(e, 'only_p1', True), setattr(e, 'zhooks', [lambda *a: None])))
        hint = lambda m: [case_sloth(lib, xx, P64, tt) for tt in (0, 1, 2, 3, 10) for xx in (0, 1, 5, 12345678901)]
        if not rs: ctx.add('returns', 'refuted', 'no normal return')
        for s, v in rs: ctx.oblige(e, s, zterm(v) == S(t), 'exactly t steps', hint)
        ctx.nopanic(e)
    def lemma(self, ctx):
        e = Engine(ctx.mir); e.zhooks = [1]
        p, x = z3.Ints('p x'); t, j = z3.BitVecs('t j', 64)
        S = z3.Function('S', B64, ZI); T = z3.Function('T', B64, ZI)
        st = State()
        k = t - j - 1
        st.pc = [z3.ULT(j, t), z3.ULT(t, 1 << 40), S(t - j) == SS(S(k)), T(j + 1) == SI(T(j)), S(k) >= 0, S(k) < p, SI(SS(S(k))) == S(k), T(j) == S(t - j)]
        ctx.oblige(e, st, T(j + 1) == S(t - (j + 1)), 'induction step: after j inverse rounds the value is that of t-j rounds')
        st = State(); st.pc = [T(z3.BitVecVal(0, 64)) == S(t), S(z3.BitVecVal(0, 64)) == x]
        ctx.oblige(e, st, z3.And(T(z3.BitVecVal(0, 64)) == S(t - 0), S(t - t) == x), 'base and conclusion')
    def vde(self, ctx, nm, mode):
        x, p = z3.Int('x'), z3.Int('p'); t, n, l = z3.BitVecs('t n l', 64)
        ST = z3.Function('ST', ZI, B64, ZI)
        def contract(e, st, args, fn):
            a, b, r = zterm(models.L(e, st, args[0])), zterm(models.L(e, st, args[1])), args[2]
            if not b.eq(p): raise Unsupported('called with another modulus')
            if not e.valid(st, z3.And(a >= 0, a < p))[0]: raise Unsupported('precondition of ' + nm)
            v = ST(a, bv(r, 64)); st.pc.append(z3.And(v >= 0, v < p))
            return ZV(v)
        def mk(e, st):
            st.pc += [z3.ULT(n, 1 << 40), z3.ULT(l, 1 << 40), x >= 0, x < p, x < P256(n), p < P256(l)]
            MS.note_len(e, l)
            return [ref_to(e, st, le_seq(e, x, n)), ref_to(e, st, ZV(p)), t, ref_to(e, st, StrV('lit', mode)), l]
        f = 'sloth_inv' if nm.endswith('inv') else 'sloth'
        e, rs = ctx.run('vp_root_' + nm, mk, contracts=sc('vde::rug_sloth::' + f, contract))
        hint = lambda m: [case_vde('rug', xx.to_bytes(8, 'little'), P64, 3, 8) for xx in (0, 1, 255, 256, P64 - 1, P64 >> 9, 12345)]
        if not rs: ctx.add('returns', 'refuted', 'no normal return')
        for s, v in rs:
            ctx.oblige(e, s, bv(e.slen(v), 64) == l, 'returns l bytes', hint)
            ctx.oblige(e, s, le_value(e, s, v) == ST(x, t), 'value is that of t rounds', hint)
        ctx.nopanic(e, hint=hint)
    def params(self, ctx):
        import sympy
        for l in (64, 128, 256):
            e, rs = ctx.run('vp_root_prepare_params', lambda e, st: [l])
            ctx.nopanic(e)
            if not rs: ctx.add('returns', 'refuted', 'no normal return')
            for s, v in rs:
                p = zc(zterm(v.f[0])); iv = v.f[1]
                if p is None: ctx.add('key for %d-byte units is a constant' % l, 'undecided'); continue
                ok = sympy.isprime(p) and p % 4 == 3 and max(1 << 256, 1 << (8 * (l - 1))) < p < 1 << (8 * l)
                if not ok: self_hint = ctx.hints.append(('key', case_params(l)))
                ctx.add('key for %d-byte units is a suitable prime' % l, 'proved' if ok else 'refuted', '%d' % p)
                ctx.oblige(e, s, bv(e.slen(iv), 64) == 128, 'iv has 128 bytes')
    native_quick = 5
    def scale(self, ctx):
        for lib in LIBS:
            for t in (63, 64, 255, 256, 257, 300, 1000, 5000): yield case_sloth(lib, 1 + ctx.rnd.randrange(P64 - 1), P64, t)
            for x in (1 << 300, (1 << 511) + 12345, P512 - 1, ctx.rnd.randrange(P512)): yield case_sloth(lib, x, P512, 3)
        for t in (257, 1000): yield case_vde('rug', ctx.rnd.randrange(P64).to_bytes(8, 'little'), P64, t, 8)
        for p, l in ((P1024, 128), (P2048, 256)):
            for x in (0, 1, 255, 1 << 600, p - 1, ctx.rnd.randrange(p), ctx.rnd.randrange(p) >> 100): yield case_vde('rug', x.to_bytes(l, 'little'), p, 2, l)
    def falsify(self, ctx):
        r = ctx.rnd
        for l in (64, 128, 256): yield case_params(l)
        for lib in LIBS:
            for p in (7, 11, 1000003, P64, P128, P512):
                yield case_sloth(lib, 0, p, 2)
                for x in [1, 2, 3, 4, p - 1, p - 2, p // 2, p // 2 + 1] + [1 << i for i in range(p.bit_length() - 1)][:40] + [r.randrange(p) for _ in range(30)]:
                    if x < p: yield case_sloth(lib, x, p, r.choice([0, 1, 1, 2, 3, 10]))
            for x in range(0, 300): yield case_sloth(lib, x, 1000003, 1)
        for p, l in ((P64, 8), (P128, 16), (P512, 64)):
            for _ in range(24):
                x = r.choice([0, 1, 255, r.randrange(p), r.randrange(p) >> (8 * r.randrange(l)), p - 1])
                yield case_vde('rug', x.to_bytes(l, 'little'), p, r.choice([0, 1, 2, 5]), l, mode=r.choice(['sloth', 'other']))
P64 = 13758676365741467507
P128 = 284966011836017917039797442435648636163
P512 = 10711734159436774894171334484137626675507759979749407253125221261168087448899876831488509454695461974257751111853456275453329348448922191916590010377596767
P1024, P2048 = 3 * 2 ** 1022 + 2087, 3 * 2 ** 2046 + 439      # primes = 3 mod 4
def py_leg(x, p):
    if x % p == 0: return 0
    return 1 if pow(x, (p - 1) // 2, p) == 1 else -1
def case_sloth(lib, x, p, t):
    tag = 'big' if lib == 'num-bigint' else 'rug'
    def check(outs):
        if not outs[0].startswith('ok '): return 'legendre/sloth: ' + outs[0][:200]
        leg, y, z = outs[0][3:].split(' ')
        if leg != str(py_leg(x, p)): return 'legendre(%d, %d) = %s, expected %d' % (x, p, leg, py_leg(x, p))
        y, z = int(y, 16) if not y.startswith('-') else -int(y[1:], 16), z
        if not 0 <= y < p: return 'sloth(%d) = %d is not reduced' % (x, y)
        if z.startswith('-') or int(z, 16) != x: return 'sloth_inv(sloth(%x)) = %s' % (x, z)
    return Case(['sloth_%s %x %x %d' % (tag, x, p, t)], check, '%s sloth, %d rounds, and back' % (lib, t), inputs=dict(x=hex(x), p=hex(p), t=t))
def case_vde(lib, b, p, t, l, mode='sloth'):
    def check(outs):
        if not outs[0].startswith('ok '): return 'vde: ' + outs[0][:200]
        y, z = outs[0][3:].split(' ')
        want = l
        if len(y) != 2 * want: return 'vde returns %d bytes, expected %d' % (len(y) // 2, want)
        if bytes.fromhex(z) != b.ljust(want, b'\0'): return 'vde_inv(vde(%s)) = %s' % (b.hex(), z)
    return Case(['vde %s %x %d %s %d' % (b.hex() or '-', p, t, mode, l)], check, '%s vde of %d bytes and back' % (lib, len(b)), inputs=dict(x=b.hex(), p=hex(p), t=t, l=l))
def case_params(l):
    def check(outs):
        import sympy
        if not outs[0].startswith('ok '): return outs[0][:200]
        k, iv = outs[0][3:].split(' ')
        k = int(k, 16)
        if not sympy.isprime(k): return 'the key for %d-byte units is not prime' % l
        if k % 4 != 3: return 'the key for %d-byte units is not 3 mod 4' % l
        if not max(1 << 256, 1 << (8 * (l - 1))) < k < 1 << (8 * l): return 'the key for %d-byte units does not fit' % l
        if len(iv) != 256: return 'iv of %d bytes' % (len(iv) // 2)
    return Case(['params %d' % l], check, 'parameters for units of %d bytes' % l, inputs=dict(l=l))

# ------------------------------------------------------------------ sealing
SEALED = StrV('lit', 'sealed'); ORIGIN = StrV('lit', 'origin')
SK = ('file', 'lit', 'sealed'); OK_ = ('file', 'lit', 'origin')
PFIELDS = ('data_l', 'unit_l', 'block_l', 'big_block_l', 'unit_pl', 'block_pl', 'big_block_pl', 'seal_rounds', 'vde_rounds', 'vde_mode', 'mode_l', 'cnt_l', 'mode_s', 'cnt_s', 'leaves_to_prove_count')
class Conf:
    """one parameter set: B blocks of U units of ul bytes (pl when padded), S rounds, dependency modes"""
    def __init__(self, B, U, S, ml, cl, ms, cs, ul=1, pl=None, T=3):
        self.B, self.U, self.S, self.ml, self.cl, self.ms, self.cs, self.ul, self.pl, self.T = B, U, S, ml, cl, ms, cs, ul, pl or ul + 1, T
        self.v = dict(data_l=B * U * ul, unit_l=ul, block_l=U * ul, big_block_l=U * ul, unit_pl=self.pl, block_pl=U * self.pl, big_block_pl=U * self.pl, seal_rounds=S, vde_rounds=T,
                      vde_mode=StrV('lit', 'sloth'), mode_l=ml, cnt_l=cl, mode_s=ms, cnt_s=cs, leaves_to_prove_count=1)
    def agg(self, ctx):
        ty = [i for i, t in (enumerate(ctx.mir.types) if isinstance(ctx.mir.types, list) else ctx.mir.types.items()) if t['k'] == 'adt' and t['name'].endswith('::PosPara')]
        if len(ty) != 1: raise Unsupported('parameter record')
        fs = [f[0] for f in ctx.mir.types[ty[0]]['v'][0]['f']]
        if set(fs) != set(self.v): raise Unsupported('fields of the parameter record')
        return Agg(ty[0], 0, tuple(self.v[f] for f in fs))
    def text(self, mode='sloth'): return ','.join(str(x) for x in (self.v['data_l'], self.ul, self.v['block_l'], self.pl, self.v['block_pl'], self.S, self.T, mode, self.ml, self.cl, self.ms, self.cs))
    def __repr__(self): return 'B=%d U=%d S=%d mode_l=%d cnt_l=%d mode_s=%d cnt_s=%d' % (self.B, self.U, self.S, self.ml, self.cl, self.ms, self.cs)
    def byte(self, i): return z3.BitVec('d%d' % i, 8) if i % self.pl < self.ul else 0
    def origin(self):
        arr = z3.K(BV64, z3.BitVecVal(0, 8))
        for b in range(self.B * self.U):
            for j in range(self.ul): arr = z3.Store(arr, z3.BitVecVal(b * self.ul + j, 64), bv(self.byte(b * self.pl + j), 8))
        return Opq('filec', arr, self.v['data_l'])
    def padded(self):
        arr = z3.K(BV64, z3.BitVecVal(0, 8)); n = self.B * self.U * self.pl
        for i in range(n): arr = z3.Store(arr, z3.BitVecVal(i, 64), bv(self.byte(i), 8))
        return Opq('filec', arr, n)
def lens_(v): return v.items
KEY = z3.Int('key'); IV = CSeq([z3.BitVec('iv%d' % i, 8) for i in range(3)])

class Step:
    """the functions of one sealing step by their contracts: units are byte strings without further meaning; addition and delay
    encoding have their inverses (C15, C16); the random dependency choices are any function of their arguments with legal
    values (C19), one such function per seed"""
    def __init__(self, seed, dens=0.5):
        import random
        self.rnd = random.Random(seed); self.dens = dens; self.add = {}; self.vd = {}; self.dep = {}; self.calls = []; self.subs = {}; self.invs = {}
    def key(self, e, v): return MS.flat(e, v)
    def fresh(self, e, nm, n):
        if not isinstance(n, int): raise Unsupported('length')
        b = e.fresh(nm); return CSeq([z3.BitVec('%s.%d' % (b, i), 8) for i in range(n)])
    def checkkey(self, e, st, k):
        if not zterm(models.L(e, st, k)).eq(KEY): raise Unsupported('another modulus')
    def do_add(self, e, l, h):
        k = (self.key(e, l), self.key(e, h))
        if k not in self.add: self.add[k] = (self.fresh(e, 'add', e.slen(l)), l, h)
        return self.add[k][0]
    def modadd(self, e, st, a, fn):
        self.checkkey(e, st, a[2])
        return self.do_add(e, models.L(e, st, a[0]), models.L(e, st, a[1]))
    def modsub(self, e, st, a, fn):
        self.checkkey(e, st, a[2])
        l, h = models.L(e, st, a[0]), models.L(e, st, a[1])
        kl, kh = self.key(e, l), self.key(e, h)
        for (_, k2), (r, l0, h0) in self.add.items():
            if k2 == kh and self.key(e, r) == kl: return l0
        if (kl, kh) not in self.subs: self.subs[kl, kh] = self.fresh(e, 'sub', e.slen(l))
        return self.subs[kl, kh]
    def do_vde(self, e, l, t, mode, n):
        k = (self.key(e, l), t, mode, n)
        if k not in self.vd: self.vd[k] = (self.fresh(e, 'vde', n), l)
        return self.vd[k][0]
    def vargs(self, e, st, a):
        self.checkkey(e, st, a[1])
        t = a[2]; m = models.L(e, st, a[3])
        if not isinstance(t, int) or not isinstance(m, StrV): raise Unsupported('rounds')
        return models.L(e, st, a[0]), t, str(m.d), a[4]
    def vde(self, e, st, a, fn): return self.do_vde(e, *self.vargs(e, st, a))
    def vde_inv(self, e, st, a, fn):
        l, t, m, n = self.vargs(e, st, a); kl = self.key(e, l)
        for (_, t2, m2, n2), (r, l0) in self.vd.items():
            if (t2, m2, n2) == (t, m, n) and self.key(e, r) == kl: return l0
        if (kl, t, m, n) not in self.invs: self.invs[kl, t, m, n] = self.fresh(e, 'inv', n)
        return self.invs[kl, t, m, n]
    def pick(self, e, what, num, d, i, c):
        if not all(isinstance(x, int) for x in (num, i, c)): raise Unsupported('symbolic dependency request')
        k = (what, num, self.key(e, d), i, c)
        if k not in self.dep:
            pool = [j for j in (range(num) if what == 's' else range(min(i, num))) if j != i and self.rnd.random() < self.dens]
            self.dep[k] = CSeq(pool if len(pool) <= c else sorted(self.rnd.sample(pool, c)))
        return self.dep[k]
    def dep_s(self, e, st, a, fn): return self.pick(e, 's', a[0], models.L(e, st, a[1]), a[2], a[3])
    def dep_l(self, e, st, a, fn): return self.pick(e, 'l', a[0], models.L(e, st, a[1]), a[2], a[3])
    def contracts(self):
        d = {}
        c = 'proof_of_storage::common::'; p = 'proof_of_storage::depend::'
        for n, f in ((c + 'modadd', self.modadd), (c + 'modsub', self.modsub), ('vde::rug_vde::vde', self.vde), ('vde::rug_vde::vde_inv', self.vde_inv), (p + 'short_depend_random', self.dep_s), (p + 'long_mode_random', self.dep_l)): d.update(sc(n, f))
        return d
    # what sealing is to produce
    def expected(self, e, conf, dl, ds):
        """sealed blocks and their ids, by the definition of sealing"""
        H = lambda x: MS.hash_term(e, 'blake3', CSeq(x))
        blocks, ids = [], []
        for b in range(conf.B):
            cur = [CSeq([bv(conf.byte((b * conf.U + u) * conf.pl + j), 8) for j in range(conf.pl)]) for u in range(conf.U)]
            if conf.ml: long_ = dl[b]
            elif b == 0: long_ = []
            else: long_ = self.pick(e, 'l', conf.B, ids[b - 1], b, conf.cl or b // 10 + 1).items
            for _ in range(conf.S):
                for u in range(conf.U):
                    if conf.ms: short = ds[u]
                    else: short = self.pick(e, 's', conf.U, cur[u - 1] if u else CSeq(()), u, conf.cs).items
                    x = [y for i in long_ for y in blocks[i][u].items] + [y for i in short for y in cur[i].items]
                    if u == 0: x += list(IV.items) if b == 0 else list(ids[b - 1].items)
                    cur[u] = self.do_vde(e, self.do_add(e, cur[u], H(x)), conf.T, 'sloth', conf.pl)
            blocks.append(cur); ids.append(H([y for w in cur for y in w.items]))
        return blocks, ids
def ref_long(i, c, m):
    if m == 1: return [i - 1 - 2 * k for k in range(c) if i >= 1 + 2 * k]
    if m == 2: return [i - 1 - 2 ** k for k in range(min(c, 64)) if i >= 1 + 2 ** k]
    if m == 3: return [i - 1 - 2 ** k for k in range(min(i // 10, 64)) if i >= 1 + 2 ** k]
    return []
def ref_short(n, i, c, m):
    if m == 1:
        out = []; k = 0
        while len(out) < c and (i >= 1 + 2 * k or i + 1 + 2 * k < n):
            d = 1 + 2 * k; k += 1
            if i >= d: out.append(i - d)
            if len(out) < c and i + d < n: out.append(i + d)
        return out
    if m == 2:
        out = []
        for k in range(min(c, 63)):
            d = 2 ** k
            if k % 2 == 0:
                if i >= 1 + d: out.append(i - 1 - d)
            elif i + d - 1 < n: out.append(i + d - 1)
        return out
    return []

def confs(ctx):
    """parameter sets explored, and how many dependency functions for each"""
    out = []
    for B, U, S in ((1, 1, 1), (1, 2, 2), (2, 1, 1), (2, 2, 1), (2, 2, 2), (3, 2, 2), (2, 3, 2), (3, 3, 1), (3, 3, 3), (4, 3, 2), (5, 2, 2)):
        for (ml, cl, ms, cs) in ((0, 0, 0, 10), (0, 2, 0, 2), (1, 2, 1, 2), (2, 2, 2, 2), (0, 3, 1, 3), (1, 1, 0, 1)):
            out.append((Conf(B, U, S, ml, cl, ms, cs), 6 if ml == 0 or ms == 0 else 1))
    out.append((Conf(12, 2, 1, 0, 0, 0, 4), 3)); out.append((Conf(12, 2, 2, 3, 0, 2, 4), 1)); out.append((Conf(24, 2, 1, 3, 0, 1, 2), 1)); out.append((Conf(3, 6, 2, 2, 3, 2, 6), 1)); out.append((Conf(3, 5, 2, 1, 3, 1, 4), 1))
    out.append((Conf(3, 3, 0, 0, 1, 0, 2), 1)); out.append((Conf(2, 2, 2, 0, 2, 0, 2, ul=3), 4)); out.append((Conf(22, 3, 1, 0, 0, 0, 2), 3))
    if ctx.thorough:
        for B in range(1, 6):
            for U in range(1, 6):
                for S in (1, 2, 3): out += [(Conf(B, U, S, ml, 2, ms, 3), 12 if ml == 0 or ms == 0 else 1) for ml in (0, 1, 2) for ms in (0, 1, 2)]
    return out
SEALBOUND = 'at most 24 blocks, 6 units per block and 3 rounds (listed parameter sets), sampled dependency functions; any contents, key and iv'
class Sealing:
    crate = 'storage'; level = 'other'; native_quick = 25
    def parts(self, ctx, fn, what):
        cs = confs(ctx); N = 16
        tasks = []
        for w in range(N):
            mine = cs[w::N]
            def go(mine=mine):
                for conf, n in mine:
                    for seed in range(n):
                        ok, why = fn(ctx, conf, 1000 * ctx.seed + seed)
                        ctx.add('%s, %r, dependencies %d' % (what, conf, seed), 'proved' if ok else 'refuted', why)
                        if not ok:
                            ctx.hints.append((what, self.hints_for(ctx, conf)))
                            return
            tasks.append(('%s [%d]' % (what, w), go, SEALBOUND))
        return tasks
    def setup(self, ctx, conf, seed, root='vp_root_seal', extra=None):
        sn = Step(seed, dens=[0.5, 0.9, 0.3][seed % 3])
        def mk(e, st):
            e.loop_limit = 100000
            st.heap[SK] = conf.padded(); st.heap[OK_] = conf.origin()
            return self.args(ctx, e, st, conf)
        e, rs = ctx.run(root, mk, contracts=sn.contracts())
        ctx.assumed |= {'modadd / modsub inverse pair (C16)', 'vde / vde_inv inverse pair (C15)', 'random dependency choices: deterministic and legal (C19)'}
        return sn, e, rs
    def args(self, ctx, e, st, conf): return [ref_to(e, st, conf.agg(ctx)), SEALED, ref_to(e, st, ZV(KEY)), ref_to(e, st, IV)]
    def panicked(self, e):
        for p in e.panics:
            s = State(); s.pc = p['pc']
            if e.inc.check(s.pc, z3.BoolVal(True))[0] != z3.unsat: return '%s in %s' % (p['msg'], p['where'])
        return None
    def contents(self, s, key=SK):
        f = s.heap[key]
        if not isinstance(f.d[1], int): raise Unsupported('file length')
        return [models.sel(f.d[0], z3.BitVecVal(i, 64)) for i in range(f.d[1])]
    def same_bytes(self, e, s, got, want):
        if len(got) != len(want): return 'length %d, expected %d' % (len(got), len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            g, w = z3.simplify(bv(g, 8)), z3.simplify(bv(w, 8))
            if not g.eq(w) and not e.valid(s, g == w)[0]: return 'byte %d is %s, expected %s' % (i, str(g)[:60], str(w)[:60])
        return None
    def hints_for(self, ctx, conf): return [c for c in self.native_cases(ctx, [conf])]
    def falsify(self, ctx):
        r = ctx.rnd
        pool = [c for c, _ in confs(ctx)]; r.shuffle(pool)
        pool += [Conf(r.randrange(1, 5), r.randrange(1, 9), r.randrange(0, 4), r.randrange(4), r.randrange(0, 5), r.randrange(3), r.randrange(0, 20)) for _ in range(40)]
        pool += [Conf(300, 1, 1, 0, 1, 0, 1), Conf(2, 300, 1, 0, 2, 0, 3)]
        for c in self.native_cases(ctx, pool): yield c
    big = [Conf(130, 2, 1, 0, 0, 0, 3, T=1), Conf(2, 300, 1, 1, 1, 0, 3, T=1), Conf(2, 2, 40, 0, 1, 0, 2, T=1), Conf(2, 3, 1, 1, 2, 1, 2, T=300), Conf(300, 1, 1, 2, 12, 0, 1, T=1), Conf(40, 70, 1, 3, 0, 2, 12, T=1), Conf(2, 1100, 1, 2, 1, 1, 40, T=1), Conf(1100, 1, 1, 1, 3, 1, 1, T=1)]
    def scale(self, ctx): return self.native_cases(ctx, self.big, True)

def native_conf(conf, ul=63, big=False):
    return Conf(conf.B, conf.U, conf.S, conf.ml, conf.cl, conf.ms, conf.cs, ul=ul, T=conf.T if big else 2)
def pad(b, ul): return b''.join(b[i:i + ul] + b'\0' for i in range(0, len(b), ul))
class Files:
    def __init__(self): self.d = tempfile.mkdtemp(prefix='vp-st-')
    def p(self, n): return os.path.join(self.d, n)
    def put(self, n, b):
        with open(self.p(n), 'wb') as f: f.write(b)
        return self.p(n)
    def get(self, n):
        with open(self.p(n), 'rb') as f: return f.read()
    def close(self): shutil.rmtree(self.d, ignore_errors=True)
def conf_data(rnd, conf):
    n = conf.v['data_l']
    return rnd.choice([bytes(n), b'\xff' * n, rnd.randbytes(n), rnd.randbytes(n), (rnd.randbytes(conf.ul) * (conf.B * conf.U))])

@prop
class C16(Sealing):
    level = 'proof'
    contracts = [
        'modadd(l, r, p), 0 <= value(l), value(r) < p <= 256^|l|: returns |l| bytes with value (l + r) mod p; modsub likewise (l - r) mod p; lemma modsub(modadd(l, r), r) = l',
        'unseal(seal(file)) = file, for every content whose units have a zero top byte, every key and iv (any numbers of blocks, units and rounds below 2^40, any dependency lists that are legal in the sense of C19): unseal applied to the file defined by the contract of seal (C17) leaves the file of before sealing, by induction over blocks, rounds and units; modadd/modsub, vde/vde_inv, dependency choice, reading/writing blocks and splitting them into units by their contracts',
        'the same for the composed run of both real bodies including block addressing and unit splitting, byte by byte (bounded: listed parameter sets)',
    ]
    assumptions = ['the inductive proof treats a unit as one value: byte positions of blocks in the file (read_file, write_file) and the split of a block into units (to_units, com_units, C20) are assumed there and executed in the bounded part only', 'the bounded part is limited to the listed numbers of blocks, units, rounds and sampled dependency functions']
    def prove(self, ctx):
        tasks = [('modadd', lambda: self.arith(ctx, 'modadd'), None), ('modsub', lambda: self.arith(ctx, 'modsub'), None)]
        tasks = specs_seal.tasks(ctx, 'unseal') + tasks + self.parts(ctx, self.round_trip, 'unsealing restores the data')
        ctx.parallel(tasks)
    def arith(self, ctx, nm):
        l, r, p = z3.Ints('l r p'); n, m = z3.BitVecs('n m', 64)
        def mk(e, st):
            st.pc += [z3.ULT(n, 1 << 40), z3.ULT(m, 1 << 40), l >= 0, r >= 0, l < p, r < p, l < P256(n), r < P256(m), p <= P256(n)]
            MS.note_len(e, n)
            return [ref_to(e, st, le_seq(e, l, n)), ref_to(e, st, le_seq(e, r, m)), ref_to(e, st, ZV(p))]
        e, rs = ctx.run('vp_root_' + nm, mk)
        want = z3.If(l + r < p, l + r, l + r - p) if nm == 'modadd' else z3.If(l >= r, l - r, l - r + p)
        hint = lambda mo: [case_arith(a, b, q, k) for q, k in ((P64, 8), (251, 1), (257, 2), (65521, 2)) for a in (0, 1, q // 2, q - 1) for b in (0, 1, q - 1, q // 2 + 1)]
        if not rs: ctx.add('returns', 'refuted', 'no normal return')
        for s, v in rs:
            ctx.oblige(e, s, bv(e.slen(v), 64) == n, 'as many bytes as the left operand', hint)
            ctx.oblige(e, s, le_value(e, s, v) == want, 'value', hint)
        ctx.nopanic(e, hint=hint)
        s = State(); s.pc = [l >= 0, r >= 0, l < p, r < p]
        a = z3.If(l + r < p, l + r, l + r - p)
        e2 = Engine(ctx.mir); e2.zhooks = [1]
        ctx.oblige(e2, s, z3.If(a >= r, a - r, a - r + p) == l, 'lemma: subtraction undoes addition')
    big = Sealing.big + [Conf(2, 17000, 1, 1, 1, 1, 1, T=1)]
    def round_trip(self, ctx, conf, seed):
        sn, e, rs = self.setup(ctx, conf, seed)
        if len(rs) != 1: return False, '%d normal returns of seal: %s' % (len(rs), self.panicked(e))
        s, v = rs[0]
        e.panics = [p for p in e.panics]
        r2 = e.exec_fn(ctx.mir.roots['vp_root_unseal'], self.args(ctx, e, s, conf), s)
        ctx.finish(e)
        w = self.panicked(e)
        if w: return False, w
        if len(r2) != 1: return False, 'unseal does not return'
        s2 = r2[0][0]
        d = self.same_bytes(e, s2, self.contents(s2), [conf.byte(i) for i in range(conf.B * conf.U * conf.pl)])
        return d is None, d or ''
    def native_cases(self, ctx, pool, big=False):
        r = ctx.rnd
        for q, k in ((P64, 8), (251, 1), (P512, 64)):
            for _ in range(10):
                yield case_arith(r.choice([0, 1, q - 1, r.randrange(q), r.randrange(q) >> 8]), r.choice([0, 1, q - 1, r.randrange(q)]), q, k)
        for conf in pool:
            conf = native_conf(conf, big=big)
            yield case_roundtrip(conf, conf_data(r, conf), r.randbytes(r.choice([0, 1, 128])))
def case_arith(a, b, q, k):
    def check(outs):
        if not outs[0].startswith('ok ') or not outs[1].startswith('ok '): return 'modular addition: ' + outs[0][:150] + '; ' + outs[1][:150]
        s, d = (bytes.fromhex(o[3:].replace('-', '')) for o in outs[:2])
        if len(s) != k or int.from_bytes(s, 'little') != (a + b) % q: return 'modadd(%d, %d) mod %d = %s' % (a, b, q, s.hex())
        if len(d) != k or int.from_bytes(d, 'little') != (a - b) % q: return 'modsub(%d, %d) mod %d = %s' % (a, b, q, d.hex())
    A = a.to_bytes(k, 'little').hex(); B = b.to_bytes(k, 'little').hex()
    return Case(['modadd %s %s %x' % (A, B, q), 'modsub %s %s %x' % (A, B, q)], check, 'modular addition and subtraction', inputs=dict(left=A, right=B, p=hex(q)))
def case_roundtrip(conf, data, iv):
    out = {}
    def go(ctx, outs):
        f = Files()
        try:
            d = pad(data, conf.ul); f.put('s', d)
            o = ctx.nat.ask('seal %s %s %x %s' % (conf.text(), f.p('s'), P512, iv.hex() or '-'), 200)
            if not o.startswith('ok'): return 'seal: ' + o
            out['sealed'] = f.get('s')
            o = ctx.nat.ask('unseal %s %s %x %s' % (conf.text(), f.p('s'), P512, iv.hex() or '-'), 200)
            if not o.startswith('ok'): return 'unseal: ' + o
            out['got'] = f.get('s'); out['want'] = d
            return 'ok'
        finally: f.close()
    def check(outs):
        if outs[-1] != 'ok': return outs[-1][:300]
        g, w = out['got'], out['want']
        if g == w: return None
        if len(g) != len(w): return 'the unsealed file has %d bytes, expected %d' % (len(g), len(w))
        i = next(i for i in range(len(g)) if g[i] != w[i])
        return 'byte %d of the unsealed file (block %d, unit %d) is %02x, expected %02x' % (i, i // conf.v['block_pl'], i % conf.v['block_pl'] // conf.pl, g[i], w[i])
    return Case([go], check, 'seal and unseal a file, %r' % conf, inputs=dict(params=conf.text(), data=data.hex()[:4000], iv=iv.hex()))

@prop
class C17(Sealing):
    level = 'proof'
    contracts = ['seal(params, file, key, iv): block by block and round by round, unit u becomes vde(unit + hash(D)) where D is the concatenation of the units at position u of the long-dependency blocks (as sealed), the short-dependency units of the block (current values) and, for unit 0, the iv or the id of the previous block; ids are the hashes of the sealed blocks; any numbers of blocks, units and rounds below 2^40 and any legal dependency lists, by induction over blocks, rounds and units against the recursive definition of engine/specs_seal.py', 'the same for the real body including block addressing and unit splitting, byte by byte (bounded: listed parameter sets)']
    assumptions = C16.assumptions
    def prove(self, ctx): ctx.parallel(specs_seal.tasks(ctx, 'seal') + self.parts(ctx, self.exact, 'sealed data'))
    def exact(self, ctx, conf, seed):
        sn, e, rs = self.setup(ctx, conf, seed)
        w = self.panicked(e)
        if w: return False, w
        if len(rs) != 1: return False, 'seal does not return'
        s, v = rs[0]
        dl = [ref_long(b, conf.cl, conf.ml) for b in range(conf.B)]; ds = [ref_short(conf.U, u, conf.cs, conf.ms) for u in range(conf.U)]
        blocks, ids = sn.expected(e, conf, dl, ds)
        d = self.same_bytes(e, s, self.contents(s), [y for b in blocks for u in b for y in u.items])
        if d: return False, 'sealed file: ' + d
        for i in range(conf.B):
            d = self.same_bytes(e, s, v.f[0].items[i].items, ids[i].items)
            if d: return False, 'id of block %d: %s' % (i, d)
        return True, ''
    def native_cases(self, ctx, pool, big=False):
        for conf in pool:
            if conf.B * conf.U > 80 and not big: continue
            conf = native_conf(conf, big=big)
            yield case_sealed(conf, conf_data(ctx.rnd, conf), ctx.rnd.randbytes(ctx.rnd.choice([0, 1, 128])))
def case_sealed(conf, data, iv):
    """compare the sealed file with one computed step by step (hash, addition, delay encoding and dependency choice taken from the code)"""
    def go(ctx, outs):
        f = Files()
        def ask(c):
            o = ctx.nat.ask(c, 100)
            if not o.startswith('ok '): raise KeyError(o)
            return o[3:]
        hx = lambda b: b.hex() or '-'
        bx = lambda s: b'' if s == '-' else bytes.fromhex(s)
        try:
            f.put('s', pad(data, conf.ul))
            ids = ask('seal %s %s %x %s' % (conf.text(), f.p('s'), P512, hx(iv)))
            got = f.get('s'); src = pad(data, conf.ul)
            ids = [bx(x) for x in ids.split(',')]
            B = []; I = []
            for b in range(conf.B):
                cur = [src[(b * conf.U + u) * conf.pl:][:conf.pl] for u in range(conf.U)]
                if conf.ml: lo = ref_long(b, conf.cl, conf.ml)
                elif b == 0: lo = []
                else: lo = [int(x) for x in ask('long_random %d %s %d %d' % (conf.B, hx(I[-1]), b, conf.cl or b // 10 + 1)).split(',') if x != '-']
                for _ in range(conf.S):
                    for u in range(conf.U):
                        if conf.ms: sh = ref_short(conf.U, u, conf.cs, conf.ms)
                        else: sh = [int(x) for x in ask('short_random %d %s %d %d' % (conf.U, hx(cur[u - 1] if u else b''), u, conf.cs)).split(',') if x != '-']
                        x = b''.join(B[i][u] for i in lo) + b''.join(cur[i] for i in sh)
                        if u == 0: x += iv if b == 0 else I[-1]
                        h = ask('blake3 %s' % hx(x))
                        y = ((int.from_bytes(cur[u], 'little') + int.from_bytes(bx(h), 'little')) % P512).to_bytes(conf.pl, 'little')
                        cur[u] = bx(ask('vde %s %x %d sloth %d' % (y.hex(), P512, conf.T, conf.pl)).split(' ')[0])
                B.append(cur); I.append(bx(ask('blake3 %s' % hx(b''.join(cur)))))
            want = b''.join(b''.join(c) for c in B)
            if got != want:
                i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
                return 'byte %d of the sealed file (block %d, unit %d) differs from the definition of sealing' % (i, i // conf.v['block_pl'], i % conf.v['block_pl'] // conf.pl)
            if ids != I: return 'the block ids are not the hashes of the sealed blocks'
            return 'ok'
        except KeyError as ex: return 'the code answers ' + str(ex)[:300]
        finally: f.close()
    return Case([go], lambda outs: None if outs[-1] == 'ok' else outs[-1], 'sealed file of %r' % conf, inputs=dict(params=conf.text(), data=data.hex()[:4000], iv=iv.hex()))

@prop
class C18(Sealing):
    contracts = [
        'batch_unseal_prepare(sealed, begin, end): the blocks begin/block_pl .. up to end, the id of the block before each and the blocks each depends on, read from the sealed file, which is left unchanged; single_unseal_prepare likewise for one block',
        'batch_unseal and, with any positive number of threads, batch_unseal_parallel of what was prepared from a sealed file return, for each block, exactly the padded original units (bounded: listed parameter sets, every range of blocks)',
    ]
    assumptions = ['composition of the functions is bounded to the listed numbers of blocks, units, rounds and sampled dependency functions'] + ['the thread pool runs every task exactly once before join returns; locks do not deadlock; tasks are executed one after the other and proved independent of what the others write, so every schedule gives the same result']
    def prove(self, ctx): ctx.parallel(self.parts(ctx, self.blocks, 'single blocks'))
    def scale(self, ctx):
        yield case_far(ctx.rnd.randbytes(63 * 2048), 2048, 33000, 1)
        yield case_far(ctx.rnd.randbytes(63 * 2048), 2048, 33000, 0)
        yield from Sealing.scale(self, ctx)
    def blocks(self, ctx, conf, seed):
        sn, e, rs = self.setup(ctx, conf, seed)
        if len(rs) != 1 or self.panicked(e): return True, 'sealing itself fails (C16, C17)'
        s, v = rs[0]
        sealed = self.contents(s)
        R = ctx.mir.roots
        rng = [(0, conf.B)] + [(i, i + 1) for i in range(conf.B)] + ([(1, conf.B)] if conf.B > 2 else [])
        if conf.B > 6: rng = rng[:1] + rng[-4:]
        for a, b in rng:
            for how in ('batch', 'single', 'parallel'):
                if how == 'single' and b != a + 1 or how == 'parallel' and b == a + 1 and conf.B > 1 and a != conf.B - 1: continue
                st = s.clone(); st.pc.append(z3.UGT(z3.BitVec('threads', 64), 0))
                if how != 'single':
                    r = e.exec_fn(R['vp_root_batch_unseal_prepare'], [SEALED, a * conf.v['block_pl'], b * conf.v['block_pl'], ref_to(e, st, conf.agg(ctx))], st)
                    if len(r) != 1: return False, 'batch_unseal_prepare does not return: %s' % self.panicked(e)
                    st, q = r[0]; parts = q.f
                else:
                    r = e.exec_fn(R['vp_root_single_unseal_prepare'], [SEALED, a, ref_to(e, st, conf.agg(ctx))], st)
                    if len(r) != 1: return False, 'single_unseal_prepare does not return: %s' % self.panicked(e)
                    st, q = r[0]; parts = (CSeq([a]), CSeq([q.f[0]]), CSeq([q.f[1]]), CSeq([q.f[2]]))
                if type(parts[0]) is not CSeq or [x if isinstance(x, int) else None for x in parts[0].items] != list(range(a, b)): return False, 'blocks %r prepared for the range %d..%d' % (parts[0], a, b)
                bl = ref_to(e, st, parts[1])
                par = how == 'parallel'
                r = e.exec_fn(R['vp_root_batch_unseal_parallel' if par else 'vp_root_batch_unseal'], [ref_to(e, st, conf.agg(ctx)), ref_to(e, st, parts[0]), bl, ref_to(e, st, parts[2]), ref_to(e, st, parts[3]), ref_to(e, st, ZV(KEY)), ref_to(e, st, IV)] + [z3.BitVec('threads', 64)] * par, st)
                if len(r) != 1: return False, 'batch_unseal does not return: %s' % self.panicked(e)
                st, w = r[0]
                d = self.same_bytes(e, st, self.contents(st), sealed)
                if d: return False, 'the sealed file changes: ' + d
                if len(w.items) != b - a: return False, '%d blocks returned' % len(w.items)
                for i in range(a, b):
                    got = [y for u in w.items[i - a].items for y in u.items]
                    d = self.same_bytes(e, st, got, [conf.byte(j) for j in range(i * conf.v['block_pl'], (i + 1) * conf.v['block_pl'])])
                    if d: return False, 'block %d (%s): %s' % (i, how, d)
        ctx.finish(e)
        w = self.panicked(e)
        return w is None, w or ''
    def native_cases(self, ctx, pool, big=False):
        r = ctx.rnd
        for conf in pool:
            conf = native_conf(conf, big=big)
            yield case_blocks(conf, conf_data(r, conf), r.randbytes(r.choice([0, 1, 128])), r.randrange(1 << 30))
def case_blocks(conf, data, iv, seed):
    def go(ctx, outs):
        import random
        r = random.Random(seed)
        f = Files(); bp = conf.v['block_pl']; src = pad(data, conf.ul); iv_ = iv.hex() or '-'
        try:
            f.put('s', src)
            o = ctx.nat.ask('seal %s %s %x %s' % (conf.text(), f.p('s'), P512, iv_), 200)
            if not o.startswith('ok'): return 'ok'
            sealed = f.get('s')
            def cmp(o, idx, what):
                if not o.startswith('ok '): return what + ': ' + o[:200]
                bi, bl = (o[3:] + ' ').split(' ')[:2]
                if bi != (','.join(map(str, idx)) or '-'): return '%s: blocks %s, expected %s' % (what, bi, idx)
                bl = [bytes.fromhex(x.replace('-', '')) for x in bl.split(',')] if idx else []
                for i, x in zip(idx, bl):
                    if x != src[i * bp:(i + 1) * bp]: return '%s: block %d does not come back' % (what, i)
                if len(bl) != len(idx): return '%s: %d blocks' % (what, len(bl))
                if f.get('s') != sealed: return what + ': the sealed file changes'
            a = r.randrange(conf.B); b = r.randrange(a + 1, conf.B + 1)
            for (x, y) in {(0, conf.B), (a, b), (conf.B - 1, conf.B), (a, a)}:
                for par in (0, 1, 3):
                    w = cmp(ctx.nat.ask('batch %s %s %d %d %x %s %d' % (conf.text(), f.p('s'), x * bp, y * bp, P512, iv_, par), 200), list(range(x, y)), 'batch of blocks %d..%d with %d threads' % (x, y, par))
                    if w: return w
            ix = sorted(r.sample(range(conf.B), r.randrange(1, conf.B + 1)))
            for par in (0, 4):
                w = cmp(ctx.nat.ask('singles %s %s %s %x %s %d' % (conf.text(), f.p('s'), ','.join(map(str, ix)), P512, iv_, par), 200), ix, 'single blocks %s with %d threads' % (ix, par))
                if w: return w
            return 'ok'
        finally: f.close()
    return Case([go], lambda outs: None if outs[-1] == 'ok' else outs[-1], 'unseal blocks of a sealed file, %r' % conf, inputs=dict(params=conf.text(), data=data.hex()[:4000], iv=iv.hex(), seed=seed), timeout=300)

def case_far(data, U, b, ml):
    """one block sealed by its definition at the end of a large sealed file that is zero elsewhere"""
    conf = Conf(b + 1, U, 1, ml, 1, 1, 1, ul=63, T=1); bp = conf.v['block_pl']
    def go(ctx, outs):
        f = Files()
        def ask(c):
            o = ctx.nat.ask(c, 100)
            if not o.startswith('ok '): raise KeyError(o)
            return o[3:]
        try:
            src = pad(data, 63)
            cur = [src[u * 64:u * 64 + 64] for u in range(U)]
            prev = unhx(ask('blake3 ' + bytes(bp).hex()))
            lo = ref_long(b, 1, 1) if ml else [int(x) for x in ask('long_random %d %s %d %d' % (conf.B, hx(prev), b, 1)).split(',') if x != '-']
            for u in range(U):
                x = bytes(64 * len(lo)) + b''.join(cur[i] for i in ref_short(U, u, 1, 1)) + (prev if u == 0 else b'')
                y = ((int.from_bytes(cur[u], 'little') + int.from_bytes(unhx(ask('blake3 ' + hx(x))), 'little')) % P512).to_bytes(64, 'little')
                cur[u] = unhx(ask('vde %s %x 1 sloth 64' % (y.hex(), P512)).split(' ')[0])
            with open(f.p('s'), 'wb') as h: h.seek(b * bp); h.write(b''.join(cur))
            for what, o in (('batch', ask('batch %s %s %d %d %x - 0' % (conf.text(), f.p('s'), b * bp, (b + 1) * bp, P512))), ('single', ask('singles %s %s %d %x - 2' % (conf.text(), f.p('s'), b, P512)))):
                bi, bl = o.split(' ')
                if bi != str(b): return '%s: block %s, expected %d' % (what, bi[:100], b)
                if bytes.fromhex(bl) != src: return '%s: block %d does not come back' % (what, b)
            return 'ok'
        except KeyError as ex: return 'the code answers ' + str(ex)[:300]
        finally: f.close()
    return Case([go], lambda outs: None if outs[-1] == 'ok' else outs[-1], 'unseal block %d of a file of %d bytes' % (b, (b + 1) * bp), inputs=dict(params=conf.text(), block=b, data=data.hex()[:4000]), timeout=300)

# ------------------------------------------------------------------ dependencies
def guarded_long(m, c, i):
    """[(condition, value)] of the documented rule, for a symbolic index"""
    B = lambda x: z3.BitVecVal(x, 64)
    if m == 1: return [(z3.UGE(i, B(1 + 2 * k)), i - (1 + 2 * k)) for k in range(c)]
    if m == 2: return [(z3.UGE(i, B(1 + 2 ** k)), i - B(1 + 2 ** k)) for k in range(min(c, 64))]
    if m == 3: return [(z3.And(z3.UGT(z3.UDiv(i, B(10)), B(k)), z3.UGE(i, B(1 + 2 ** k))), i - B(1 + 2 ** k)) for k in range(64)]
    return []
def guarded_short(m, c, n, i):
    B = lambda x: z3.BitVecVal(x, 64)
    if m == 1:
        g = []
        for k in range(c): g += [(z3.UGE(i, B(1 + 2 * k)), i - B(1 + 2 * k)), (z3.ULT(i + B(1 + 2 * k), n), i + B(1 + 2 * k))]
        return g
    if m == 2: return [(z3.UGE(i, B(1 + 2 ** k)), i - B(1 + 2 ** k)) if k % 2 == 0 else (z3.ULT(B(2 ** k - 1), n - i), i + B(2 ** k - 1)) for k in range(min(c, 63))]
    return []
def matches(ctx, e, s, v, guards, cap, k=0, pos=0):
    """v is the list of the values whose condition holds, in order, cut at cap elements: True / a reason / None (undecided)"""
    if MS.is_bag(v) or type(v) is not CSeq: return None
    items = v.items
    while k < len(guards) and (cap is None or pos < cap):
        g, x = guards[k]
        t = e.valid(s, g)[0]
        f = None if t else e.valid(s, z3.Not(g))[0]
        if not t and not f:
            # both possible on this path: case split
            out = True
            for c in (g, z3.Not(g)):
                s2 = s.clone(); s2.pc.append(c)
                if not e.feasible(s2, True): continue
                r = matches(ctx, e, s2, v, guards, cap, k, pos)
                if r is None: return None
                if r is not True: out = r
            return out
        if t:
            if pos >= len(items): return 'a dependency is missing after %d' % len(items)
            ok, m = e.valid(s, bv(items[pos], 64) == x)
            if not ok: return 'dependency %d differs from the rule: %s' % (pos, show_model(m)) if m is not None else None
            pos += 1
        k += 1
    return True if pos == len(items) else 'more dependencies than the rule gives'
from framework import show_model

@prop
class C19:
    crate = 'storage'; level = 'other'; native_quick = 25
    contracts = [
        'long_depend(i, c, mode) = the documented rule, exactly, hence every element is below i (mode 1: i-1, i-3, ...; 2: i-2, i-3, i-5, ...; 3: the first i/10 of mode 2; other: none); any i, counts enumerated',
        'short_depend(n, i, c, mode), i < n: the documented rule, exactly, hence every element is below n, different from i except for the +1-1=0 step that the rule excludes, at most c; any n and i, counts enumerated',
        'long_mode_random(n, d, i, c): strictly ascending, at most c elements, each below i, none for i = 0; any n, d, i, c (loop invariants: c elements chosen so far, all legal)',
        'short_depend_random(n, d, i, c), i < n: strictly ascending, at most c elements, each below n and different from i; any n, d, i, c',
        'create_long_depend / create_short_depend(n, c, mode): n lists, the i-th being that of long_depend / short_depend for index i',
    ]
    assumptions = ['numbers of blocks and units are below 2^48', 'the hash is any function of the bytes hashed']
    def prove(self, ctx):
        tasks = []
        T = ctx.thorough
        for m in (1, 2):
            for c in (0, 1, 2, 3, 5, 10) + ((64, 65) if m == 2 else (40,)) + (tuple(range(11, 40)) if T else ()): tasks.append(('long rule %d, count %d' % (m, c), lambda m=m, c=c: self.long(ctx, m, c), 'count %d' % c))
        tasks.append(('long rule 3', lambda: self.long(ctx, 3, 7), None))
        for m in (0, 4): tasks.append(('no long rule %d' % m, lambda m=m: self.long(ctx, m, 3), None))
        for m, cs in ((1, (0, 1, 2, 3, 4, 6, 10)), (2, (0, 1, 2, 3, 4, 6, 10, 16)), (0, (3,)), (3, (3,))):
            if T: cs = tuple(sorted(set(cs) | set(range(0, 21))))
            for c in cs: tasks.append(('short rule %d, count %d' % (m, c), lambda m=m, c=c: self.short(ctx, m, c), 'count %d' % c))
        for lo, hi in ((1, 256), (257, 65536), (65537, 1 << 48)):
            for w in ('long', 'short'): tasks.append(('random %s dependencies among %d..%d' % (w, lo, hi), lambda w=w, lo=lo, hi=hi: self.random(ctx, w, lo, hi), None))
        for w in ('long', 'short'): tasks.append(('create_%s_depend' % w, lambda w=w: self.create(ctx, w), None))
        ctx.parallel(tasks)
    def close(self, ctx, e, rs, guards, cap, hint):
        if not rs: ctx.add('returns', 'refuted', 'no normal return'); return
        bad = None; und = None
        for s, v in rs:
            r = matches(ctx, e, s, v, guards, cap)
            if r is None: und = True
            elif r is not True: bad = bad or r
        if bad:
            ctx.add('equals the documented rule', 'refuted', bad); ctx.hints.append(('equals the documented rule', hint(None)))
        elif und: ctx.add('equals the documented rule', 'undecided', 'not decided by the path conditions')
        else: ctx.add('equals the documented rule (%d paths)' % len(rs), 'proved')
        ctx.nopanic(e, hint=hint)
    def long(self, ctx, m, c):
        i = z3.BitVec('i', 64)
        hint = lambda mo: [case_dep('long', [x, c, m], ref_long(x, c, m)) for x in list(range(0, 45)) + [127, 128, 129, 130, 639, 640, 641, 1023, 1024, 1025, 1 << 20, (1 << 63) + 1, (1 << 64) - 1]]
        def mk(e, st): e.loop_limit = 200; return [i, c, m]
        e, rs = ctx.run('vp_root_long_depend', mk)
        self.close(ctx, e, rs, guarded_long(m, c, i), None, hint)
    def short(self, ctx, m, c):
        n, i = z3.BitVecs('n i', 64)
        hint = lambda mo: [case_dep('short', [nn, x, c, m], ref_short(nn, x, c, m)) for nn in (1, 2, 3, 5, 8, 20, 33) for x in range(nn)]
        def mk(e, st):
            e.loop_limit = 200
            st.pc += [z3.ULT(i, n), z3.ULT(n, 1 << 48)]
            return [n, i, c, m]
        e, rs = ctx.run('vp_root_short_depend', mk)
        self.close(ctx, e, rs, guarded_short(m, c, n, i), c if m == 1 else None, hint)
    def random(self, ctx, w, lo, hi):
        n, i, c = z3.BitVecs('n i c', 64)
        dl = z3.BitVec('dl', 64); D = z3.Function('D', B64, z3.BitVecSort(8))
        def tweak(e, st):
            e.bag = (lambda x: z3.ULT(x, i)) if w == 'long' else (lambda x: z3.And(z3.ULT(x, n), x != i))
            e.only_p1 = True; e.loop_limit = 20; e.bagtop = c
            def binv(ws):
                out = []
                for a, x in enumerate(ws):
                    out.append(('le%d' % a, z3.ULE(x, c)))
                    for b, y in enumerate(ws):
                        if b > a: out.append(('eq%d,%d' % (a, b), x == y))
                return out
            e.binv = binv
        def mk(e, st):
            st.pc += [z3.UGE(n, lo), z3.ULE(n, hi), z3.ULT(i, n), z3.ULT(c, 1 << 48), z3.ULT(dl, 1 << 48)]
            return [n, ref_to(e, st, SSeq(dl, lambda j: D(j))), i, c]
        e, rs = ctx.run('vp_root_long_mode_random' if w == 'long' else 'vp_root_short_depend_random', mk, tweak=tweak)
        hint = lambda mo: [case_random(w, nn, bytes([q]), x, cc) for nn in sorted({lo, lo + 1, min(hi, lo + 9), min(hi, lo + 300)}) for x in sorted({0, 1, nn // 2, nn - 1}) if x < nn for cc in (0, 1, 2, 8, 20, 40, 100) for q in (0, 1)]
        if not rs: ctx.add('returns', 'refuted', 'no normal return')
        bo = [b for b in e.bag_obl if not b[0]]
        if any(b[0] is False for b in bo):
            ctx.add('every dependency is legal', 'refuted', str(bo[0])); ctx.hints.append(('every dependency is legal', hint(None)))
        else: ctx.add('every dependency is legal (%d insertions)' % len(e.bag_obl), 'proved' if e.bag_obl and not bo else 'undecided')
        for s, v in rs:
            if type(v) is CSeq and not v.items: v = MS.BAG('sset', 0)
            if not MS.is_bag(v): ctx.add('result known', 'undecided', repr(v)[:100]); continue
            if v.d[0] != 'sset' and not (isinstance(v.d[1], int) and v.d[1] == 0): ctx.add('ascending and without repetition', 'undecided', 'collection of kind ' + v.d[0]); ctx.hints.append(('ascending', hint(None)))
            else: ctx.add('ascending and without repetition', 'proved')
            ctx.oblige(e, s, z3.ULE(bv(v.d[1], 64), c), 'at most the requested number', hint)
            if w == 'long': ctx.oblige(e, s, z3.Implies(i == 0, bv(v.d[1], 64) == 0), 'the first block depends on none', hint)
        ctx.nopanic(e, hint=hint)
    def create(self, ctx, w):
        n, c, m, j = z3.BitVecs('n c m j', 64)
        def contract(e, st, a, fn):
            a = list(a)
            if w == 'long': return Opq('dep', bv(a[0], 64), bv(a[1], 64), bv(a[2], 64))
            return Opq('dep', bv(a[1], 64), bv(a[2], 64), bv(a[3], 64), bv(a[0], 64))
        def mk(e, st):
            st.pc += [z3.ULT(n, 1 << 48)]
            return [n, c, m]
        e, rs = ctx.run('vp_root_create_%s_depend' % w, mk, contracts=sc('proof_of_storage::depend::%s_depend' % w, contract))
        hint = lambda mo: [case_create(w, nn, cc, mm) for nn in (0, 1, 2, 7, 30) for cc in (0, 1, 3, 9) for mm in range(5)]
        if not rs: ctx.add('returns', 'refuted', 'no normal return')
        for s, v in rs:
            ctx.oblige(e, s, bv(e.slen(v), 64) == n, 'as many lists as blocks', hint)
            s2 = s.clone(); s2.pc.append(z3.ULT(j, n))
            if type(v) is CSeq:
                if not v.items: continue
                ctx.add('list %s' % w, 'undecided'); continue
            x = v.get(j)
            if type(x) is not Opq or x.tag != 'dep': ctx.add('i-th list', 'undecided', repr(x)[:200]); continue
            ctx.oblige(e, s2, z3.And(x.d[0] == j, x.d[1] == c, x.d[2] == m, *([x.d[3] == n] if w == 'short' else [])), 'the i-th list is that of index i', hint)
        ctx.nopanic(e, hint=hint)
    def scale(self, ctx):
        for c in (300, 1100, 5000, 70000):
            for m in (1, 2, 3):
                for i in (100, 5000, 1 << 20, 1 << 40): yield case_dep('long', [i, c, m], ref_long(i, c, m))
                for n, i in ((5000, 0), (5000, 2500), (1 << 20, 5), (1 << 20, (1 << 20) - 1), (1 << 40, 1 << 39)): yield case_dep('short', [n, i, c, m], ref_short(n, i, c, m))
        for w in ('long', 'short'):
            for n in (300, 1100, 5000):
                for m in (1, 2, 3): yield case_create(w, n, 12, m)
        for n in (300, 5000, 70000, 1 << 20):
            for c in (300, 1000, 3000):
                for i in (n - 1, n // 2): yield case_random('long', n, b'abc', i, c); yield case_random('short', n, b'abc', i, c)
    def falsify(self, ctx):
        r = ctx.rnd
        for m in range(5):
            for c in (0, 1, 2, 3, 7, 64, 65, 200):
                for i in [0, 1, 2, 3, 4, 5, 9, 10, 17, 31, 129, 640, 1 << 20, (1 << 64) - 1]: yield case_dep('long', [i, c, m], ref_long(i, c, m))
        for m in range(4):
            for c in (0, 1, 2, 3, 7, 33, 64, 70):
                for n in (1, 2, 3, 4, 9, 33, 1 << 40):
                    for i in sorted({0, 1, n // 2, n - 1, r.randrange(n)}):
                        if i < n: yield case_dep('short', [n, i, c, m], ref_short(n, i, c, m))
        for w in ('long', 'short'):
            for n in (0, 1, 2, 5, 40):
                for m in range(4): yield case_create(w, n, r.choice([0, 1, 3, 12]), m)
        for _ in range(3000):
            n = r.choice([1, 2, 3, 5, 64, 255, 256, 257, 258, 300, 5000, 65536, 65537, 70000, 1 << 20, 1 << 30])
            w = r.choice(['long', 'short']); i = r.choice([0, 1, n - 1, n // 2, r.randrange(n)])
            yield case_random(w, n, r.randbytes(r.choice([0, 1, 32, 64])), min(i, n - 1), r.choice([0, 1, 2, 3, 5, 8, 10, 16, 17, 24, 33, 48, 64, 100, 300]))
def nums(s): return [] if s in ('-', '') else [int(x) for x in s.split(',')]
def case_dep(w, args, want):
    def check(outs):
        if not outs[0].startswith('ok'): return outs[0][:200]
        if nums(outs[0][3:]) != want: return '%s_depend%r = %s, the rule gives %s' % (w, tuple(args), outs[0][3:][:200], want[:40])
    return Case(['%s_depend %s' % (w, ' '.join(map(str, args)))], check, '%s dependencies %r' % (w, args), inputs=dict(args=args))
def case_random(w, n, d, i, c):
    cmd = '%s_random %d %s %d %d' % (w, n, d.hex() or '-', i, c)
    def check(outs):
        for o in outs:
            if not o.startswith('ok'): return o[:200]
        v = nums(outs[0][3:])
        if outs[0] != outs[1]: return 'two calls with the same arguments differ: %s, %s' % (outs[0][:100], outs[1][:100])
        if any(b <= a for a, b in zip(v, v[1:])): return 'not strictly ascending: %s' % v[:40]
        if len(v) > c: return '%d dependencies, %d requested' % (len(v), c)
        if any(x >= (i if w == 'long' else n) or x == i for x in v): return 'illegal dependency among %s for index %d of %d' % (v[:40], i, n)
        if w == 'long' and i >= 1 and c >= 1 and not v: return 'no dependency at all'
    return Case([cmd, cmd], check, 'random %s dependencies' % w, inputs=dict(num=n, data=d.hex(), index=i, count=c))
def case_create(w, n, c, m):
    def check(outs):
        if not outs[0].startswith('ok'): return outs[0][:200]
        t = outs[0][3:]
        v = [nums(x) for x in t.split(';')] if n else []
        want = [ref_long(i, c, m) if w == 'long' else ref_short(n, i, c, m) for i in range(n)]
        if v != want: return 'create_%s_depend(%d, %d, %d) = %s, expected %s' % (w, n, c, m, t[:200], str(want)[:200])
    return Case(['create_%s %d %d %d' % (w, n, c, m)], check, 'all %s dependencies' % w, inputs=dict(num=n, count=c, mode=m))

@prop
class C21:
    crate = 'storage'; level = 'proof'; native_quick = 10
    contracts = ['create_challenges(n, (lo, hi)), n <= hi - lo: returns exactly n strictly ascending values in lo..hi (loop invariant: the values drawn so far are distinct and in range); every draw is one full draw of the random source over lo..hi, inserted unchanged']
    assumptions = ['the random source eventually draws a value not drawn before (termination of the rejection loop)']
    def prove(self, ctx): ctx.parallel([('challenges', lambda: self.go(ctx), None)])
    def go(self, ctx):
        n, lo, hi = z3.BitVecs('n lo hi', 64)
        draws = []
        def tweak(e, st):
            e.bag = lambda x: z3.And(z3.ULE(lo, x), z3.ULT(x, hi))
            e.only_p1 = True; e.loop_limit = 3; e.bagtop = n; e.bag_terms = draws
            e.binv = lambda ws: [('le%d' % i, z3.ULE(x, n)) for i, x in enumerate(ws)]
        def mk(e, st):
            st.pc += [z3.ULT(lo, hi), z3.ULE(n, hi - lo)]
            return [n, Agg(None, 0, (lo, hi))]
        e, rs = ctx.run('vp_root_create_challenges', mk, tweak=tweak)
        hint = lambda mo: list(self.some(ctx))
        if not rs: ctx.add('returns', 'refuted', 'no normal return')
        bo = [b for b in e.bag_obl if not b[0]]
        if any(b[0] is False for b in bo): ctx.add('every challenge is in range', 'refuted', str(bo[0])); ctx.hints.append(('every challenge is in range', hint(None)))
        else: ctx.add('every challenge is in range (%d insertions)' % len(e.bag_obl), 'proved' if e.bag_obl and not bo else 'undecided')
        # unbiased: what is inserted is one draw, and a draw ranges over all of lo..hi
        y = z3.BitVec('y', 64); good = False
        for x, s in draws:
            x = z3.simplify(x)
            for r in [v for v in free_consts(x) if v.decl().name() in e.__dict__.get('draws', ())]:
                c = z3.simplify(x - r); rn = r.decl().name()
                if rn in loops.names(c): continue
                s2 = s.clone(); s2.pc = [f for f in s.pc if rn not in loops.names(f)] + [z3.ULE(lo, y), z3.ULT(y, hi)]
                if e.valid(s2, z3.And(*[z3.substitute(f, (r, y - c)) for f in s.pc if rn in loops.names(f)]))[0]: good = True
        never = None
        if not good and draws:
            for l0, h0, v in ((0, 1 << 40, (1 << 40) - 1), (0, 1 << 40, 0), (3, 1 << 20, (1 << 20) - 1), (3, 1 << 20, 3), (0, 1 << 20, 77777), (1, 9, 4), (1, 9, 1), (1, 9, 8)):
                qs = [s.pc + [lo == l0, hi == h0, x == v] for x, s in draws]
                if all(e.valid(self.st(q), z3.BoolVal(False))[0] is True for q in qs): never = 'from %d..%d the value %d can never be drawn' % (l0, h0, v); break
        ctx.add('every value of the range can be drawn', 'proved' if good else 'refuted' if never else 'undecided', '' if good else never or str([d[0] for d in draws])[:200])
        if not good: ctx.hints.append(('every value of the range can be drawn', hint(None)))
        for s, v in rs:
            if type(v) is CSeq and not v.items: v = MS.BAG('sset', 0)
            if not MS.is_bag(v): ctx.add('result known', 'undecided', repr(v)[:100]); continue
            if v.d[0] != 'sset' and not (isinstance(v.d[1], int) and v.d[1] == 0): ctx.add('ascending and without repetition', 'undecided', 'collection of kind ' + v.d[0]); ctx.hints.append(('ascending', hint(None)))
            else: ctx.add('ascending and without repetition', 'proved')
            ctx.oblige(e, s, bv(v.d[1], 64) == n, 'exactly the requested number', hint)
        ctx.nopanic(e, hint=hint)
    def st(self, pc):
        s = State(); s.pc = list(pc)
        return s
    def some(self, ctx):
        for lo, hi in ((0, 1), (0, 7), (5, 12), (3, 4), (0, 256), (250, 270), (65530, 65560), ((1 << 32) - 5, (1 << 32) + 5), ((1 << 63) - 4, (1 << 63) + 4), (0, 1 << 40)):
            for n in sorted({0, 1, 2, 3, min(hi - lo, 20) // 2, min(hi - lo, 300)}):
                if n <= hi - lo: yield case_challenges(n, lo, hi)
        for lo, hi in ((0, 10), (7, 12), (250, 262)): yield case_cover(lo, hi)
        for lo, w in ((0, 10), (5, 20), (0, 40), (9, 48), (0, 62)): yield case_spread(lo, w)
    def scale(self, ctx):
        for n in (257, 1025, 5000, 70000): yield case_challenges(n, 0, n); yield case_challenges(n, 3, 1 << 40)
    def falsify(self, ctx):
        r = ctx.rnd
        yield from self.some(ctx)
        for _ in range(300):
            lo = r.choice([0, 1, 9, 255, 1 << 20]); w = r.choice([1, 2, 3, 10, 100, 1000]); yield case_challenges(r.randint(0, w), lo, lo + w)
def free_consts(t):
    out, todo, seen = [], [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.append(x)
        todo += x.children()
    return out
def case_challenges(n, lo, hi):
    def check(outs):
        if not outs[0].startswith('ok'): return outs[0][:200]
        v = nums(outs[0][3:])
        if len(v) != n: return '%d challenges, %d requested' % (len(v), n)
        if any(b <= a for a, b in zip(v, v[1:])): return 'not strictly ascending: %s' % v[:40]
        if any(not lo <= x < hi for x in v): return 'a challenge outside %d..%d: %s' % (lo, hi, v[:40])
    return Case(['challenges %d %d %d' % (n, lo, hi)], check, 'challenges', inputs=dict(n=n, lo=lo, hi=hi))
def case_cover(lo, hi):
    def check(outs):
        seen = set()
        for o in outs:
            if not o.startswith('ok'): return o[:200]
            seen |= set(nums(o[3:]))
        if seen != set(range(lo, hi)): return 'in %d draws of one challenge from %d..%d only %s occurred' % (len(outs), lo, hi, sorted(seen))
    return Case(['challenges 1 %d %d' % (lo, hi)] * 400, check, 'coverage of the range', inputs=dict(lo=lo, hi=hi))
def case_spread(lo, w):
    """a range of 2^w values: among 128 draws every bit of the offset takes both values (fails by chance with probability below w * 2^-127)"""
    def check(outs):
        v = []
        for o in outs:
            if not o.startswith('ok'): return o[:200]
            v += [x - lo for x in nums(o[3:])]
        for b in range(w):
            if len({x >> b & 1 for x in v}) < 2: return 'in %d draws from %d..%d bit %d of the offset never changes: %s...' % (len(v), lo, lo + (1 << w), b, sorted(v)[:4])
    return Case(['challenges 1 %d %d' % (lo, lo + (1 << w))] * 128, check, 'coverage of a wide range', inputs=dict(lo=lo, hi=lo + (1 << w)))

# ------------------------------------------------------------------------------------------------ C20
NEWP = StrV('lit', 'new'); NK = ('file', 'lit', 'new')
B8 = z3.BitVecSort(8)
class CopyGhost:
    """contents of the copy after k units; want(a) is the byte a whole copy holds at address a, w bytes per unit"""
    name = 'copied so far'
    def __init__(self, want, w, unit, iw, m): self.want, self.w, self.unit, self.iw, self.m = want, w, unit, iw, m
    def prepare(self, eng, s, k):
        """arithmetic: for k < m < 2^30 and w < 512, w*k + w <= w*m < 2^39"""
        for w in (self.iw, self.w): s.pc.append(z3.Implies(z3.ULT(k, self.m), z3.And(z3.ULE(w * k + (w - 1), w * self.m - 1), z3.ULE(w * k, w * k + (w - 1)), z3.ULT(w * self.m, 1 << 39), w * self.m != 0)))
    def at(self, i, v):
        if not z3.is_array(v) or v.sort() != z3.ArraySort(B64, B8): return False
        return self.same(v, i, ())
    def fn(self, a, k): return z3.If(z3.ULT(a, z3.BitVecVal(self.w * k, 64) if isinstance(k, int) else self.w * k), self.want(a), z3.BitVecVal(0, 8))
    def value(self, k):
        a = z3.BitVec('a!copy', 64)
        return z3.Lambda([a], self.fn(a, k))
    def same(self, v, k, pc):
        a = z3.BitVec('addr', 64)
        if isinstance(k, int):
            return all(self.ask(pc, models.sel(v, z3.BitVecVal(self.w * i + j, 64)) != self.unit(i, j)) for i in range(k) for j in range(self.w)) and self.ask(pc, z3.And(z3.UGE(a, self.w * k), z3.Select(v, a) != 0))
        t = z3.BitVec('unit0', 64)
        pc = list(pc) + [t == self.w * (k - 1)]
        if not self.ask(pc, z3.UGE(t, 1 << 42)): return False
        v2 = z3.substitute(z3.simplify(v, som=True), *[(z3.simplify(self.w * (k - 1) + j, som=True), t + j if j else t) for j in range(self.w)])
        small = [z3.ULT(t, 1 << 42)]
        if not all(self.ask(pc, models.sel(v2, t + j if j else t) != self.unit(k - 1, j), small) for j in range(self.w)): return False
        while z3.is_store(v2) and self.ask(pc, z3.Or(z3.ULT(v2.arg(1), t), z3.UGE(v2.arg(1), t + self.w)), small): v2 = v2.arg(0)
        small.append(t == self.w * (k - 1))
        return self.ask(pc, z3.And(z3.Or(z3.ULT(a, t), z3.UGE(a, t + self.w)), z3.Select(v2, a) != z3.If(z3.ULT(a, t), self.want(a), z3.BitVecVal(0, 8))), small)
    def ask(self, pc, c, small=None):
        """c has no solution; small: facts that may be enough"""
        c = z3.simplify(c)
        if z3.is_false(c): return True
        for f, t in (((small, 2000),) if small is not None else ()) + ((pc, 10000),):
            s = z3.Solver(); s.set('timeout', t); s.add(*f); s.add(c)
            r = s.check()
            if r == z3.unsat: return True
        if os.environ.get('VP_CG'): print('CG', r, str(c)[:300])
        return False
    def eq(self, eng, s, v, k1): return z3.is_array(v) and self.same(v, k1, s.pc)
@prop
class C20:
    crate = 'storage'; level = 'proof'; native_quick = 15
    contracts = [
        'vecu8_xor(l, r): max(|l|, |r|) bytes, byte i being l[i] ^ r[i] where both exist and the byte of the longer one elsewhere; any lengths',
        'to_units(d, l), l divides |d|: |d| / l units of l bytes, unit i holding bytes i*l..(i+1)*l of d; any number of units, unit sizes enumerated',
        'com_units(u): the units one after the other; lemma com_units(to_units(d, l)) = d; any number of units of one size, and units of mixed sizes at a stated bound',
        'copy_and_pad(origin, new, d, l): the new file has d / l units of l + 1 bytes, unit i holding bytes i*l..(i+1)*l of the origin and a zero byte, whatever it held before; the origin is unchanged; any number of units, unit sizes enumerated',
        'copy_and_compress(origin, new, d, l, pl): the new file has d / l units of l bytes, unit i holding the first l bytes of unit i of the origin; the origin is unchanged; lemma compress(pad(file)) = file',
    ]
    assumptions = ['files hold at least the bytes the parameters say; lengths below 2^40']
    def prove(self, ctx):
        T = ctx.thorough
        tasks = [('vecu8_xor', lambda: self.xor(ctx), None)]
        for l in (1, 2, 3, 64) + ((5, 16, 63, 128, 256) if T else ()):
            tasks.append(('to_units, unit size %d' % l, lambda l=l: self.to_units(ctx, l), 'unit size %d' % l))
            tasks.append(('com_units, unit size %d' % l, lambda l=l: self.com_units(ctx, l), 'unit size %d' % l))
        tasks.append(('com_units, mixed sizes', lambda: self.com_mixed(ctx), 'up to 5 units of up to 4 bytes'))
        for l in (1, 3, 7, 63) + ((2, 127, 255) if T else ()):
            tasks.append(('copy_and_pad, unit size %d' % l, lambda l=l: self.copy(ctx, l, True), 'unit size %d' % l))
            tasks.append(('copy_and_compress, unit size %d' % l, lambda l=l: self.copy(ctx, l, False), 'unit size %d' % l))
        ctx.parallel(tasks)
    def xor(self, ctx):
        la, lb, i = z3.BitVecs('la lb i', 64); A, B = (z3.Array(n, B64, B8) for n in 'AB')
        def mk(e, st):
            st.pc += [z3.ULT(la, 1 << 40), z3.ULT(lb, 1 << 40)]
            return [ref_to(e, st, SSeq(la, lambda j: z3.Select(A, bv(j, 64)))), ref_to(e, st, SSeq(lb, lambda j: z3.Select(B, bv(j, 64))))]
        e, rs = ctx.run('vp_root_vecu8_xor', mk)
        hint = lambda m: self.some_xor(ctx)
        if not rs: ctx.add('returns', 'refuted', 'no normal return')
        mx = z3.If(z3.UGT(la, lb), la, lb)
        for s, v in rs:
            ctx.oblige(e, s, bv(e.slen(v), 64) == mx, 'as long as the longer one', hint)
            if e.slen(v) == 0: continue
            s2 = s.clone(); s2.pc.append(z3.ULT(i, mx))
            z = z3.BitVecVal(0, 8)
            ctx.oblige(e, s2, bv(e.seq_get(v, i), 8) == z3.If(z3.ULT(i, la), z3.Select(A, i), z) ^ z3.If(z3.ULT(i, lb), z3.Select(B, i), z), 'every byte', hint)
        ctx.nopanic(e, hint=hint)
    def to_units(self, ctx, l):
        m, i = z3.BitVecs('m i', 64); A = z3.Array('A', B64, B8)
        def mk(e, st):
            st.pc += [z3.ULT(m, 1 << 30)]
            return [ref_to(e, st, SSeq(l * m, lambda j: z3.Select(A, bv(j, 64)))), l]
        e, rs = ctx.run('vp_root_to_units', mk)
        hint = lambda mo: [case_units(bytes(range(1, 1 + l * k)) if l * k < 255 else ctx.rnd.randbytes(l * k), l) for k in (0, 1, 2, 3)]
        if not rs: ctx.add('returns', 'refuted', 'no normal return')
        for s, v in rs:
            ctx.oblige(e, s, bv(e.slen(v), 64) == m, 'as many units as fit', hint)
            if e.slen(v) == 0: continue
            s2 = s.clone(); s2.pc.append(z3.ULT(i, m))
            x = e.seq_get(v, i)
            ctx.oblige(e, s2, bv(e.slen(x), 64) == l, 'every unit has the unit size', hint)
            ctx.oblige(e, s2, z3.And(*[bv(e.seq_get(x, j), 8) == z3.Select(A, l * i + j) for j in range(l)]), 'unit i holds the bytes from i times the unit size on', hint)
        ctx.nopanic(e, hint=hint)
    def com_units(self, ctx, l):
        m, i = z3.BitVecs('m i', 64); A = z3.Array('A', B64, B8)
        def mk(e, st):
            st.pc += [z3.ULT(m, 1 << 30)]
            return [ref_to(e, st, SSeq(m, lambda k: CSeq([z3.Select(A, l * bv(k, 64) + j) for j in range(l)])))]
        e, rs = ctx.run('vp_root_com_units', mk)
        hint = lambda mo: [case_com([ctx.rnd.randbytes(l) for _ in range(k)]) for k in (0, 1, 2, 3)]
        if not rs: ctx.add('returns', 'refuted', 'no normal return')
        for s, v in rs:
            ctx.oblige(e, s, bv(e.slen(v), 64) == l * m, 'as long as all units', hint)
            if e.slen(v) == 0: continue
            s2 = s.clone(); s2.pc.append(z3.ULT(i, l * m))
            ctx.oblige(e, s2, bv(e.seq_get(v, i), 8) == z3.Select(A, i), 'the bytes of the units in order', hint)
        ctx.nopanic(e, hint=hint)
    def com_mixed(self, ctx):
        import itertools
        for lens in [()] + [t for n in (1, 2, 3) for t in itertools.product(range(3), repeat=n)] + [(1, 4, 0, 2, 3), (0, 0, 4, 0, 1)]:
            us = [[z3.BitVec('u%d_%d' % (a, b), 8) for b in range(n)] for a, n in enumerate(lens)]
            e, rs = ctx.run('vp_root_com_units', lambda e, st: [ref_to(e, st, CSeq([CSeq(u) for u in us]))])
            hint = lambda mo: [case_com([ctx.rnd.randbytes(n) for n in lens])]
            w = [x for u in us for x in u]
            if len(rs) != 1: ctx.add('returns', 'refuted', str(lens)); ctx.hints.append(('returns', hint(None))); continue
            s, v = rs[0]; its = seq_items(v)
            if len(its) != len(w): ctx.add('length for sizes %s' % (lens,), 'refuted', str(len(its))); ctx.hints.append(('length', hint(None))); continue
            ctx.oblige(e, s, z3.And(*[a == b for a, b in zip(its, w)]) if w else z3.BoolVal(True), 'sizes %s' % (lens,), hint); ctx.nopanic(e, hint=hint)
    def copy(self, ctx, l, pad_):
        m, a, ol, nl = z3.BitVecs('m a ol nl', 64); O, N = (z3.Array(n, B64, B8) for n in ('O', 'N'))
        iw, ow = (l, l + 1) if pad_ else (l + 1, l)
        # quotient and remainder by the unit size; all that is used of them is that ow*k + j, j < ow, has quotient k and rest j
        q, r = z3.Function('QUO', B64, B64), z3.Function('RST', B64, B64)
        unit = lambda i, j: z3.BitVecVal(0, 8) if j >= l else z3.Select(O, z3.BitVecVal(iw * i + j, 64) if isinstance(i, int) else iw * i + j)
        dl = z3.BitVec('dl', 64)
        want = (lambda x: z3.If(z3.ULT(r(x), l), z3.Select(O, iw * q(x) + r(x)), z3.BitVecVal(0, 8)))
        def mk(e, st):
            st.pc += [z3.ULT(m, 1 << 30), z3.ULT(ol, 1 << 40), z3.ULE(iw * m, ol), z3.ULT(nl, 1 << 40), dl == l * m, z3.UDiv(dl, z3.BitVecVal(l, 64)) == m]
            st.heap[OK_] = Opq('filec', O, ol); st.heap[NK] = Opq('filec', N, nl)
            return [ORIGIN, NEWP, dl, l] + ([] if pad_ else [l + 1])
        e, rs = ctx.run('vp_root_copy_and_' + ('pad' if pad_ else 'compress'), mk, ghosts=[CopyGhost(want, ow, unit, iw, m)])
        hint = lambda mo: [case_copy(ctx.rnd.randbytes(l * k), l, old) for k in (0, 1, 2, 3, 9) for old in (b'', b'x' * 1000)]
        if not rs: ctx.add('returns', 'refuted', 'no normal return')
        for s, v in rs:
            f = s.heap[NK]
            ctx.oblige(e, s, bv(f.d[1], 64) == ow * m, 'length of the copy', hint)
            s2 = s.clone(); s2.pc.append(z3.ULT(a, ow * m))
            ctx.oblige(e, s2, z3.Select(f.d[0], a) == want(a), 'every byte of the copy', hint)
            g = s.heap[OK_]
            ctx.oblige(e, s, z3.And(bv(g.d[1], 64) == ol, z3.Select(g.d[0], a) == z3.Select(O, a)), 'the origin is unchanged', hint)
        ctx.nopanic(e, hint=hint)
    def some_xor(self, ctx):
        r = ctx.rnd
        return [case_xor(r.randbytes(a), r.randbytes(b)) for a in (0, 1, 2, 5, 33) for b in (0, 1, 2, 7, 33)]
    def scale(self, ctx):
        r = ctx.rnd
        for l, k in ((1, 70000), (300, 20), (5000, 3), (70000, 3), ((1 << 20) + 17, 3)):
            d = r.randbytes(l * k)
            yield case_units(d, l); yield case_copy(d, l, b''); yield case_com([d[i:i + l] for i in range(0, len(d), l)])
        for a, b in ((300, 5), (5, 300), (70000, 66000), (5000, 5000), (0, 70000)): yield case_xor(r.randbytes(a), r.randbytes(b))
    def falsify(self, ctx):
        r = ctx.rnd
        yield from self.some_xor(ctx)
        for l in (1, 2, 3, 7, 63, 64, 127, 255, 256):
            for k in (0, 1, 2, 3, 17):
                d = r.choice([r.randbytes(l * k), bytes(l * k), b'\xff' * (l * k)])
                yield case_units(d, l); yield case_com([r.randbytes(r.choice([0, 1, l])) for _ in range(k)]); yield case_copy(d, l, r.choice([b'', r.randbytes(5), r.randbytes(3 * l * (k + 1))]))
        for _ in range(200): yield case_xor(r.randbytes(r.randrange(40)), r.randbytes(r.randrange(40)))
def hx(b): return b.hex() or '-'
def hxs(v): return ','.join(hx(x) for x in v) if v else '='
def unhx(s): return b'' if s == '-' else bytes.fromhex(s)
def unhxs(s): return [] if s == '=' else [unhx(x) for x in s.split(',')]
def case_xor(a, b):
    n = max(len(a), len(b)); w = bytes((a[i] if i < len(a) else 0) ^ (b[i] if i < len(b) else 0) for i in range(n))
    def check(outs):
        if not outs[0].startswith('ok'): return outs[0][:200]
        if unhx(outs[0][3:]) != w: return 'xor of %s and %s is %s' % (a.hex(), b.hex(), outs[0][3:])
    return Case(['xor %s %s' % (hx(a), hx(b))], check, 'xor', inputs=dict(left=a.hex()[:4000], right=b.hex()[:4000]))
def case_units(d, l):
    w = [d[i:i + l] for i in range(0, len(d), l)]
    def check(outs):
        for o in outs:
            if not o.startswith('ok'): return o[:200]
        if unhxs(outs[0][3:]) != w: return 'units of %d bytes of %s: %s' % (l, d.hex()[:200], outs[0][3:][:200])
        if unhx(outs[1][3:]) != d: return 'units do not combine to the data'
    return Case(['to_units %s %d' % (hx(d), l), 'com_units ' + hxs(w)], check, 'units', inputs=dict(data=d.hex()[:4000], bytes=len(d), unit=l))
def case_com(us):
    def check(outs):
        if not outs[0].startswith('ok'): return outs[0][:200]
        if unhx(outs[0][3:]) != b''.join(us): return 'combined units %s' % outs[0][3:][:200]
    return Case(['com_units ' + hxs(us)], check, 'combining units', inputs=dict(units=[u.hex()[:4000] for u in us[:100]], lengths=[len(u) for u in us[:100]]))
def case_copy(d, l, old):
    def go(ctx, outs):
        f = Files()
        try:
            o, n, k = f.put('o', d + b'tail'), f.put('n', old), f.put('k', old)
            a = ctx.nat.ask('pad %s %s %d %d' % (o, n, len(d), l), 60)
            if not a.startswith('ok'): return a[:200]
            if f.get('n') != pad(d, l): return 'padding %d units of %d bytes gives %s, expected %s' % (len(d) // l, l, f.get('n').hex()[:200], pad(d, l).hex()[:200])
            a = ctx.nat.ask('compress %s %s %d %d %d' % (n, k, len(d), l, l + 1), 60)
            if not a.startswith('ok'): return a[:200]
            if f.get('k') != d: return 'padding and compressing gives %s instead of %s' % (f.get('k').hex()[:200], d.hex()[:200])
            if f.get('o') != d + b'tail' or f.get('n') != pad(d, l): return 'a source file was modified'
            return 'ok'
        finally: f.close()
    return Case([go], said, 'copying with padding', inputs=dict(data=d.hex()[:4000], bytes=len(d), unit=l, old=old.hex()))
def said(outs): return None if outs[-1] == 'ok' else outs[-1][:400]

# ------------------------------------------------------------------------------------------------ C22
@prop
class C22(Sealing):
    native_quick = 20
    contracts = [
        'batch_verify(origin, i, units, block_l, unit_l): returns normally exactly if, for every unit u of block i and every byte j < unit_l, units[u][j] is byte i*block_l + u*unit_l + j of the origin file; panics otherwise; neither changes a file (bounded: at most 4 units of at most 4 bytes, unit size 63 with one unit)',
        'batch_unseal_and_verify of what was prepared from a sealed file: returns normally exactly if the blocks of the origin file it names equal the blocks that were sealed (bounded: listed parameter sets; unsealing steps by the contracts of C15, C16, C19)',
    ]
    assumptions = ['composition of the functions is bounded to the listed numbers of blocks, units, rounds and sampled dependency functions']
    def prove(self, ctx):
        tasks = []
        sizes = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (1, 4), (4, 2), (3, 4), (63, 1)] + ([(5, 5), (7, 3), (63, 2), (8, 4)] if ctx.thorough else [])
        for ul, U in sizes: tasks.append(('batch_verify, %d units of %d bytes' % (U, ul), lambda ul=ul, U=U: self.direct(ctx, ul, U), 'this size, blocks 0 to 2'))
        cs = [c for c in confs(ctx) if c[0].B * c[0].U * c[0].ul <= 12]
        if not ctx.thorough: cs = cs[::2]
        def go(mine):
            for conf, n in mine:
                for seed in range(min(n, 2)):
                    ok, why = self.sealed(ctx, conf, 1000 * ctx.seed + seed)
                    ctx.add('unseal and verify, %r, dependencies %d' % (conf, seed), 'proved' if ok else 'refuted', why)
                    if not ok: ctx.hints.append(('unseal and verify', self.hints_for(ctx, conf)))
        for w in range(8): tasks.append(('unseal and verify, part %d' % w, lambda w=w: go(cs[w::8]), SEALBOUND))
        ctx.parallel(tasks)
    def decide(self, e, rs, eqs):
        """returns exactly if all of eqs hold"""
        alleq = z3.And(*eqs) if eqs else z3.BoolVal(True)
        for s, v in rs:
            ok, m = e.valid(s, alleq)
            if not ok: return 'accepts a block that differs: %s' % str(m)[:300]
        for p in e.panics:
            s = State(); s.pc = p['pc']
            ok, m = e.valid(s, z3.Not(alleq))
            if not ok: return 'rejects an equal block: %s in %s' % (p['msg'], p['where'])
        return None
    def direct(self, ctx, ul, U):
        for idx in (0, 1, 2):
            nb = 3 * U * ul
            O = z3.K(BV64, z3.BitVecVal(0, 8)); ob = [z3.BitVec('o%d' % i, 8) for i in range(nb)]
            for i in range(nb): O = z3.Store(O, z3.BitVecVal(i, 64), ob[i])
            us = [[z3.BitVec('u%d_%d' % (u, j), 8) for j in range(ul + 1)] for u in range(U)]
            def mk(e, st):
                e.loop_limit = 100000
                st.heap[OK_] = Opq('filec', O, nb)
                return [ORIGIN, idx, ref_to(e, st, CSeq([CSeq(u) for u in us])), U * ul, ul]
            e, rs = ctx.run('vp_root_batch_verify', mk)
            eqs = [us[u][j] == ob[idx * U * ul + u * ul + j] for u in range(U) for j in range(ul)]
            w = self.decide(e, rs, eqs)
            if w is None and any(self.same_bytes(e, s, self.contents(s, OK_), ob) for s, _ in rs): w = 'the origin file changes'
            ctx.add('block %d accepted exactly if it is the original' % idx, 'refuted' if w else 'proved', w or '')
            if w: ctx.hints.append(('batch_verify', self.direct_cases(ctx, ul, U)))
    def sealed(self, ctx, conf, seed):
        sn, e, rs = self.setup(ctx, conf, seed)
        if len(rs) != 1 or self.panicked(e): return True, 'sealing itself fails (C16, C17)'
        s, v = rs[0]; R = ctx.mir.roots; bl = conf.v['block_l']
        for a, b in {(0, conf.B), (conf.B - 1, conf.B), (0, 1)}:
            st = s.clone(); e.panics = []
            n = conf.v['data_l']; O = z3.K(BV64, z3.BitVecVal(0, 8)); ob = [z3.BitVec('o%d' % i, 8) for i in range(n)]
            for i in range(n): O = z3.Store(O, z3.BitVecVal(i, 64), ob[i])
            st.heap[OK_] = Opq('filec', O, n)
            r = e.exec_fn(R['vp_root_batch_unseal_prepare'], [SEALED, a * conf.v['block_pl'], b * conf.v['block_pl'], ref_to(e, st, conf.agg(ctx))], st)
            if len(r) != 1: return False, 'batch_unseal_prepare does not return: %s' % self.panicked(e)
            st, q = r[0]; parts = q.f
            e.panics = []
            r = e.exec_fn(R['vp_root_unseal_and_verify'], [ref_to(e, st, conf.agg(ctx)), ORIGIN] + [ref_to(e, st, x) for x in parts] + [ref_to(e, st, ZV(KEY)), ref_to(e, st, IV)], st)
            ctx.finish(e)
            eqs = []
            for i in range(a * bl, b * bl):
                u, j = divmod(i, conf.ul); eqs.append(conf.byte(u * conf.pl + j) == ob[i])
            w = self.decide(e, r, eqs)
            if w: return False, 'blocks %d..%d: %s' % (a, b, w)
        return True, ''
    def direct_cases(self, ctx, ul, U, few=False):
        r = ctx.rnd; out = []
        for idx in (0, 1, 2) if not few else (1,):
            data = r.randbytes(3 * U * ul)
            us = [data[(idx * U + u) * ul:(idx * U + u + 1) * ul] + bytes([r.choice([0, 7])]) for u in range(U)]
            out.append(case_verify(data, idx, us, U * ul, ul))
            for u in range(U) if not few else sorted({0, U - 1, U // 2}):
                for j in sorted({0, ul - 1, ul // 2, r.randrange(ul)}):
                    for x in (1, 128, 255) if not few else (1,):
                        w = [bytearray(z) for z in us]; w[u][j] ^= x
                        out.append(case_verify(data, idx, [bytes(z) for z in w], U * ul, ul))
        return out
    big = Sealing.big[-1:] + Sealing.big[:4]
    def scale(self, ctx):
        for ul, U in ((300, 2), (1000, 1), (70000, 1), (3, 300), (1, 5000)): yield from self.direct_cases(ctx, ul, U, few=True)
        for ok in (True, False):
            for idx in (300, 5000): yield case_verify_far(idx, ok, ctx.rnd.randbytes(2 * 63), 63)
            yield case_verify_far(4200, ok, ctx.rnd.randbytes(1 << 20), 1 << 19)
        yield from Sealing.scale(self, ctx)
    def native_cases(self, ctx, pool, big=False):
        r = ctx.rnd
        for ul, U in () if big else ((1, 1), (2, 3), (63, 2), (63, 5), (5, 4)): yield from self.direct_cases(ctx, ul, U)
        for conf in pool:
            conf = native_conf(conf, big=big)
            yield case_and_verify(conf, conf_data(r, conf), r.randbytes(r.choice([0, 1, 128])), r.randrange(1 << 30))
def case_verify(data, idx, us, bl, ul):
    want = all(u[:ul] == data[idx * bl + i * ul:idx * bl + (i + 1) * ul] for i, u in enumerate(us))
    def go(ctx, outs):
        f = Files()
        try: return ctx.nat.ask('batch_verify %s %d %s %d %d' % (f.put('o', data), idx, hxs(us), bl, ul), 60)
        finally: f.close()
    def check(outs):
        if outs[-1].startswith('ok') != want: return ('accepts a block that differs from' if not want else 'rejects a block equal to') + ' the original: ' + outs[-1][:200]
    return Case([go], check, 'verify an unsealed block', inputs=dict(origin=data.hex()[:4000], block=idx, units=[u.hex()[:4000] for u in us[:50]], block_l=bl, unit_l=ul))
def case_verify_far(idx, ok, block, ul):
    """a block far inside a file that is zero elsewhere"""
    bl = len(block)
    def go(ctx, outs):
        f = Files()
        try:
            with open(f.p('o'), 'wb') as h: h.seek(idx * bl); h.write(block if ok else bytes([block[0] ^ 1]) + block[1:]); h.truncate((idx + 2) * bl)
            us = [block[i:i + ul] + b'\0' for i in range(0, bl, ul)]
            return ctx.nat.ask('batch_verify %s %d %s %d %d' % (f.p('o'), idx, hxs(us), bl, ul), 60)
        finally: f.close()
    def check(outs):
        if outs[-1].startswith('ok') != ok: return ('accepts a block that differs from' if not ok else 'rejects a block equal to') + ' the original: ' + outs[-1][:200]
    return Case([go], check, 'verify block %d of a large file' % idx, inputs=dict(block=idx, contents=block.hex()[:4000], block_l=bl, unit_l=ul, equal=ok))
def case_and_verify(conf, data, iv, seed):
    def go(ctx, outs):
        import random
        r = random.Random(seed); f = Files(); bp = conf.v['block_pl']; bl = conf.v['block_l']; iv_ = iv.hex() or '-'
        try:
            f.put('s', pad(data, conf.ul)); f.put('o', data)
            o = ctx.nat.ask('seal %s %s %x %s' % (conf.text(), f.p('s'), P512, iv_), 200)
            if not o.startswith('ok'): return 'ok'
            a = r.randrange(conf.B) if conf.B < 100 else conf.B - 2; b = r.randrange(a + 1, conf.B + 1)
            ask = lambda: ctx.nat.ask('and_verify %s %s %s %d %d %x %s' % (conf.text(), f.p('s'), f.p('o'), a * bp, b * bp, P512, iv_), 200)
            o = ask()
            if not o.startswith('ok'): return 'the unsealed blocks %d..%d are rejected although they equal the original: %s' % (a, b, o[:200])
            for pos in {a * bl, b * bl - 1, r.randrange(a * bl, b * bl)}:
                d = bytearray(data); d[pos] ^= r.choice([1, 128, 255]); f.put('o', bytes(d))
                o = ask()
                if o.startswith('ok'): return 'accepted although byte %d of the original differs' % pos
            outside = [i for i in range(len(data)) if not a * bl <= i < b * bl]
            if outside:
                d = bytearray(data); d[r.choice(outside)] ^= 1; f.put('o', bytes(d))
                o = ask()
                if not o.startswith('ok'): return 'a difference outside the blocks %d..%d leads to rejection' % (a, b)
            return 'ok'
        finally: f.close()
    return Case([go], said, 'unseal and verify, %r' % conf, inputs=dict(params=conf.text(), data=data.hex()[:4000], iv=iv.hex(), seed=seed), timeout=300)

# ------------------------------------------------------------------------------------------------ C23
def val(mo, x): return mo.eval(x, model_completion=True).as_long()
@prop
class C23:
    crate = 'storage'; level = 'proof'; native_quick = 15
    contracts = [
        'generate_merkle_tree_from_file(path, d, l), l divides d, d > 0: d / l leaves, leaf i = SHA-256 of bytes i*l..(i+1)*l of the file; the tree and the root are those of exactly these leaves; the file is unchanged; any number of leaves, leaf sizes enumerated',
        'generate_merkle_tree_from_data(v): leaf i = SHA-256 of v[i], tree and root those of these leaves; any number of leaves, leaf sizes enumerated',
        'generate_merkle_proof(idx, tree): the proof of the tree for exactly idx',
        'verify_merkle_proof(proof, root, idx, leaves): returns normally exactly if every index is a leaf and the proof checks against this root, these indices, the leaves at these indices in order and the number of leaves; any number of indices and leaves',
        'merkle_tree_proof(origin, unsealed, d, l, n): returns only after verifying the proof made from the unsealed file, at n challenges from 0..d/l, against the root of the origin file; calls by their contracts',
    ]
    assumptions = ['rs_merkle (tree, proof, proof encoding, SHA-256) behaves as documented: a proof checks only against the root of a tree with the claimed leaves at the claimed positions', 'files hold at least the bytes the parameters say']
    def prove(self, ctx):
        T = ctx.thorough
        tasks = []
        for l in (1, 2, 3, 4, 7) + ((16, 33) if T else ()):
            if l != 7 or T: tasks.append(('from_file, leaf size %d' % l, lambda l=l: self.tree(ctx, l, True), 'leaf size %d' % l))
            tasks.append(('from_data, leaf size %d' % l, lambda l=l: self.tree(ctx, l, False), 'leaf size %d' % l))
        tasks.append(('from_data, leaf size 0', lambda: self.tree(ctx, 0, False), 'leaf size 0'))
        tasks.append(('generate_merkle_proof', lambda: self.proof(ctx), None))
        tasks.append(('verify_merkle_proof', lambda: self.verify(ctx), None))
        tasks.append(('merkle_tree_proof', lambda: self.whole(ctx), None))
        ctx.parallel(tasks)
    def tree(self, ctx, l, file):
        m, j, a, ol = z3.BitVecs('m j a ol', 64); O = z3.Array('O', B64, B8)
        dl = z3.BitVec('dl', 64)
        def tweak(e, st): e.hash_uf = True; e.loop_limit = 3
        def mk(e, st):
            st.pc += [z3.ULT(m, 1 << 30), m != 0, z3.ULT(ol, 1 << 40), z3.ULE(l * m, ol)]
            if file:
                st.pc += [dl == l * m, z3.UDiv(dl, z3.BitVecVal(l, 64)) == m]
                st.heap[OK_] = Opq('filec', O, ol)
                return [ORIGIN, dl, l]
            return [ref_to(e, st, SSeq(m, lambda k: CSeq([z3.Select(O, l * bv(k, 64) + i) for i in range(l)])))]
        class Lem:
            name = 'arithmetic'
            def at(self, i, v): return False
            def prepare(self, eng, s, k): s.pc.append(z3.Implies(z3.ULT(k, m), z3.And(z3.ULE(l * k + (l - 1), l * m - 1), z3.ULT(l * m, 1 << 39), l * m != 0)))
        e, rs = ctx.run('vp_root_merkle_from_' + ('file' if file else 'data'), mk, tweak=tweak, ghosts=[Lem()] if l else [])
        def hint(mo):
            k = val(mo, m) if mo is not None else 0
            return self.some_trees(ctx, l) + ([case_merkle(ctx.rnd.randbytes(l * k), l)] if file and 0 < k < 3000000 else [])
        if not rs: ctx.add('returns', 'refuted', 'no normal return'); ctx.hints.append(('returns', hint(None)))
        want = MS.uf_hash(None, CSeq([z3.Select(O, l * j + i) for i in range(l)]))[0]
        for s, v in rs:
            lv, tr, ro = v.f
            if type(tr) is not Opq or tr.tag != 'mtree' or type(ro) is not Opq or ro.tag != 'mroot': ctx.add('tree and root', 'undecided', repr((tr, ro))[:200]); ctx.hints.append(('tree and root', hint(None))); continue
            for nm, x in (('leaves returned', lv), ('leaves of the tree', tr.d[0]), ('leaves under the root', ro.d[0])):
                ctx.oblige(e, s, bv(e.slen(x), 64) == m, 'number of ' + nm, hint)
                if e.slen(x) == 0: continue
                s2 = s.clone(); s2.pc.append(z3.ULT(j, m))
                g = e.seq_get(x, j)
                if type(g) is not Opq or g.tag != 'sha': ctx.add(nm, 'undecided', repr(g)[:200]); ctx.hints.append((nm, hint(None))); continue
                ctx.oblige(e, s2, g.d[0] == want, nm + ': leaf i is the hash of the i-th piece', hint)
            if file:
                f = s.heap[OK_]
                ctx.oblige(e, s, z3.And(bv(f.d[1], 64) == ol, z3.Select(f.d[0], a) == z3.Select(O, a)), 'the file is unchanged', hint)
        ctx.nopanic(e, hint=hint)
    def proof(self, ctx):
        n, m, j = z3.BitVecs('n m j', 64); I = z3.Array('I', B64, B64)
        leaves = SSeq(m, lambda i: Opq('leaf', bv(i, 64))); idx = SSeq(n, lambda i: z3.Select(I, bv(i, 64)))
        def mk(e, st):
            st.pc += [z3.ULT(n, 1 << 30), z3.ULT(m, 1 << 30)]
            return [ref_to(e, st, idx), ref_to(e, st, Opq('mtree', leaves))]
        e, rs = ctx.run('vp_root_merkle_proof', mk)
        hint = lambda mo: self.some_proofs(ctx)
        if not rs: ctx.add('returns', 'refuted', 'no normal return')
        for s, v in rs:
            if type(v) is not Opq or v.tag != 'mproof': ctx.add('a proof', 'undecided', repr(v)[:200]); ctx.hints.append(('a proof', hint(None))); continue
            self.same_leaves(ctx, e, s, v.d[0], leaves, m, hint); self.same_idx(ctx, e, s, v.d[1], I, n, hint)
        ctx.nopanic(e, hint=hint)
    def same_leaves(self, ctx, e, s, x, leaves, m, hint):
        if x is leaves: ctx.add('the proof is of the tree given', 'proved'); return
        ctx.add('the proof is of the tree given', 'undecided', repr(x)[:100]); ctx.hints.append(('tree', hint(None)))
    def same_idx(self, ctx, e, s, x, I, n, hint):
        j = z3.BitVec('j', 64)
        ctx.oblige(e, s, bv(e.slen(x), 64) == n, 'as many indices as given', hint)
        if e.slen(x) == 0: return
        s2 = s.clone(); s2.pc.append(z3.ULT(j, n))
        ctx.oblige(e, s2, bv(e.seq_get(x, j), 64) == z3.Select(I, j), 'the indices given, in order', hint)
    def verify(self, ctx):
        n, m, j = z3.BitVecs('n m j', 64); I = z3.Array('I', B64, B64)
        leaves = SSeq(m, lambda i: Opq('leaf', bv(i, 64)))
        P, R = Opq('someproof'), Opq('someroot')
        def mk(e, st):
            st.pc += [z3.ULT(n, 1 << 30), z3.ULT(m, 1 << 30)]
            return [P, R, ref_to(e, st, SSeq(n, lambda i: z3.Select(I, bv(i, 64)))), ref_to(e, st, leaves)]
        e, rs = ctx.run('vp_root_merkle_verify', mk)
        hint = lambda mo: self.some_proofs(ctx)
        if not rs: ctx.add('accepts a valid proof', 'refuted', 'no normal return'); ctx.hints.append(('accepts', hint(None)))
        calls = e.__dict__.get('mverify', [])
        for s, v in rs:
            good = [c for c in calls if e.valid(s, c[0])[0]]
            if not good: ctx.add('returns only if the proof checks', 'refuted', 'a return does not depend on the outcome of the check'); ctx.hints.append(('returns only if', hint(None))); continue
            ctx.add('returns only if the proof checks', 'proved')
            b, p, r, ix, lv, tot = good[-1]
            ok = p is P and r is R
            ctx.add('the proof and the root checked are those given', 'proved' if ok else 'undecided', '' if ok else repr((p, r))[:200])
            if not ok: ctx.hints.append(('proof and root', hint(None)))
            self.same_idx(ctx, e, s, ix, I, n, hint)
            ctx.oblige(e, s, bv(tot, 64) == m, 'the number of leaves is that of the tree', hint)
            ctx.oblige(e, s, bv(e.slen(lv), 64) == n, 'one leaf per index', hint)
            if e.slen(lv) == 0: continue
            s2 = s.clone(); s2.pc.append(z3.ULT(j, n))
            g = e.seq_get(lv, j)
            if type(g) is not Opq or g.tag != 'leaf': ctx.add('the leaves at the indices', 'undecided', repr(g)[:200]); ctx.hints.append(('leaves', hint(None))); continue
            ctx.oblige(e, s2, g.d[0] == z3.Select(I, j), 'the leaves are those at the indices, in order', hint)
        # a rejection has a reason: an index beyond the leaves, or the check failed
        k = z3.BitVec('kk', 64)
        for q in e.panics:
            s = State(); s.pc = list(q['pc'])
            inr = [z3.ForAll([k], z3.Implies(z3.ULT(k, n), z3.ULT(z3.Select(I, k), m)))] + [c[0] for c in calls]
            ok, mo = e.valid(s, z3.Not(z3.And(*inr)))
            ctx.add('rejects only for a reason', 'proved' if ok else 'refuted' if ok is False else 'undecided', '' if ok else q['msg'])
            if not ok: ctx.hints.append(('rejects', hint(None)))
    def whole(self, ctx):
        d, l, n = z3.BitVecs('d l n', 64); log = []
        m_ = 'proof_of_storage::merkle_tree::'
        def tree(e, st, a, fn):
            p = models.L(e, st, a[0])
            return Agg(None, 0, (Opq('leavesof', p, a[1], a[2]), Opq('treeof', p, a[1], a[2]), Opq('rootof', p, a[1], a[2])))
        def chal(e, st, a, fn): return Opq('chal', a[0], *models.L(e, st, a[1]).f)
        def prf(e, st, a, fn): return Opq('proofof', models.L(e, st, a[0]), models.L(e, st, a[1]))
        def ver(e, st, a, fn):
            log.append(tuple(models.L(e, st, x) for x in a[:4])); st.pc.append(z3.Bool('verified'))
            return UNIT
        con = {}
        for nm, f in ((m_ + 'generate_merkle_tree_from_file', tree), (m_ + 'generate_merkle_proof', prf), (m_ + 'verify_merkle_proof', ver), ('proof_of_storage::verifier::create_challenges', chal)): con.update(sc(nm, f))
        def mk(e, st):
            st.pc += [l != 0, z3.ULE(l, d), z3.ULT(d, 1 << 40)]
            return [ORIGIN, SEALED, d, l, n]
        e, rs = ctx.run('vp_root_merkle_tree_proof', mk, contracts=con)
        hint = lambda mo: self.some_whole(ctx)
        if not rs: ctx.add('returns', 'refuted', 'no normal return')
        for s, v in rs:
            ok, why = e.valid(s, z3.Bool('verified'))[0] and len(log) == 1, 'no verification before the return'
            if ok:
                p, r, ix, lv = log[0]; why = repr(log[0])[:300]
                own = lambda x, tag, path: type(x) is Opq and x.tag == tag and x.d[0] is path and e.valid(s, z3.And(bv(x.d[1], 64) == d, bv(x.d[2], 64) == l))[0]
                ok = own(r, 'rootof', ORIGIN) and own(lv, 'leavesof', SEALED) and type(p) is Opq and p.tag == 'proofof' and p.d[0] is ix and own(p.d[1], 'treeof', SEALED) and type(ix) is Opq and ix.tag == 'chal' and \
                    e.valid(s, z3.And(bv(ix.d[0], 64) == n, bv(ix.d[1], 64) == 0, bv(ix.d[2], 64) == z3.UDiv(d, l)))[0]
            ctx.add('the proof of the unsealed file is checked against the root of the original at fresh challenges', 'proved' if ok else 'undecided', '' if ok else why)
            if not ok: ctx.hints.append(('whole', hint(None)))
        ctx.nopanic(e, hint=hint)
    def some_trees(self, ctx, l):
        r = ctx.rnd; l = max(l, 1)
        return [case_merkle(r.randbytes(l * k) if z else bytes(l * k), l) for k in (1, 2, 3, 5, 8) for z in (0, 1)] + [case_merkle_data([r.randbytes(r.choice([0, 1, 5])) for _ in range(k)]) for k in (1, 2, 3, 7)]
    def some_proofs(self, ctx):
        r = ctx.rnd
        for n in (1, 2, 3, 5, 8, 11):
            data = r.randbytes(4 * n)
            for ix in ([0], [n - 1], sorted(r.sample(range(n), (n + 1) // 2)), list(range(n))):
                yield case_proof(data, None, 4, ix, False)
                for pos in sorted({0, 4 * n - 1, r.randrange(4 * n)}):
                    d2 = bytearray(data); d2[pos] ^= 1 << r.randrange(8)
                    yield case_proof(data, bytes(d2), 4, ix, 0); yield case_proof(data, bytes(d2), 4, ix, 1); yield case_proof(data, bytes(d2), 4, ix, 2)
            yield case_proof(data, None, 4, [0, n], False); yield case_proof(data, None, 4, [n + 3], False)
    def some_whole(self, ctx):
        r = ctx.rnd
        for n in (1, 2, 5, 9):
            data = r.randbytes(6 * n)
            for c in sorted({1, n // 2 or 1, n}):
                yield case_whole(data, data, 6, c)
                for pos in (0, 6 * n - 1, r.randrange(6 * n)):
                    d2 = bytearray(data); d2[pos] ^= 4; yield case_whole(data, bytes(d2), 6, c)
    def scale(self, ctx):
        r = ctx.rnd
        for n, l in ((300, 3), (5000, 2), (70000, 1), (3, 5000), (3, 70000), (2, (1 << 20) + 5)): yield case_merkle(r.randbytes(n * l), l)
        for n in (300, 5000): yield case_merkle_data([r.randbytes(r.randrange(4)) for _ in range(n)])
        yield case_merkle_data([r.randbytes(5000), r.randbytes(70000)])
        for n, c in ((5000, 70), (5000, 300), (300, 300), (1100, 1100), (70000, 3)):
            data = r.randbytes(n); ix = sorted(r.sample(range(n), c))
            yield case_proof(data, None, 1, ix, False)
            for pos in (0, n - 1, n // 2, r.randrange(n)):
                d2 = bytearray(data); d2[pos] ^= 1; yield case_proof(data, bytes(d2), 1, ix, False)
            for pos in (ix[-1], ix[0]):
                d2 = bytearray(data); d2[pos] ^= 1; yield case_proof(data, bytes(d2), 1, ix, 2)
            yield case_whole(data, data, 1, c)
            d2 = bytearray(data); d2[-1] ^= 1; yield case_whole(data, bytes(d2), 1, c)
        yield case_proof(r.randbytes(70), None, 1, list(range(70)) + [70], False)
    def falsify(self, ctx):
        for l in (1, 3, 63, 64): yield from self.some_trees(ctx, l)
        yield from self.some_proofs(ctx); yield from self.some_whole(ctx)
def py_root(leaves):
    import hashlib
    x = list(leaves)
    while len(x) > 1: x = [hashlib.sha256(x[i] + x[i + 1]).digest() if i + 1 < len(x) else x[i] for i in range(0, len(x), 2)]
    return x[0]
def merkle_said(leaves):
    def check(outs):
        if not outs[-1].startswith('ok'): return outs[-1][:200]
        l, r = outs[-1][3:].split(' ')
        if unhxs(l) != leaves: return 'leaves differ from the hashes of the pieces: %s' % l[:200]
        if unhx(r) != py_root(leaves): return 'the root is not that of the leaves'
    return check
def case_merkle(data, l):
    import hashlib
    leaves = [hashlib.sha256(data[i:i + l]).digest() for i in range(0, len(data), l)]
    def go(ctx, outs):
        f = Files()
        try: return ctx.nat.ask('merkle %s %d %d' % (f.put('o', data), len(data), l), 60)
        finally: f.close()
    return Case([go], merkle_said(leaves), 'Merkle tree of a file', inputs=dict(data=data.hex()[:4000], bytes=len(data), leaf=l))
def case_merkle_data(v):
    import hashlib
    return Case(['merkle_data ' + hxs(v)], merkle_said([hashlib.sha256(x).digest() for x in v]), 'Merkle tree of data', inputs=dict(data=[x.hex()[:400] for x in v[:100]], number=len(v)))
def case_proof(data, other, l, ix, swap):
    """proof made from data; root taken from other (swap 0), root and leaves taken from other (1), leaves taken from other (2)"""
    n = len(data) // l; swap = int(swap)
    same = lambda i: other is None or data[i * l:(i + 1) * l] == other[i * l:(i + 1) * l]
    inr = all(i < n for i in ix)
    if swap == 2: want = inr and all(same(i) for i in ix)
    else: want = inr and (other is None or other == data)
    def go(ctx, outs):
        f = Files()
        try:
            a = f.put('a', data); b = f.put('b', data if other is None else other)
            return ctx.nat.ask('merkle_prove %s %s %d %d %s%s' % (a, b, len(data), l, ','.join(map(str, ix)), ' %d' % swap if swap else ''), 60)
        finally: f.close()
    def check(outs):
        ok = outs[-1].startswith('ok')
        if want and not ok: return 'a valid proof is rejected: ' + outs[-1][:200]
        if not want and ok:
            if not inr: return 'a proof for an index beyond the leaves is accepted'
            # root and leaves of the other file with a proof of this one: accepted rightly if the proof holds no changed piece
            if swap != 1: return 'a proof is accepted against another root' if swap == 0 else 'a proof is accepted for leaves that are not under the root'
    return Case([go], check, 'Merkle proof', inputs=dict(data=data.hex()[:4000], bytes=len(data), other=other.hex()[:4000] if other else None, changed=next((i for i in range(len(data)) if other and data[i] != other[i]), None), leaf=l, indices=ix[:300], swap=swap))
def case_whole(data, other, l, c):
    def go(ctx, outs):
        f = Files()
        try: return ctx.nat.ask('merkle_whole %s %s %d %d %d' % (f.put('o', data), f.put('u', other), len(data), l, c), 60)
        finally: f.close()
    def check(outs):
        if outs[-1].startswith('ok') != (data == other): return ('an unsealed file that differs from the original is accepted' if data != other else 'the original itself is rejected') + ': ' + outs[-1][:200]
    return Case([go], check, 'Merkle proof of the unsealed file', inputs=dict(data=data.hex()[:4000], unsealed=other.hex()[:4000], leaf=l, count=c))

# ------------------------------------------------------------------------------------------------ C24
PUBP, UNSP = StrV('lit', 'pub'), StrV('lit', 'unsealed'); PK, UK = ('file', 'lit', 'pub'), ('file', 'lit', 'unsealed')
@prop
class C24:
    crate = 'storage'; level = 'proof'; native_quick = 20
    contracts = [
        'save_data(path, k, iv): the file decodes to k and iv, whatever it held before; load_data(path) returns exactly the k and iv saved last; any k, any iv',
        'seal_and_unseal(params, ...): the sealed file is the padded origin sealed with these parameters and the prepared key and iv, the public data are this key and iv; with unsealing asked for, the unsealed file is the origin; the origin is unchanged; the calls by their contracts (C15, C16, C20), any parameters with unit_pl = unit_l + 1',
        'gen_posdata(l), any l: whole units per block and blocks per file, one byte of padding per unit, block sizes consistent, unit size 63 padded to 64 (the 512-bit key), at least one round',
        'create_random_file(path, n): exactly n bytes, whatever the file held before; any n',
    ]
    assumptions = ['bincode decodes what it encoded and ignores what follows it in the file; rug prints and parses decimal numbers faithfully', 'sealing and unsealing are inverse (C16, bounded there)', 'the paths name different files']
    def prove(self, ctx):
        ctx.parallel([('public data', lambda: self.saveload(ctx), None), ('pipeline, logging off', lambda: self.pipe(ctx, False), None), ('pipeline, logging on', lambda: self.pipe(ctx, True), None),
                      ('presets', lambda: self.presets(ctx), None), ('random file', lambda: self.randfile(ctx), None)])
    def saveload(self, ctx):
        n, j = z3.BitVecs('n j', 64); V = z3.Array('V', B64, B8); k = z3.Int('k'); W = z3.Array('W', B64, B8); m = z3.BitVec('m', 64); k0 = z3.Int('k0')
        iv = SSeq(n, lambda i: z3.Select(V, bv(i, 64))); iv0 = SSeq(m, lambda i: z3.Select(W, bv(i, 64)))
        hint = lambda mo: self.some_save(ctx)
        for twice in (False, True):
            def mk(e, st):
                st.pc += [z3.ULT(n, 1 << 40), z3.ULT(m, 1 << 40)]
                if not twice: st.heap[PK] = Opq('filec', z3.Array('old', B64, B8), z3.BitVec('oldlen', 64))
                return [PUBP, ref_to(e, st, ZV(k0 if twice else k)), ref_to(e, st, iv0 if twice else iv)]
            e, rs = ctx.run('vp_root_save_data', mk)
            R = ctx.mir.roots
            if twice:
                r2 = []
                for s, _ in rs: r2 += e.exec_fn(R['vp_root_save_data'], [PUBP, ref_to(e, s, ZV(k)), ref_to(e, s, iv)], s)
                rs = r2
            r2 = []
            for s, _ in rs: r2 += e.exec_fn(R['vp_root_load_data'], [PUBP], s)
            ctx.finish(e)
            nm = 'after an earlier save: ' if twice else ''
            if not r2: ctx.add(nm + 'returns', 'refuted', 'no normal return'); ctx.hints.append(('returns', hint(None)))
            for s, v in r2:
                ctx.oblige(e, s, zterm(v.f[0]) == k, nm + 'the key comes back', hint)
                ctx.oblige(e, s, bv(e.slen(v.f[1]), 64) == n, nm + 'length of the iv', hint)
                s2 = s.clone(); s2.pc.append(z3.ULT(j, n))
                ctx.oblige(e, s2, bv(e.seq_get(v.f[1], j), 8) == z3.Select(V, j), nm + 'the iv comes back', hint)
            ctx.nopanic(e, hint=hint)
    def pipe(self, ctx, log):
        fields = {f: z3.BitVec('par_' + f, 64) for f in ('data_l', 'unit_l', 'block_l', 'big_block_l', 'unit_pl', 'block_pl', 'big_block_pl', 'seal_rounds', 'vde_rounds', 'mode_l', 'cnt_l', 'mode_s', 'cnt_s', 'leaves_to_prove_count')}
        conf = Conf(1, 1, 1, 1, 1, 1, 1); conf.v = dict(fields, vde_mode=StrV('lit', 'sloth'))
        un = z3.Bool('should_unseal'); prep = []
        def F(st, p):
            p = models.fkey_of(p) if hasattr(models, 'fkey_of') else ('file', p.kind, p.d)
            return p
        def lp(e, st, x):
            v = models.L(e, st, x)
            if not isinstance(v, StrV): raise Unsupported('path')
            return F(st, v)
        eq = lambda e, s, a, b: (isinstance(a, int) and a == b) or e.valid(s, bv(a, 64) == bv(b, 64))[0]
        def pad_(e, st, a, fn):
            o, n = lp(e, st, a[0]), lp(e, st, a[1]); st.heap[n] = Opq('Fpad', st.heap[o], a[2], a[3]); return UNIT
        def prep_(e, st, a, fn):
            q = (ZV(z3.Int(e.fresh('pkey'))), Opq('iv', e.fresh('iv'))); prep.append((a[0], q)); return Agg(None, 0, q)
        def same(e, st, p, k, iv): return (models.L(e, st, p), models.L(e, st, k), models.L(e, st, iv))
        def eqp(e, s, x, y):
            if x is y: return True
            return type(x) is Agg and type(y) is Agg and all((isinstance(p, StrV) and isinstance(q, StrV) and (p.kind, p.d) == (q.kind, q.d)) or (not isinstance(p, StrV) and eq(e, s, p, q)) for p, q in zip(x.f, y.f))
        cost = lambda e: z3.Real(e.fresh('cost')) 
        def fl(e, n): return tuple(models.fresh_float(e) if hasattr(models, 'fresh_float') else Opq('float') for _ in range(n))
        def seal_(e, st, a, fn):
            n = lp(e, st, a[1]); st.heap[n] = Opq('Fseal', st.heap[n], *same(e, st, a[0], a[2], a[3])); return Agg(None, 0, (Opq('ids'),) + fl(e, 6))
        def unseal_(e, st, a, fn):
            n = lp(e, st, a[1]); f = st.heap[n]; p, k, iv = same(e, st, a[0], a[2], a[3])
            ok = type(f) is Opq and f.tag == 'Fseal' and eqp(e, st, f.d[1], p) and zterm(f.d[2]).eq(zterm(k)) and f.d[3] is iv
            st.heap[n] = f.d[0] if ok else Opq('Fjunk', e.fresh('unsealed')); return Agg(None, 0, fl(e, 6))
        def comp_(e, st, a, fn):
            o, n = lp(e, st, a[0]), lp(e, st, a[1]); f = st.heap[o]
            ok = type(f) is Opq and f.tag == 'Fpad' and eq(e, st, f.d[1], a[2]) and eq(e, st, f.d[2], a[3]) and e.valid(st, bv(a[4], 64) == bv(f.d[2], 64) + 1)[0]
            st.heap[n] = Opq('Fwhole', f.d[0], f.d[1]) if ok else Opq('Fjunk', e.fresh('compressed')); return UNIT
        def save_(e, st, a, fn):
            st.heap[lp(e, st, a[0])] = Opq('Fpub', models.L(e, st, a[1]), models.L(e, st, a[2])); return UNIT
        con = {}
        for nm, f in (('prover::copy_and_pad', pad_), ('postorage::prepare_params', prep_), ('prover::seal', seal_), ('prover::unseal', unseal_), ('prover::copy_and_compress', comp_), ('postorage::save_data', save_)): con.update(sc('proof_of_storage::' + nm, f))
        O = Opq('Forigin'); old = Opq('Fold')
        def mk(e, st):
            st.pc += [z3.ULT(x, 1 << 40) for x in fields.values()] + [fields['unit_pl'] == fields['unit_l'] + 1, fields['unit_l'] != 0, fields['block_l'] != 0]
            for k in (SK, UK, PK): st.heap[k] = old
            st.heap[OK_] = O
            lf = []
            for n in ('log', 'stat'):
                st.heap[('file', 'lit', n)] = Opq('filec', z3.Array(n, B64, B8), 0)
                lf.append(ref_to(e, st, Opq('file', ('file', 'lit', n), e.alloc(st, 0), frozenset(['read', 'write', 'append']))))
            return [ref_to(e, st, conf.agg(ctx)), ORIGIN, SEALED, UNSP, PUBP, lf[0], log, un, lf[1]]
        hint = lambda mo: self.some_pipe(ctx)
        e, rs = ctx.run('vp_root_seal_and_unseal', mk, contracts=con)
        ctx.assumed |= {'prepare_params (C15)', 'seal / unseal inverse (C16, C17)', 'copy_and_pad, copy_and_compress (C20)', 'save_data (this property)'}
        if not rs: ctx.add('returns', 'refuted', 'no normal return'); ctx.hints.append(('returns', hint(None)))
        def put(nm, ok, why):
            ctx.add(nm, 'proved' if ok else 'refuted', '' if ok else why)
            if not ok: ctx.hints.append((nm, hint(None)))
        for s, v in rs:
            H = s.heap
            put('the original is unchanged', H[OK_] is O, repr(H[OK_]))
            u = e.valid(s, un)[0]; nu = e.valid(s, z3.Not(un))[0]
            if not u and not nu: ctx.add('one of the two modes', 'undecided'); continue
            pub = H[PK]
            key = None
            if type(pub) is Opq and pub.tag == 'Fpub': key = pub.d
            put('the public data are saved', key is not None and any(q[0] is key[0] and q[1] is key[1] and eq(e, s, l, fields['unit_pl']) for l, q in prep), repr(pub)[:200])
            sealed = H[SK]
            if u: put('the unsealed file is the original', type(H[UK]) is Opq and H[UK].tag == 'Fwhole' and H[UK].d[0] is O and eq(e, s, H[UK].d[1], fields['data_l']), repr(H[UK])[:300])
            else:
                ok = type(sealed) is Opq and sealed.tag == 'Fseal' and key is not None and sealed.d[2] is key[0] and sealed.d[3] is key[1] and sealed.d[0].tag == 'Fpad' and sealed.d[0].d[0] is O and eq(e, s, sealed.d[0].d[1], fields['data_l']) and eq(e, s, sealed.d[0].d[2], fields['unit_l'])
                put('the sealed file is the padded original sealed with the public key and iv', ok, repr(sealed)[:300])
                put('no unsealed file is written', H[UK] is old, repr(H[UK])[:100])
        ctx.nopanic(e, hint=hint)
    def presets(self, ctx):
        l = z3.BitVec('l', 64)
        e, rs = ctx.run('vp_root_gen_posdata', lambda e, st: [l])
        names = None
        for s, v in rs:
            fs = [f[0] for f in ctx.mir.types[v.ty]['v'][0]['f']]; d = dict(zip(fs, v.f))
            g = lambda n: bv(d[n], 64)
            U = z3.UDiv(g('block_l'), g('unit_l'))
            hint = lambda mo: self.some_preset(ctx, mo)
            ctx.oblige(e, s, z3.And(g('unit_l') == 63, g('unit_pl') == 64), 'units of 63 bytes, padded to 64', hint)
            ctx.oblige(e, s, z3.And(z3.URem(g('block_l'), g('unit_l')) == 0, g('block_l') != 0, g('block_pl') == U * g('unit_pl')), 'whole units in a block, padded or not', hint)
            ctx.oblige(e, s, z3.And(z3.URem(g('data_l'), g('block_l')) == 0, g('data_l') != 0), 'whole blocks in a file', hint)
            ctx.oblige(e, s, z3.And(g('big_block_pl') == z3.UDiv(g('big_block_l'), g('unit_l')) * g('unit_pl'), z3.URem(g('big_block_l'), g('unit_l')) == 0), 'big blocks padded consistently', hint)
            ctx.oblige(e, s, z3.And(g('seal_rounds') != 0, g('vde_rounds') != 0), 'at least one round', hint)
            ctx.oblige(e, s, z3.ULE(g('leaves_to_prove_count'), z3.UDiv(g('data_l'), g('block_l'))), 'no more leaves challenged than there are', hint)
        if not rs: ctx.add('returns', 'refuted', 'no normal return')
        ctx.nopanic(e, hint=lambda mo: self.some_preset(ctx, mo))
    def randfile(self, ctx):
        n = z3.BitVec('n', 64)
        def tweak(e, st): e.loop_limit = 3
        def mk(e, st):
            st.pc.append(z3.ULT(n, 1 << 40)); st.heap[NK] = Opq('filec', z3.Array('old', B64, B8), z3.BitVec('oldlen', 64)); st.pc.append(z3.ULT(z3.BitVec('oldlen', 64), 1 << 40))
            return [NEWP, n]
        e, rs = ctx.run('vp_root_create_random_file', mk, tweak=tweak)
        hint = lambda mo: self.some_rand(ctx)
        if not rs: ctx.add('returns', 'refuted', 'no normal return')
        for s, v in rs:
            ctx.oblige(e, s, bv(s.heap[NK].d[1], 64) == n, 'exactly the requested number of bytes', hint)
        ctx.nopanic(e, hint=hint)
    def some_save(self, ctx):
        r = ctx.rnd
        out = []
        for k, iv in ((0, b''), (1, b'a'), (P512, r.randbytes(128)), (1 << 2047, bytes(128)), (255, b'\xff' * 300)):
            out.append(case_saveload([(k, iv)]))
            for k2, iv2 in ((0, b''), (7, b'xy'), (P512, r.randbytes(128)), (1 << 4000, r.randbytes(500))): out.append(case_saveload([(k, iv), (k2, iv2)]))
        return out
    def some_pipe(self, ctx):
        r = ctx.rnd; out = []
        for (B, U, S, ml, cl, ms, cs) in ((1, 1, 1, 1, 1, 1, 1), (2, 2, 1, 0, 0, 0, 2), (3, 2, 2, 1, 2, 1, 2), (4, 3, 1, 2, 2, 2, 3)):
            for un in (0, 1):
                for log in (0, 1): conf = Conf(B, U, S, ml, cl, ms, cs, ul=63, T=2); out.append(case_pipe(conf, conf_data(r, conf), un, log, r.choice([0, 3, 5000])))
        for pl in (127, 255): conf = Conf(2, 2, 1, 1, 1, 1, 1, ul=pl, T=1); out.append(case_pipe(conf, conf_data(r, conf), 1, 0, 3))
        return out
    def some_preset(self, ctx, mo=None): return [case_preset(l) for l in (1, 4, 16, 64, 0, 2, 3, 5, 15, 17, 32, 63, 100, 1 << 40)]
    def some_rand(self, ctx): return [case_rand(n, o) for n in (0, 1, 2, 63, 64, 100, 1000, 5000) for o in (None, 0, 10, 6000)]
    def scale(self, ctx):
        r = ctx.rnd
        for b, n in ((5000, 300), (70000, 70000), (64, 1 << 21)): yield case_saveload([(r.getrandbits(b), r.randbytes(n)), (5, b'x')]); yield case_saveload([(5, b'x'), (r.getrandbits(b), r.randbytes(n))])
        for n in (65535, 65536, 70000, 1100000): yield case_rand(n, None)
        for args in ((300, 1, 1, 0, 0, 0, 1), (2, 300, 1, 1, 1, 0, 3), (2, 2, 20, 0, 1, 1, 2)):
            conf = Conf(*args, ul=63, T=1); yield case_pipe(conf, conf_data(r, conf), 1, r.randrange(2), 3)
    def falsify(self, ctx):
        yield from self.some_preset(ctx); yield from self.some_rand(ctx); yield from self.some_save(ctx); yield from self.some_pipe(ctx)
        r = ctx.rnd
        for _ in range(40):
            yield case_saveload([(r.getrandbits(r.choice([1, 8, 64, 512, 2048])), r.randbytes(r.choice([0, 1, 3, 128, 200]))) for _ in range(r.randrange(1, 4))])
        for _ in range(20):
            conf = Conf(r.randrange(1, 5), r.randrange(1, 5), r.randrange(1, 3), r.randrange(4), r.randrange(0, 4), r.randrange(3), r.randrange(0, 6), ul=63, T=1); yield case_pipe(conf, conf_data(r, conf), 1, r.randrange(2), r.choice([0, 3, 5000]))
def case_saveload(seq):
    def go(ctx, outs):
        f = Files()
        try:
            o = ''
            for k, iv in seq: o = ctx.nat.ask('saveload %s %x %s' % (f.p('p'), k, iv.hex() or '-'), 60)
            if not o.startswith('ok '): return o[:200]
            k, iv = o[3:].split(' ')
            if int(k, 16) != seq[-1][0]: return 'key %s loaded' % k
            if (b'' if iv == '-' else bytes.fromhex(iv)) != seq[-1][1]: return 'iv %s loaded' % iv
            return 'ok'
        finally: f.close()
    return Case([go], lambda outs: None if outs[-1] == 'ok' else outs[-1], 'save and load public data', inputs=dict(saved=[('%x' % k, iv.hex()) for k, iv in seq]))
def case_pipe(conf, data, un, log, old):
    def go(ctx, outs):
        f = Files()
        try:
            f.put('o', data)
            if old: f.put('s', b'\xaa' * old); f.put('u', b'\xbb' * old); f.put('p', b'\0' * old)
            o = ctx.nat.ask('pipe %s %s %s %s %s %s %s %d %d' % (conf.text(), f.p('o'), f.p('s'), f.p('u'), f.p('p'), f.p('l'), f.p('t'), log, un), 200)
            if not o.startswith('ok '): return o[:200]
            if f.get('o') != data: return 'the original changes'
            k, iv = o[3:].split(' ')
            if un:
                if f.get('u') != data: return 'the unsealed file differs from the original'
                return 'ok'
            if os.path.exists(f.p('u')) and f.get('u') != b'\xbb' * old: return 'an unsealed file is written'
            o = ctx.nat.ask('unseal %s %s %s %s' % (conf.text(), f.p('s'), k, iv), 200)
            if not o.startswith('ok'): return 'unsealing with the public data: ' + o[:200]
            if f.get('s') != pad(data, conf.ul): return 'unsealing with the public data does not restore the padded original'
            return 'ok'
        finally: f.close()
    return Case([go], lambda outs: None if outs[-1] == 'ok' else outs[-1], 'seal and unseal through the pipeline, %r' % conf, inputs=dict(params=conf.text(), data=data.hex()[:4000], unseal=un, log=log, old=old), timeout=300)
def case_preset(l):
    def check(outs):
        if not outs[0].startswith('ok '): return outs[0][:200]
        d, ul, bl, bbl, pl, bpl, bbpl, S, T, ml, cl, ms, cs, lv = [int(x) for x in outs[0][3:].split(',')]
        if (ul, pl) != (63, 64): return 'unit sizes %d, %d' % (ul, pl)
        if not bl or bl % ul or bpl != bl // ul * pl: return 'block sizes %d, %d' % (bl, bpl)
        if not d or d % bl: return 'data length %d in blocks of %d' % (d, bl)
        if bbl % ul or bbpl != bbl // ul * pl: return 'big block sizes %d, %d' % (bbl, bbpl)
        if not S or not T: return 'rounds %d, %d' % (S, T)
        if lv > d // bl: return '%d leaves of %d' % (lv, d // bl)
    return Case(['preset %d' % l], check, 'preset parameters', inputs=dict(l=l))
def case_rand(n, old):
    def go(ctx, outs):
        f = Files()
        try:
            if old is not None: f.put('r', b'\xcc' * old)
            o = ctx.nat.ask('randfile %s %d' % (f.p('r'), n), 60)
            if not o.startswith('ok'): return o[:200]
            g = f.get('r')
            if len(g) != n: return '%d bytes instead of %d' % (len(g), n)
            if n >= 1000 and len(set(g)) < 100: return 'only %d different bytes among %d' % (len(set(g)), n)
            return 'ok'
        finally: f.close()
    return Case([go], lambda outs: None if outs[-1] == 'ok' else outs[-1], 'random file', inputs=dict(n=n, old=old))
