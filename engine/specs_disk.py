"""Contracts of the proof_of_space crate: the marked space on disk, the answers and the protocol messages."""
import z3, os, tempfile, shutil, time
from specs_space import *
import loops

ARR = z3.ArraySort(BV64, z3.BitVecSort(8))
DISK0 = z3.Array('disk0', BV64, z3.BitVecSort(8))
PATH = StrV('lit', 'space')
FKEY = ('file', 'lit', 'space')
def space_bytes(n): return ((n + 1) * (1 << n) + 7) // 8
def low_bits(n):
    """how many low bits of a slot number decide the slot's offset within a byte"""
    v = (n + 1) & -(n + 1)
    return min(n, max(0, 3 - (v.bit_length() - 1)))
def bits_bv(bits, w=64):
    """integer value of little-endian booleans"""
    e = [z3.If(b_z3(b), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for b in bits[::-1]]
    if len(bits) < w: e = [z3.BitVecVal(0, w - len(bits))] + e
    return z3.simplify(z3.Concat(*e)) if len(e) > 1 else e[0]
def put_space(e, st, n, arr=None):
    st.heap[FKEY] = Opq('filec', DISK0 if arr is None else arr, space_bytes(n))
def df_atom(x, m): return V('DF(%r;%r)' % (sorted(x.t.items()), sorted(m.t.items())))
def contracts_for(name, fn):
    d = name
    return {d: fn, 'proof_of_space::' + d: fn}

def slot_addr(n, bits):
    """offset within its byte, and address of byte d, of the slot whose number has these bits"""
    l = (sum((n + 1) << i for i, b in enumerate(bits) if b is True), {bool_key(b): (n + 1) << i for i, b in enumerate(bits) if not isinstance(b, bool)})
    assert all(c % 8 == 0 for c in l[1].values())
    d = (l[0] // 8, {b: c // 8 for b, c in l[1].items()})
    return l[0] % 8, lambda k: bv(lin_expr((d[0] + k, d[1]), 64), 64)

def find_rule(ctx, root, mk, tweak, contracts=None):
    """the first loop of a run that needs the loop rule"""
    try:
        e = Engine(ctx.mir); e.deadline = time.time() + 60
        if contracts: e.contracts.update(contracts)
        poly.reset(); val.reset_tables()
        st = State(); tweak(e, st)
        e.exec_fn(ctx.mir.roots[root], mk(e, st), st)
    except LoopLimit as ex: return {ex.key: {}}
    except Exception: pass
    return {}

class DiskGhost:
    """contents of the space after k calls of the delay function: F(0) = initial contents, F(k+1) = F(k) with slot y_k overwritten by (k, flag)"""
    name = 'space contents'
    def __init__(self, n, low, key, m):
        self.n = n; self.low = low; self.key = key; self.m = m
        self.F = z3.Function('F', BV64, ARR); self.cur = None; self.log = []
    def at(self, i, v):
        if not z3.is_array(v) or v.sort() != ARR: return False
        return v.eq(DISK0) if i == 0 else True
    def value(self, k):
        k = z3.simplify(k)
        return DISK0 if z3.is_bv_value(k) and k.as_long() == 0 else self.F(k)
    def prepare(self, eng, s, k):
        self.cur = k; self.log = []
    def y_bits(self, eng, k):
        y = df_atom(models.field_of_int(eng, k) + self.key, self.m)
        return models.bits_of_field(eng, y)[:self.n]
    def eq(self, eng, s, v, k1):
        n = self.n; k = z3.simplify(k1 - 1)
        yb = self.y_bits(eng, k)
        off, addr = slot_addr(n, yb)
        beta = addr(0)
        D = (off + n + 1 + 7) // 8
        old = self.value(k)
        ok = True
        for d in range(D):
            a = addr(d)
            bits = []
            for b in range(8):
                p = 8 * d + b - off
                if 0 <= p < n: bits.append(z3.Extract(p, p, k) == 1)
                elif p == n: bits.append(True)
                else: bits.append(z3.Extract(b, b, models.sel(old, a)) == 1)
            r = eng.valid(s, models.sel(v, a) == bits_bv(bits, 8))[0]
            self.log.append(('slot byte %d holds the preimage bits and the flag, other bits kept' % d, r)); ok = ok and r
        a = z3.BitVec('addr', 64)
        w = v
        while z3.is_store(w) and any(models.addr_cmp(addr(d), w.arg(1)) is True for d in range(D)): w = w.arg(0)
        r = w.eq(old) or eng.valid(s, z3.Or(z3.ULT(a - beta, D), z3.Select(v, a) == z3.Select(old, a)))[0]
        self.log.append(('every other byte unchanged', r)); ok = ok and r
        return bool(ok)

def ref_mark(n, key, m, cs, disk=None):
    """expected space contents"""
    f = bytearray(space_bytes(n)) if disk is None else bytearray(disk)
    for x in range(1 << n):
        y = ref.df((x + key) % R, m, cs, 5) & ((1 << n) - 1)
        o = (n + 1) * y
        for j in range(n + 1):
            b = 1 if j == n else (x >> j) & 1
            p = o + j
            if b: f[p >> 3] |= 1 << (p & 7)
            else: f[p >> 3] &= ~(1 << (p & 7)) & 255
    return bytes(f)

class Scratch:
    """scratch file for one native case"""
    def __init__(self): self.d = tempfile.mkdtemp(prefix='vp-space-'); self.p = os.path.join(self.d, 'space')
    def close(self): shutil.rmtree(self.d, ignore_errors=True)

def case_mark(n, key, m, cs, disk=None):
    """run mark_space on a space with the given contents and compare every byte of the file"""
    out = {}
    def go(ctx, outs):
        s = Scratch()
        try:
            d = bytes(space_bytes(n)) if disk is None else disk
            with open(s.p, 'wb') as f: f.write(d)
            o = ctx.nat.ask('mark_space %s %s %s %s %d' % (s.p, ref.hx(key), ref.hx(m), ref.hxs(cs), n), 200)
            with open(s.p, 'rb') as f: out['got'] = f.read()
            return o
        finally: s.close()
    def check(outs):
        if outs[-1] != 'ok done': return 'mark_space: ' + outs[-1][:200]
        want = ref_mark(n, key, m, cs, disk); got = out['got']
        if got == want: return None
        if len(got) != len(want): return 'space has %d bytes, expected %d' % (len(got), len(want))
        i = next(i for i in range(len(got)) if got[i] != want[i])
        return 'byte %d of the space is %02x, expected %02x (slot %d)' % (i, got[i], want[i], 8 * i // (n + 1))
    return Case([go], check, 'mark_space on a space of 2^%d slots' % n, inputs=dict(n=n, key=ref.hx(key), m=ref.hx(m), df_constants=ref.hxs(cs), disk=None if disk is None else disk.hex()[:2000]))

@prop
class C03:
    crate = 'space'; level = 'proof'
    contracts = [
        'mark_space(path, key, m, c, n): requires the file at path to have ceil((n+1)*2^n/8) bytes (any contents) and |c| = 10; ensures file = F(2^n) and the file length is unchanged, where F(0) is the initial contents and F(k+1) is F(k) with bits (n+1)*y_k .. (n+1)*y_k+n replaced by the n bits of k (least significant first) and the flag 1, y_k = mimc5_df(k+key, m, c) mod 2^n, every other bit kept',
        'lemma: after any k steps, slot s holds (last x < k with y_x = s, flag 1) or, when there is none, what it held initially; slots never overlap',
        'mimc5_df enters by its contract (C06), the bit conversions are executed (and proved separately in C01, C02)',
    ]
    assumptions = ['proved for each space parameter n listed in the bounds (the shipped parameter is N = 20) and for every key, m, constants, delay-function output and initial contents']
    def ns(self, ctx): return list(range(1, 25)) + [31, 39] if ctx.thorough else [20, 1, 2, 3, 5, 7, 8]
    def prove(self, ctx):
        tasks = []
        # the loop over the preimages, found on the largest space
        def mk(e, st):
            put_space(e, st, 20)
            return [PATH, V('key'), V('m'), ref_to(e, st, CSeq([V('c%d' % i) for i in range(10)])), 20]
        def tweak(e, st): e.concrete_limit = 300; e.bit_assign = [False] * 3
        self.keys = find_rule(ctx, 'vp_root_mark_space', mk, tweak, contracts_for('mimc::mimc_df::mimc5_df', lambda e, st, args, fn: df_atom(models.pw(e, st, args[0]), models.pw(e, st, args[1]))))
        for n in self.ns(ctx):
            for low in range(1 << low_bits(n)): tasks.append(('mark_space n=%d, slot offset case %d' % (n, low), lambda n=n, low=low: self.mark(ctx, n, low), 'n = %d' % n))
            tasks.append(('slot lemma n=%d' % n, lambda n=n: self.lemma(ctx, n), 'n = %d' % n))
        ctx.parallel(tasks)
    def mark(self, ctx, n, low):
        nb = low_bits(n)
        poly.reset(); val.reset_tables()
        key, m = V('key'), V('m'); cs = [V('c%d' % i) for i in range(10)]
        used = []
        def contract(e, st, args, fn):
            a, b = models.pw(e, st, args[0]), models.pw(e, st, args[1])
            c = e.load(st, args[2])
            if type(c) is not CSeq or list(c.items) != cs: raise Unsupported('delay function called with other constants')
            used.append(1)
            return df_atom(a, b)
        gh = DiskGhost(n, low, key, m)
        def assign(eng, p):
            # case split on the low bits of the delay-function output of the current iteration
            if not eng.probe:
                if gh.cur is None or p != df_atom(models.field_of_int(eng, gh.cur) + key, m): return []
            return [bool((low >> i) & 1) for i in range(nb)]
        def tweak(e, st):
            e.concrete_limit = 300; e.only_p1 = True; e.bit_assign = assign
        def mk(e, st):
            put_space(e, st, n)
            return [PATH, key, m, ref_to(e, st, CSeq(cs)), n]
        e, rs = ctx.run('vp_root_mark_space', mk, ghosts=lambda e: [gh], tweak=tweak, contracts=contracts_for('mimc::mimc_df::mimc5_df', contract), rule=self.keys)
        if used: ctx.assumed.add('mimc5_df (contract proved under C06)')
        ctx.nopanic(e)
        for nm, r in gh.log: ctx.add(nm, 'proved' if r else 'undecided')
        if not rs: ctx.add('returns', 'refuted', 'no normal return')
        for s, v in rs:
            f = s.heap[FKEY]
            ctx.oblige(e, s, bv(f.d[1], 64) == space_bytes(n), 'space keeps its size')
            ctx.oblige(e, s, f.d[0] == gh.F(z3.BitVecVal(1 << n, 64)), 'all 2^n preimages are marked, in order')
    def lemma(self, ctx, n):
        # slots are disjoint: overwriting slot y leaves every other slot as it was
        e = Engine(ctx.mir); st = State()
        s, y, j, i = z3.BitVecs('s y j i', 64)
        st.pc = [z3.ULT(s, 1 << n), z3.ULT(y, 1 << n), s != y, z3.ULE(j, n), z3.ULE(i, n)]
        ctx.oblige(e, st, (n + 1) * s + j != (n + 1) * y + i, 'slots are disjoint')
        st = State(); st.pc = [z3.ULT(s, 1 << n), z3.ULE(j, n)]
        ctx.oblige(e, st, z3.ULT(z3.LShR((n + 1) * s + j, 3), space_bytes(n)), 'every slot lies inside the space')
        # induction step for "slot s holds the last preimage mapped to it"
        k, last, cont = z3.BitVecs('k last cont', 64)      # last < k: last writer so far, or none (hit = false)
        hit = z3.Bool('hit'); flag = z3.Bool('flag'); yk = z3.BitVec('yk', 64); ini, inif = z3.BitVec('ini', 64), z3.Bool('inif')
        st = State(); st.pc = [z3.ULT(k, 1 << n), z3.If(hit, z3.And(cont == last, flag), z3.And(cont == ini, flag == inif))]
        c1 = z3.If(yk == s, k, cont); f1 = z3.Or(yk == s, flag); h1 = z3.Or(hit, yk == s); l1 = z3.If(yk == s, k, last)
        ctx.oblige(e, st, z3.If(h1, z3.And(c1 == l1, f1), z3.And(c1 == ini, f1 == inif)), 'a slot holds the last preimage mapped to it')
    def falsify(self, ctx):
        r = ctx.rnd
        for rep in range(3):
            for n in (3, 2, 5, 4, 1, 6, 7, 8, 9, 10):
                cs = [r.randrange(R) for _ in range(10)]
                yield case_mark(n, r.randrange(R), r.randrange(R), cs)
                yield case_mark(n, r.randrange(R), r.randrange(R), cs, bytes(r.randrange(256) for _ in range(space_bytes(n))))
        for n in range(1, 9): yield case_mark(n, R - (1 << n) // 2, 0, [0] * 10); yield case_mark(n, 0, 0, [0] * 10)
        for n in (11, 12, 13, 20): yield case_mark(n, r.randrange(R), r.randrange(R), [r.randrange(R) for _ in range(10)])

# ------------------------------------------------------------------------------------------------ reading symbolic sequences
def at(e, st, v, i):
    """element i (integer or 64-bit term) of a sequence, using what the path condition says about i"""
    ii = bv(i, 64)
    if type(v) is CSeq:
        w = z3.simplify(ii)
        return v.items[w.as_long()] if z3.is_bv_value(w) and w.as_long() < len(v.items) else e.seq_get(v, i)
    if type(v) is not SSeq: raise Unsupported('not a sequence: %r' % (v,))
    t = v.tag
    if t is not None and t[0] == 'cat':
        la = bv(e.slen(t[1]), 64)
        if e.valid(st, e.simp(z3.ULT(ii, la)))[0]: return at(e, st, t[1], i)
        if e.valid(st, e.simp(z3.UGE(ii, la)))[0]: return at(e, st, t[2], z3.simplify(ii - la))
    if t is not None and t[0] == 'loopseq':
        G, path = t[1], t[2]
        sh = G.shape[path[0]]
        for p in path[1:]: sh = sh[2][p]
        l0 = e.slen(sh[1]); m = sh[2]
        if e.valid(st, e.simp(z3.ULT(ii, bv(l0, 64))))[0]: return at(e, st, sh[1], i)
        if m == 1 and e.valid(st, e.simp(z3.UGE(ii, bv(l0, 64))))[0]: return G.items(z3.simplify(ii - bv(l0, 64)), path)[0]
    return v.get(z3.simplify(ii))
def int_of_field(e, p):
    """the machine integer a field element was converted from"""
    if type(p) is not Poly: return None
    if p.is_const(): return p.cval() if p.cval() < 1 << 64 else None
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1: return poly.A.meta.get(('int', m[0][0]))
    return None
def same_field(ctx, e, st, got, want, name):
    """want: Poly, or a 64-bit term standing for the field element it converts to"""
    if type(got) is not Poly: return ctx.add(name, 'undecided', 'not a field element: %r' % (got,))
    if isinstance(want, Poly): return ctx.poly_eq(got, want, name)
    g = int_of_field(e, got)
    if g is None:
        ok = got == models.field_of_int(e, want)
        return ctx.add(name, 'proved' if ok else 'undecided', 'got %s' % (got,))
    return ctx.oblige(e, st, bv(g, 64) == bv(want, 64), name)

# ------------------------------------------------------------------------------------------------ C05
class ZeroGhost:
    """file contents while it is being filled: zero at every address"""
    name = 'all bytes zero'
    def at(self, i, v):
        if not z3.is_array(v) or v.sort() != ARR: return False
        a = z3.BitVec('addr', 64)
        return z3.is_true(z3.simplify(z3.Select(v, a) == 0)) or self.ok(v)
    def ok(self, v, pc=()):
        s = z3.Solver(); s.set('timeout', 5000); s.add(*pc)
        a = z3.BitVec('addr', 64); s.add(z3.Select(v, a) != 0)
        return s.check() == z3.unsat
    def value(self, k): return models.ZARR()
    def eq(self, eng, s, v, k1): return self.ok(v, s.pc)

def case_prepare(n, old):
    out = {}
    def go(ctx, outs):
        s = Scratch()
        try:
            if old is not None:
                with open(s.p, 'wb') as f: f.write(old)
            o = ctx.nat.ask('prepare_space %s %d' % (s.p, n), 200)
            with open(s.p, 'rb') as f: out['got'] = f.read()
            return o
        finally: s.close()
    def check(outs):
        if outs[-1] != 'ok done': return 'prepare_space: ' + outs[-1][:200]
        if len(out['got']) != space_bytes(n): return 'the file has %d bytes, expected %d' % (len(out['got']), space_bytes(n))
        if any(out['got']): return 'byte %d of the file is not zero' % next(i for i, b in enumerate(out['got']) if b)
    return Case([go], check, 'prepare_space with n = %d, %s' % (n, 'no file' if old is None else 'a file of %d bytes' % len(old)), inputs=dict(n=n, old=None if old is None else old.hex()[:400]))

@prop
class C05:
    crate = 'space'; level = 'proof'
    contracts = ['prepare_space(path, n): requires (n+1)*2^n + 7 < 2^50; ensures the file at path has ceil((n+1)*2^n / 8) bytes, all zero, whatever it was before (contents and length arbitrary, or absent); no panic, no overflow']
    assumptions = ['n <= 44 (beyond that the file exceeds 2^50 bits)']
    def prove(self, ctx):
        a = z3.BitVec('a', 64)
        def unb():
            n = z3.BitVec('n', 64)
            def mk(e, st):
                st.pc.append(z3.ULE(n, 44))
                return [PATH, n]
            e, rs = ctx.run('vp_root_prepare_space', mk, ghosts=[ZeroGhost()], tweak=lambda e, st: setattr(e, 'only_p1', True))
            self.post(ctx, e, rs, n)
        def conc(n):
            def go():
                e, rs = ctx.run('vp_root_prepare_space', lambda e, st: [PATH, n], ghosts=[ZeroGhost()], tweak=lambda e, st: (setattr(e, 'concrete_limit', 40), setattr(e, 'only_p1', True)))
                self.post(ctx, e, rs, n)
            return go
        if not ctx.section('prepare_space', unb, budget=150):
            ctx.parallel([('prepare_space n=%d' % n, conc(n), 'n in 0..24') for n in range(25)])
    def post(self, ctx, e, rs, n):
        def hint(m):
            k = n if isinstance(n, int) else mval(m, n)
            return [case_prepare(k, b'\xff' * (space_bytes(k) + 3)), case_prepare(k, None)] if k < 16 else None
        ctx.nopanic(e, hint=hint)
        if not rs: ctx.add('returns', 'refuted', 'no normal return')
        a = z3.BitVec('a', 64)
        for s, v in rs:
            if type(v) is Agg and v.var != 0: ctx.add('succeeds', 'refuted', 'returns an error'); continue
            f = s.heap.get(FKEY)
            if f is None: ctx.add('writes the file at the given path', 'refuted', 'file not written'); continue
            ln = bv(f.d[1], 64)
            bits = z3.BitVecVal((n + 1) << n, 64) if isinstance(n, int) else (n + 1) * (z3.BitVecVal(1, 64) << n)
            ctx.oblige(e, s, z3.And(z3.UGE(8 * ln, bits), z3.ULT(8 * ln, bits + 8), z3.ULT(ln, 1 << 60)), 'smallest whole number of bytes with room for every slot', hint)
            s2 = s.clone(); s2.pc.append(z3.ULT(a, ln))
            ctx.oblige(e, s2, z3.Select(f.d[0], a) == 0, 'every byte is zero', hint)
    def falsify(self, ctx):
        r = ctx.rnd
        for n in list(range(0, 13)) + [16, 20]:
            sz = space_bytes(n)
            for old in (None, b'', b'\xff' * sz, b'\x01' * max(0, sz - 1), b'\x80' * (sz + 1), b'\x07' * (3 * sz + 11)): yield case_prepare(n, old)

# ------------------------------------------------------------------------------------------------ C12
def case_challenges(n, end, reps=1):
    def check(outs):
        seen = [set() for _ in range(n)]
        for o in outs:
            p = o.split(' ')
            if p[0] != 'ok': return o[:200]
            l = [] if p[1] == '-' else [int(x) for x in p[1].split(',')]
            if len(l) != n: return '%d challenges instead of %d' % (len(l), n)
            if any(x >> end for x in l): return 'challenge %d is out of range for %d bits' % (max(l), end)
            for i, x in enumerate(l): seen[i].add(x)
        if reps > 1:
            for i in range(n):
                if end <= 3 and len(outs) >= 1200 and len(seen[i]) != 1 << end: return 'position %d never takes %s' % (i, sorted(set(range(1 << end)) - seen[i]))
                if end >= 40 and len(seen[i]) != len(outs): return 'position %d repeats itself' % i
            if end >= 40:
                for i in range(n):
                    # each bit takes both values, at every position
                    o = 0; z = (1 << end) - 1
                    for x in seen[i]: o |= x; z &= x
                    if o != (1 << end) - 1 or z: return 'position %d: some bit never changes' % i
    return Case(['create_challenges %d %d' % (n, end)] * reps, check, 'create_challenges(%d, %d), %d calls' % (n, end, reps))
def stat_challenges(n, end):
    """frequencies of the values and of pairs of neighbouring bits over one long list, far outside what chance allows"""
    def check(outs):
        p = outs[-1].split(' ')
        if p[0] != 'ok': return outs[-1][:200]
        l = [] if p[1] == '-' else [int(x) for x in p[1].split(',')]
        if len(l) != n: return '%d challenges instead of %d' % (len(l), n)
        tol = 8 * (n / 4) ** 0.5
        for b in range(end):
            c = sum((x >> b) & 1 for x in l)
            if abs(c - n / 2) > tol: return 'bit %d is set in %d of %d challenges' % (b, c, n)
            for b2 in range(b):
                c = sum(((x >> b) ^ (x >> b2)) & 1 for x in l)
                if abs(c - n / 2) > tol: return 'bits %d and %d differ in %d of %d challenges' % (b, b2, c, n)
            c = sum(((x >> b) ^ (y >> b)) & 1 for x, y in zip(l, l[1:]))
            if abs(c - (n - 1) / 2) > tol: return 'bit %d of neighbouring challenges differs in %d of %d cases' % (b, c, n)
        if end >= 40 and len(set(l)) != n: return 'repeated challenges'
    return Case('create_challenges %d %d' % (n, end), check, 'distribution of create_challenges(%d, %d)' % (n, end))
@prop
class C12:
    crate = 'space'; level = 'proof'
    contracts = ['create_challenges(n, end): requires end <= 63; ensures |r| = n and each r[i] = sum over j < end of b(i,j)*2^j with b(i,j) pairwise distinct random bits of the generator: hence r[i] < 2^end, every value possible at every position, all bits independent and uniform']
    assumptions = ['the random generator yields independent uniform values in the requested range', 'proved for each width `end` in the bounds and for every number n of challenges']
    def prove(self, ctx):
        ends = range(0, 64) if ctx.thorough else [20, 1, 2, 3, 8, 32, 63, 0]
        ctx.parallel([('create_challenges, width %d' % w, lambda w=w: self.one(ctx, w), 'width in %s' % ('0..63' if ctx.thorough else list(ends))) for w in ends])
    def one(self, ctx, w):
        poly.reset(); val.reset_tables()
        n = z3.BitVec('n', 64)
        def mk(e, st):
            st.pc.append(z3.ULT(n, 1 << 48))
            return [n, w]
        e, rs = ctx.run('vp_root_create_challenges', mk, tweak=lambda e, st: (setattr(e, 'only_p1', True), setattr(e, 'loop_limit', 5)))
        def hint(m):
            k = mval(m, n)
            return case_challenges(k, w) if k <= 2000 else None
        ctx.nopanic(e, hint=hint)
        if not rs: ctx.add('returns', 'refuted', 'no normal return')
        i, j = z3.BitVecs('i j', 64)
        for s, v in rs:
            ctx.oblige(e, s, bv(e.slen(v), 64) == n, 'as many challenges as requested', hint)
            if type(v) is CSeq and not v.items: continue
            s2 = s.clone(); s2.pc += [z3.ULT(i, n), z3.ULT(j, n), i != j]
            if not e.feasible(s2, True): continue
            x, y = at(e, s2, v, i), at(e, s2, v, j)
            bx, by = self.bits(e, x), self.bits(e, y)
            if bx is None or by is None:
                ctx.add('each challenge is made of random bits', 'undecided', 'challenge %s' % (x,)); continue
            ctx.add('each challenge has exactly %d random bits' % w, 'proved' if len(bx) == w and len(by) == w else 'refuted', '%d random bits' % len(bx))
            ctx.add('the bits of different challenges are drawn independently', 'proved' if not set(bx) & set(by) and len(set(bx)) == len(bx) else 'refuted', 'shared random bits')
    def bits(self, e, x):
        """names of the random bits of x, when x = sum b_j 2^j"""
        if isinstance(x, int): return [] if x == 0 else None
        nm = x.decl().name() if z3.is_const(x) else None
        if nm in e.rand_range:
            lo, hi = e.rand_range[nm]
            if lo == 0 and hi & (hi - 1) == 0: return ['%s.%d' % (nm, k) for k in range(hi.bit_length() - 1)]
        l = lin_of(x)
        if l is None or l[0] != 0: return None
        out = [None] * len(l[1])
        for b, c in l[1].items():
            t = val.BOOL[b]
            if not z3.is_const(t) or not t.decl().name().startswith('rnd!'): return None
            if c & (c - 1) or c.bit_length() > len(out): return None
            out[c.bit_length() - 1] = t.decl().name()
        return out if None not in out else None
    def falsify(self, ctx):
        for w in (0, 1, 3, 8, 20, 63):
            for n in (0, 1, 2, 5, 100, 137): yield case_challenges(n, w)
        yield stat_challenges(20000, 20)
        yield stat_challenges(20000, 63)
        yield case_challenges(3, 3, 1500)
        yield case_challenges(5, 48, 200)
        yield case_challenges(300, 2, 50)
        yield stat_challenges(4000, 8)

# ------------------------------------------------------------------------------------------------ C11
def ints(name, count, below=None):
    """symbolic list of machine integers; below: every element is smaller than this term"""
    f = z3.Function(name, BV64, BV64)
    def get(i):
        i = z3.simplify(i)
        v = f(i)
        return v if below is None else z3.If(z3.ULT(v, below), v, z3.BitVecVal(0, 64))
    return SSeq(count, get), (lambda i: get(bv(i, 64)))
def elems(name, count):
    return SSeq(count, lambda i: V('%s[%s]' % (name, z3.simplify(i))))
def case_verify(proved, key, m, ch, idx, h, accept, swap=False):
    want = 'ok accepted' if accept else 'ok rejected'
    return Case('verify %s %s %s %s %s %s%s' % (ref.hxs(proved), ref.hx(key), ref.hx(m), ','.join(map(str, ch)) or '-', ','.join(map(str, idx)) or '-', ref.hx(h), ' swap' if swap else ''),
                lambda o: None if o[-1] == want else ('the verifier accepts a proof of another statement' if not accept else 'the verifier rejects a valid proof') + ' (%s)' % o[-1][:200],
                'verify on a %s proof' % ('valid' if accept else 'wrong'), inputs=dict(proved=[hex(x) for x in proved], key=hex(key), m=hex(m), challenges=ch, idx=idx, x_hash=hex(h)), timeout=100)
def case_response2(key, xs, m, dc, ch, idx, h, hc, expect):
    return Case('response_2 %s %s %s %s %s %s %s %s %s' % (ref.hx(key), ref.hxs(xs), ref.hx(m), ref.hxs(dc), ','.join(map(str, ch)), ','.join(map(str, idx)), ref.hx(h), ref.hxs(hc), ref.hxs(expect)),
                lambda o: None if o[-1] == 'ok true true' else 'the proof made by the prover does not verify for the agreed statement (%s)' % o[-1][:200],
                'response_2', inputs=dict(key=hex(key), x=[hex(x) for x in xs], m=hex(m), challenges=ch, idx=idx, x_hash=hex(h), public=[hex(x) for x in expect]), timeout=200)
GROTH = 'ark-groth16: verify_proof answers true exactly for valid proofs of the given public inputs; create_random_proof and generate_random_parameters use exactly the circuit they are given'
@prop
class C11:
    crate = 'space'; level = 'proof'
    contracts = [
        'verify(pvk, proof, key, m, ch, idx, h): returns normally only if verify_proof was called on exactly (pvk, proof, [key, m, ch[idx[0]], .., ch[idx[p-1]], h]) and answered Ok(true); with every idx[i] < |ch| it panics only when verify_proof answers Ok(false) or Err',
        'response_2(params, key, x, m, dc, ch, idx, h, hc): with every idx[i] < |ch|, no panic; the proof is create_random_proof of PospaceDemo{key, x, m, dc, yn[i] = ch[idx[i]], x_hash = h, hc} under params, and the returned verifying key is prepare_verifying_key(params.vk)',
        'construct_circuit(dc, hc): generate_random_parameters of PospaceDemo without values, with RESPONSE_COUNT preimages and indices and the given constants',
    ]
    assumptions = [GROTH]
    def prove(self, ctx):
        ctx.parallel([('verify: acceptance', lambda: self.accept(ctx), None), ('verify: rejection', lambda: self.reject(ctx), None),
                      ('response_2', lambda: self.resp2(ctx), None), ('construct_circuit', lambda: self.setup(ctx), None)])
        if any(o['status'] != 'proved' and o['name'].startswith('verify') for o in ctx.obls):
            ctx.parallel([('verify [bounded], %d responses' % p, lambda p=p: self.accept(ctx, p), 'at most 4 responses') for p in range(5)])
        if any(o['status'] != 'proved' and o['name'].startswith('response_2') for o in ctx.obls):
            ctx.parallel([('response_2 [bounded], %d responses' % p, lambda p=p: self.resp2(ctx, p), 'at most 4 responses') for p in range(5)])
    def inputs(self, st, inrange, p=None):
        n = z3.BitVec('n', 64); st.pc += [z3.ULT(n, 1 << 48)]
        if p is None: p = z3.BitVec('p', 64); st.pc.append(z3.ULT(p, 1 << 48))
        if inrange: st.pc.append(z3.UGT(n, 0))
        ch, chf = ints('challenge', n)
        idx, idf = ints('idx', p, n if inrange else None)
        if isinstance(p, int): idx = CSeq([idf(i) for i in range(p)])
        return n, p, ch, chf, idx, idf
    def run_verify(self, ctx, inrange, p=None):
        poly.reset(); val.reset_tables()
        box = {}
        pvk, proof, key, m, h = Opq('given_pvk'), Opq('given_proof'), V('key'), V('m'), V('h')
        def mk(e, st):
            n, p_, ch, chf, idx, idf = self.inputs(st, inrange, p)
            box.update(n=n, p=p_, chf=chf, idf=idf)
            return [pvk, proof, key, m, ref_to(e, st, ch), ref_to(e, st, idx), h]
        e, rs = ctx.run('vp_root_verify', mk, tweak=lambda e, st: (setattr(e, 'only_p1', True), setattr(e, 'loop_limit', 5)))
        return e, rs, box, (pvk, proof, key, m, h)
    def accept(self, ctx, p=None):
        e, rs, b, (pvk, proof, key, m, h) = self.run_verify(ctx, False, p)
        if not rs: ctx.add('a valid proof is accepted', 'refuted', 'the verifier never returns normally')
        for s, v in rs:
            calls = [c for c in s.heap.get(('ghost', 'calls'), ()) if c[0] == 'verify_proof']
            res = s.heap.get(('ghost', 'verify'), ())
            if not calls: ctx.add('accepts only after a pairing check', 'refuted', 'returns normally without a pairing check'); continue
            good = False; why = ''
            for (nm, args), (okc, acc) in zip(calls, res):
                if not e.valid(s, z3.And(okc, acc))[0]: why = 'the answer of the pairing check is not required to be true'; continue
                good = True
                ctx.add('accepts only when the pairing check answered true', 'proved')
                ctx.add('the given key and proof are checked', 'proved' if args[0] is pvk and args[1] is proof else 'refuted', '%r %r' % (args[0], args[1]))
                self.inputs_ok(ctx, e, s, args[2], b, key, m, h)
            if not good: ctx.add('accepts only when the pairing check answered true', 'refuted', why)
    def inputs_ok(self, ctx, e, s, seq, b, key, m, h):
        p = bv(b['p'], 64); i = z3.BitVec('i', 64)
        if not ctx.oblige(e, s, bv(e.slen(seq), 64) == p + 3, 'as many public inputs as the statement has'): return
        same_field(ctx, e, s, at(e, s, seq, 0), key, 'first public input is the key')
        same_field(ctx, e, s, at(e, s, seq, 1), m, 'second public input is m')
        same_field(ctx, e, s, at(e, s, seq, z3.simplify(p + 2)), h, 'last public input is the hash')
        if isinstance(b['p'], int):
            for k in range(b['p']): same_field(ctx, e, s, at(e, s, seq, k + 2), b['chf'](b['idf'](k)), 'public input %d is challenge idx[%d]' % (k + 2, k))
        else:
            s2 = s.clone(); s2.pc.append(z3.ULT(i, p))
            if e.feasible(s2, True): same_field(ctx, e, s2, at(e, s2, seq, z3.simplify(i + 2)), b['chf'](b['idf'](i)), 'public input i+2 is challenge idx[i]')
    def reject(self, ctx, p=None):
        e, rs, b, _ = self.run_verify(ctx, True, p)
        bad = 0
        for q in e.panics:
            s = State(); s.pc = list(q['pc'])
            res = q['state'].heap.get(('ghost', 'verify'), ())
            if res and e.valid(s, z3.Not(z3.And(res[-1][0], res[-1][1])))[0]: continue
            r, mdl = e.inc.check(s.pc, z3.BoolVal(True))
            if r == z3.unsat: continue
            bad += 1
            ctx.add('a statement is rejected only by the pairing check', 'undecided' if r != z3.sat or tainted(e, s, True) else 'refuted', '%s in %s' % (q['msg'], q['where']))
        if not bad: ctx.add('a statement is rejected only by the pairing check (%d checks)' % e.asserts, 'proved')
    def resp2(self, ctx, p=None):
        poly.reset(); val.reset_tables()
        key, m, h = V('key'), V('m'), V('h')
        dc = CSeq([V('d%d' % i) for i in range(10)]); hc = CSeq([V('k%d' % i) for i in range(10)])
        box = {}
        params = Agg(None, 0, tuple(Opq('proving_key_field', i) for i in range(8)))
        def mk(e, st):
            n, p_, ch, chf, idx, idf = self.inputs(st, True, p)
            xs = elems('x', p_)
            if p is not None: xs = CSeq([xs.get(z3.BitVecVal(i, 64)) for i in range(p)])
            box.update(n=n, p=p_, chf=chf, idf=idf, xs=xs)
            return [params, key, ref_to(e, st, xs), m, ref_to(e, st, dc), ref_to(e, st, ch), ref_to(e, st, idx), h, ref_to(e, st, hc)]
        e, rs = ctx.run('vp_root_response_2', mk, tweak=lambda e, st: (setattr(e, 'only_p1', True), setattr(e, 'loop_limit', 5)))
        ctx.nopanic(e)
        if not rs: ctx.add('returns a proof', 'refuted', 'no normal return')
        for s, v in rs:
            if type(v) is not Agg or len(v.f) != 2: raise Unsupported('result %r' % (v,))
            pvk, proof = v.f
            if type(pvk) is not Opq or pvk.tag != 'pvk' or type(proof) is not Opq or proof.tag != 'proof': raise Unsupported('result %r' % (v,))
            ctx.add('the verifying key belongs to the parameters', 'proved' if same(pvk.d[0], params.f[0]) else 'refuted', repr(pvk.d[0]))
            pc = [c for c in s.heap.get(('ghost', 'calls'), ()) if c[0] == 'create_random_proof']
            ctx.add('the proof is made with the given parameters', 'proved' if len(pc) == 1 and same(pc[0][1][1], params) else 'undecided', '')
            c = self.fields(ctx, e, proof.d[0])
            for nm, w in (('key', key), ('m', m), ('x_hash', h)): self.some(ctx, e, s, c[nm], w, 'the circuit gets the given ' + nm)
            for nm, w in (('df_constants', dc), ('hash_constants', hc)): ctx.add('the circuit gets the given ' + nm, 'proved' if same(c[nm], w) else 'refuted', '')
            i = z3.BitVec('i', 64)
            for nm, w in (('x', lambda i: box['xs'].get(i) if type(box['xs']) is SSeq else box['xs'].items[i.as_long()]), ('yn', lambda i: box['chf'](box['idf'](i)))):
                if not ctx.oblige(e, s, bv(e.slen(c[nm]), 64) == bv(box['p'], 64), '%s has one entry per response' % nm): continue
                if p is not None:
                    for k in range(p): self.some(ctx, e, s, at(e, s, c[nm], k), w(z3.BitVecVal(k, 64)), '%s[%d]' % (nm, k))
                else:
                    s2 = s.clone(); s2.pc.append(z3.ULT(i, bv(box['p'], 64)))
                    if e.feasible(s2, True): self.some(ctx, e, s2, at(e, s2, c[nm], i), w(i), {'x': 'preimage i is the given one', 'yn': 'index i is challenge idx[i]'}[nm])
    def some(self, ctx, e, s, v, want, name):
        if type(v) is Agg and v.var == 1: return same_field(ctx, e, s, v.f[0], want, name)
        ctx.add(name, 'refuted' if type(v) is Agg else 'undecided', 'not a value: %r' % (v,))
    def fields(self, ctx, e, c):
        if type(c) is not Agg or c.ty is None or not e.types[c.ty]['name'].endswith('PospaceDemo'): raise Unsupported('circuit %r' % (type(c),))
        return {n: v for (n, t), v in zip(e.types[c.ty]['v'][0]['f'], c.f)}
    def setup(self, ctx):
        poly.reset(); val.reset_tables()
        n, rc = nconst(ctx)
        dc = CSeq([V('d%d' % i) for i in range(10)]); hc = CSeq([V('k%d' % i) for i in range(10)])
        e, rs = ctx.run('vp_root_construct_circuit', lambda e, st: [ref_to(e, st, dc), ref_to(e, st, hc)])
        ctx.nopanic(e)
        if not rs: ctx.add('returns parameters', 'refuted', 'no normal return')
        for s, v in rs:
            if type(v) is not Opq or v.tag != 'params': raise Unsupported('result %r' % (v,))
            c = self.fields(ctx, e, v.d[0])
            for nm, w in (('df_constants', dc), ('hash_constants', hc)): ctx.add('the circuit gets the given ' + nm, 'proved' if same(c[nm], w) else 'refuted', '')
            for nm in ('x', 'yn'): ctx.oblige(e, s, bv(e.slen(c[nm]), 64) == rc, 'the circuit has RESPONSE_COUNT entries in ' + nm)
    def falsify(self, ctx):
        r = ctx.rnd
        for rep in range(2):
            for p in (1, 2, 0, 5, 3):
                n = 4 + p
                ch = [r.randrange(1 << 20) for _ in range(n)]; idx = sorted(r.sample(range(n), p))
                if rep: ch[r.randrange(n)] = 0
                key, m, h = r.randrange(R), ref.edge(r, rep), ref.edge(r, 1 + rep)
                st = [key, m] + [ch[i] for i in idx] + [h]
                yield case_verify(st, key, m, ch, idx, h, True)
                for j in range(len(st)):
                    bad = list(st); bad[j] = (bad[j] + 1) % R
                    yield case_verify(bad, key, m, ch, idx, h, False)
                yield case_verify(st, key, m, ch, idx, h, False, swap=True)
                yield case_verify(st + [1], key, m, ch, idx, h, False)
                if p > 1:
                    sw = list(st); sw[2], sw[3] = sw[3], sw[2]
                    if sw != st: yield case_verify(sw, key, m, ch, idx, h, False)
                if p: yield case_verify(st[:2] + st[3:], key, m, ch, idx, h, False)
                # positions outside the challenge list
                for j in (n, n + 1, 2 * n - 1): yield case_verify(st[:-1] + [ch[j % n], h], key, m, ch, idx + [j], h, False)
        for p in (1, 2, 3):
            for rep in range(2):
                dc = [r.randrange(R) for _ in range(10)]; hc = [r.randrange(R) for _ in range(10)]
                key, m = r.randrange(R), r.randrange(R)
                xs = [r.randrange(1 << 20) for _ in range(p)]
                if rep: xs[-1] = 0
                f, pub = pospace_fields(key, m, xs, dc, hc, 20)
                yn = f['yn']; ch = []; idx = []
                for i in range(p): ch += [r.randrange(1 << 20), yn[i]]; idx.append(2 * i + 1)
                yield case_response2(key, xs, m, dc, ch + [7], idx, f['x_hash'], hc, pub)

# ------------------------------------------------------------------------------------------------ C04
def ref_hash5(xs, key, hc): return ref.multi(xs, key, hc, 5)
def ref_response(n, disk, ch, rc):
    xs, idx = [], []
    for i, y in enumerate(ch):
        if len(xs) == rc: break
        o = (n + 1) * y
        b = [(disk[(o + j) >> 3] >> ((o + j) & 7)) & 1 for j in range(n + 1)]
        if b[n]: xs.append(sum(v << j for j, v in enumerate(b[:n]))); idx.append(i)
    return xs, idx
class Sparse:
    """file contents that are zero except for the listed bytes"""
    def __init__(self, size): self.size = size; self.b = {}
    def __len__(self): return self.size
    def __getitem__(self, i): return self.b.get(i, 0)
    def __setitem__(self, i, v): self.b[i] = v
    def hex(self): return ','.join('%d:%02x' % x for x in sorted(self.b.items()))
    def write(self, p):
        with open(p, 'wb') as f:
            f.truncate(self.size)
            for i, v in sorted(self.b.items()): f.seek(i); f.write(bytes([v]))
    def same(self, p):
        if os.path.getsize(p) != self.size: return False
        got = {}
        with open(p, 'rb') as f:
            o = 0
            while o < self.size:
                try: o = os.lseek(f.fileno(), o, os.SEEK_DATA)
                except OSError: break
                e = min(os.lseek(f.fileno(), o, os.SEEK_HOLE), o + (1 << 22))
                for i, x in enumerate(os.pread(f.fileno(), e - o, o)):
                    if x: got[o + i] = x
                o = e
        return got == {i: v for i, v in self.b.items() if v}
def case_response(n, disk, ch, key, hc, rc):
    out = {}
    def go(ctx, outs):
        s = Scratch()
        try:
            if type(disk) is Sparse: disk.write(s.p)
            else:
                with open(s.p, 'wb') as f: f.write(disk)
            o = ctx.nat.ask('response_1 %s %s %s %s %d' % (s.p, ','.join(map(str, ch)) or '-', ref.hx(key), ref.hxs(hc), n), 200)
            if type(disk) is Sparse: out['same'] = disk.same(s.p)
            else:
                with open(s.p, 'rb') as f: out['same'] = f.read() == disk
            return o
        finally: s.close()
    def check(outs):
        xs, idx = ref_response(n, disk, ch, rc)
        want = 'ok %s %s %s' % (','.join(map(ref.h64, xs)) or '-', ','.join(map(str, idx)) or '-', ref.h64(ref_hash5(xs, key, hc)))
        if outs[-1].split() != want.split(): return 'response_1 answers %s, expected %s' % (outs[-1][:300], want[:300])
        return None if out['same'] else 'the file was modified'
    return Case([go], check, 'response_1 on a space of 2^%d slots, %d challenges' % (n, len(ch)), inputs=dict(n=n, challenges=ch[:200], key=ref.hx(key), hash_constants=ref.hxs(hc), disk=disk.hex()[:2000]))

class Answers:
    """the answers after k challenges: cnt(k), the list of positions I(k) and of preimages X(k), each defined by recursion on k:
    when the flag of the slot of challenge k is set they grow by one entry, k and the stored preimage; otherwise they stay"""
    def __init__(self, n, low, rc, strict):
        self.n = n; self.low = low; self.rc = rc; self.strict = strict; self.cur = None
        self.cnt = z3.Function('cnt', BV64, BV64); self.B = z3.Function('challenge_bit', BV64, BV64, z3.BoolSort())
        self.Xf = z3.Function('answer', BV64, BV64); self.If = z3.Function('position', BV64, BV64)
        self.fail = []
        nb = low_bits(n)
        def get(i):
            i = z3.simplify(i)
            lo = self.fixed(i)
            bits = [lo[j] if lo is not None and j < nb else self.B(i, z3.BitVecVal(j, 64)) for j in range(n)]
            return bits
        self.bits = get
    eng = None
    def fixed(self, i):
        if (self.cur is not None and i.eq(self.cur)) or self.eng.probe: return [bool((self.low >> j) & 1) for j in range(low_bits(self.n))]
        return None
    def challenge(self, i):
        b = self.bits(i)
        l = (sum(1 << j for j, x in enumerate(b) if x is True), {bool_key(x): 1 << j for j, x in enumerate(b) if not isinstance(x, bool)})
        return lin_expr(l, 64)
    def slot(self, k):
        """the n+1 bits of the slot of challenge k in the file as it was given"""
        off, addr = slot_addr(self.n, self.bits(k))
        out = []
        for j in range(self.n + 1):
            d, b = divmod(off + j, 8)
            out.append(z3.Extract(b, b, models.sel(DISK0, addr(d))) == 1)
        return out
    def flag(self, k): return self.slot(k)[self.n]
    def preimage(self, k):
        p = ZERO
        for j, b in enumerate(self.slot(k)[:self.n]): p = p + field_of_bool(b).scale(1 << j)
        return p
    def cnt1(self, k): return self.cnt(k) + z3.If(self.flag(k), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
class CntGhost:
    name = 'number of answers'; kind = 'int'
    def __init__(self, a): self.a = a
    def at(self, i, v): return isinstance(v, int) and not isinstance(v, bool) and v == 0
    def value(self, k): return self.a.cnt(k)
    def prepare(self, eng, s, k):
        self.a.eng = eng
        s.pc.append(self.a.cnt(z3.BitVecVal(0, 64)) == 0)
        if z3.is_bv_value(z3.simplify(k)): return
        self.a.cur = k; self.a.fail = []
        s.pc.append(self.a.cnt(z3.simplify(k + 1)) == self.a.cnt1(k))
    def inv(self, k):
        return z3.ULT(self.a.cnt(k), self.a.rc) if self.a.strict else z3.ULE(self.a.cnt(k), self.a.rc)
    def eq(self, eng, s, v, k1):
        k = z3.simplify(k1 - 1)
        ok, m = eng.valid(s, bv(v, 64) == self.a.cnt1(k))
        if not ok: self.a.fail.append((self.name, m, k))
        return bool(ok)
class SeqGhost:
    def __init__(self, a, what): self.a = a; self.what = what; self.name = 'list of ' + what
    def is_item(self, v):
        return type(v) is Poly if self.what == 'preimages' else ((isinstance(v, int) and not isinstance(v, bool)) or z3.is_bv(v))
    def at(self, i, v):
        if type(v) is not CSeq or len(v.items) > i: return False
        return len(v.items) == 0 if i == 0 else len(v.items) == i and all(self.is_item(x) for x in v.items)
    def value(self, k):
        a = self.a
        if self.what == 'positions': get = lambda i: a.If(z3.simplify(i))
        else: get = lambda i: V('answer[%s]' % z3.simplify(i))
        return SSeq(a.cnt(k), get, ('ghostseq', self, z3.simplify(k)))
    def eq(self, eng, s, v, k1):
        k = z3.simplify(k1 - 1)
        return self.step(eng, s, v, k)
    def step(self, eng, s, v, k, record=True):
        """v is the list after challenge k, when the list before it was value(k)"""
        b, n = loops.tail_base(v)
        if not (type(b) is SSeq and b.tag is not None and b.tag[0] == 'ghostseq' and b.tag[1] is self and b.tag[2].eq(k)): return False
        f = self.a.flag(k)
        if n == 0: ok, m = eng.valid(s, z3.Not(f))
        elif n == 1:
            ok, m = eng.valid(s, f)
            if ok:
                x, = loops.tail(v)
                ok, m = self.item_ok(eng, s, x, k)
        else: ok, m = False, None
        if not ok and record: self.a.fail.append((self.name, m, k))
        return bool(ok)
    def item_ok(self, eng, s, x, k):
        if self.what == 'positions': return eng.valid(s, bv(x, 64) == k)
        if type(x) is not Poly: return False, None
        if x == self.a.preimage(k): return True, None
        bs = models.pow2_form(x)
        if bs is None: return None, None
        sl = self.a.slot(k)
        return eng.valid(s, z3.And(*[b_z3(bs[j]) == sl[j] for j in range(self.a.n)], *[z3.Not(b_z3(b)) for b in bs[self.a.n:256]]))

@prop
class C04:
    crate = 'space'; level = 'proof'; native_quick = 5
    contracts = [
        'response_1(path, ch, key, c, n): requires the file at path to have ceil((n+1)*2^n/8) bytes (any contents) and every ch[i] < 2^n; ensures, for K the first number of challenges with K = |ch| or cnt(K) = RESPONSE_COUNT, that the result is (X(K), I(K), multi_mimc5_hash(X(K), key, c)) and the file is unchanged, where I and X list, in order, the positions i < K whose slot (bits (n+1)*ch[i] .. (n+1)*ch[i]+n of the file) has its last bit set, and the integers in the first n bits of those slots, and cnt is their number',
        'multi_mimc5_hash enters by its contract (C07), the bit conversions are executed (and proved separately in C01, C02)',
    ]
    assumptions = ['proved for each space parameter n listed in the bounds (the shipped parameter is N = 20) and for every file content, key, constants and challenge list of any length']
    def ns(self, ctx): return list(range(1, 25)) + [31, 39] if ctx.thorough else [20, 1, 2, 3, 5, 7, 8, 31]
    def prove(self, ctx):
        self.rc = nconst(ctx)[1]
        # the loop over the challenges, found on a small space
        a = Answers(2, 0, self.rc, True)
        def mk(e, st):
            a.eng = e; st.pc.append(z3.ULT(z3.BitVec('p', 64), 1 << 48)); put_space(e, st, 2)
            return [PATH, ref_to(e, st, SSeq(z3.BitVec('p', 64), a.challenge)), V('key'), ref_to(e, st, CSeq([V('c%d' % i) for i in range(10)])), 2]
        def tweak(e, st): e.loop_limit = 2; e.concrete_limit = 300; e.probe = 1
        self.keys = find_rule(ctx, 'vp_root_response_1', mk, tweak)
        ctx.parallel([('response_1 n=%d, slot offset case %d' % (n, low), lambda n=n, low=low: self.resp(ctx, n, low), 'n = %d' % n) for n in self.ns(ctx) for low in range(1 << low_bits(n))])
    def resp(self, ctx, n, low):
        err = None
        for strict in (True, False):
            try: r = self.attempt(ctx, n, low, strict)
            except loops.LoopFail as ex: err = err or ex; continue
            for f in r: f()
            return
        raise err
    def attempt(self, ctx, n, low, strict):
        poly.reset(); val.reset_tables()
        key = V('key'); cs = CSeq([V('c%d' % i) for i in range(10)]); p = z3.BitVec('p', 64)
        a = Answers(n, low, self.rc, strict); gc, gi, gx = CntGhost(a), SeqGhost(a, 'positions'), SeqGhost(a, 'preimages')
        hashes = []
        def contract(e, st, args, fn):
            v, k, c = e.load(st, args[0]), models.pw(e, st, args[1]), e.load(st, args[2])
            while type(v) is Ref: v = e.load(st, v)
            if not e.probe: hashes.append((v, k, c))
            h = V('HASH%d' % len(hashes))
            return h
        def tweak(e, st):
            e.only_p1 = True; e.loop_limit = 5; e.concrete_limit = 300; a.eng = e
        def mk(e, st):
            a.eng = e; del hashes[:]
            st.pc.append(z3.ULT(p, 1 << 48)); put_space(e, st, n)
            return [PATH, ref_to(e, st, SSeq(p, a.challenge)), key, ref_to(e, st, cs), n]
        try: e, rs = ctx.run('vp_root_response_1', mk, ghosts=lambda e: [gc, gi, gx], tweak=tweak, contracts=contracts_for('mimc::mimc_hash::multi_mimc5_hash', contract), rule=self.keys)
        except loops.LoopFail:
            if a.fail: self.hint(ctx, a)
            raise
        if hashes: ctx.assumed.add('multi_mimc5_hash (contract proved under C07)')
        todo = [lambda: ctx.nopanic(e)]
        if not rs: todo.append(lambda: ctx.add('returns', 'refuted', 'no normal return'))
        for s, v in rs: todo.append(lambda s=s, v=v: self.result(ctx, e, s, v, a, gi, gx, hashes, key, cs, p))
        return todo
    def result(self, ctx, e, s, v, a, gi, gx, hashes, key, cs, p):
        if type(v) is not Agg or len(v.f) != 3: raise Unsupported('result %r' % (v,))
        xs, idx, h = v.f
        f = s.heap[FKEY]
        ctx.oblige(e, s, z3.And(f.d[0] == DISK0, bv(f.d[1], 64) == space_bytes(a.n)), 'the file is unchanged')
        hk = [t for i, t in enumerate(hashes) if type(h) is Poly and h == V('HASH%d' % (i + 1))]
        if not hk: ctx.add('the third component is the hash of the answers', 'undecided', '%r' % (h,)); return
        ctx.add('the hash is that of the returned preimages', 'proved' if same_seq(hk[0][0], xs) else 'undecided')
        ctx.add('the hash uses the given key', 'proved' if hk[0][1] == key else 'refuted', '%s' % (hk[0][1],))
        ctx.add('the hash uses the given constants', 'proved' if same_seq(hk[0][2], cs) else 'refuted')
        k = a.cur
        if type(xs) is CSeq and not xs.items and type(idx) is CSeq and not idx.items:
            # left before the first iteration, with nothing answered
            ctx.oblige(e, s, p == 0, 'stops only at the end or at RESPONSE_COUNT answers'); return
        K = None
        for nm, g, w in (('positions', gi, idx), ('preimages', gx, xs)):
            b, n = loops.tail_base(w)
            tagged = type(b) is SSeq and b.tag is not None and b.tag[0] == 'ghostseq' and b.tag[1] is g
            if not tagged: ctx.add('the %s are those of the answered challenges' % nm, 'undecided', repr(w)); return
            if n == 0:
                ctx.add('the %s are those of the answered challenges' % nm, 'proved'); j = (k, a.cnt(k))
            else:
                ctx.add('the %s are those of the answered challenges' % nm, 'proved' if g.step(e, s, w, k) else 'undecided'); j = (z3.simplify(k + 1), a.cnt1(k))
            if K is not None and not j[0].eq(K[0]): ctx.add('positions and preimages belong together', 'undecided'); return
            K = j
        # the lists after k or k+1 challenges: when challenge k is not answered both are the same
        end = z3.Or(K[0] == p, z3.And(z3.simplify(K[0] + 1) == p, z3.Not(a.flag(k))) if K[0].eq(k) else False, K[1] == self.rc)
        ctx.oblige(e, s, z3.ULE(K[1], self.rc), 'at most RESPONSE_COUNT answers')
        ctx.oblige(e, s, end, 'stops only at the end or at RESPONSE_COUNT answers')
    def hint(self, ctx, a):
        """a failing step becomes a concrete file and challenge list"""
        nm, m, k = a.fail[0]
        if m is None: return
        n = a.n
        y = 0
        for j, b in enumerate(a.bits(k)):
            t = b if isinstance(b, bool) else z3.is_true(m.eval(b, model_completion=True))
            if t: y |= 1 << j
        bits = [z3.is_true(m.eval(b, model_completion=True)) for b in a.slot(k)]
        cases = []
        kv = mval(m, k); far = [kv] if 0 < kv < 20000 else []
        for pre in (0, 1, self.rc - 1, 3, *[-q for q in far + [300]]):
            d = bytearray(space_bytes(n)) if n <= 20 else Sparse(space_bytes(n)); o = (n + 1) * y
            for j, b in enumerate(bits):
                if b: d[(o + j) >> 3] |= 1 << ((o + j) & 7)
            z = (y + 1) % (1 << n); o = (n + 1) * z
            if z != y and pre >= 0:
                for j in (0, n): d[(o + j) >> 3] |= 1 << ((o + j) & 7)
            cases.append(case_response(n, bytes(d) if n <= 20 else d, [z] * abs(pre) + [y] + [z, y], 5, list(range(1, 11)), self.rc))
        ctx.hints.append((nm, cases))
    def scale(self, ctx):
        """large spaces (sparse files) and long challenge lists"""
        r = ctx.rnd; rc = nconst(ctx)[1]
        for n in (20, 31, 33, 12):
            N = 1 << n; d = Sparse(space_bytes(n)); ys = [r.randrange(N) for _ in range(6)] + [N - 1, N - 2, 0, N // 2]; off = [r.randrange(N) for _ in range(4)]
            for y in ys + off:
                x = r.randrange(N) | (0 if y in off and y not in ys else N)
                for j in range(n + 1):
                    p = (n + 1) * y + j
                    if (x >> j) & 1: d[p >> 3] |= 1 << (p & 7)
                    else: d[p >> 3] &= ~(1 << (p & 7)) & 255
            ch = [r.choice(ys + off) for _ in range(20)]
            yield case_response(n, d, ch, r.randrange(R), [r.randrange(R) for _ in range(10)], rc)
            un = [y for y in off if y not in ys]
            yield case_response(n, d, [r.choice(un) for _ in range(300)] + [ys[0]] + [r.choice(un) for _ in range(700)] + ys * (rc // 5 + 2), r.randrange(R), [r.randrange(R) for _ in range(10)], rc)
    def falsify(self, ctx):
        r = ctx.rnd
        rc = nconst(ctx)[1]
        for rep in range(4):
            for n in (3, 5, 2, 7, 4, 1, 6, 8, 9, 12):
                N = 1 << n; sz = space_bytes(n)
                hc = [r.randrange(R) for _ in range(10)]; key = ref.edge(r, rep)
                for kind in range(6):
                    if kind == 0: d = bytes(r.randrange(256) for _ in range(sz))
                    elif kind == 1: d = bytes([255]) * sz
                    elif kind == 2: d = bytes(sz)
                    elif kind == 3: d = ref_mark(n, r.randrange(R), r.randrange(R), [r.randrange(R) for _ in range(10)])
                    else:
                        b = bytearray(sz)
                        for y in range(N):
                            if kind == 4 or r.random() < .5:
                                p = (n + 1) * y + n; b[p >> 3] |= 1 << (p & 7)
                        d = bytes(b)
                    for ln in (0, 1, 3, N, rc - 1, rc, rc + 1, 2 * rc + 7):
                        ch = [r.randrange(N) for _ in range(ln)]
                        if ln > 3: ch[1] = N - 1; ch[2] = 0; ch[3] = N - 1
                        yield case_response(n, d, ch, key, hc, rc)
        n = 20; d = bytes(r.randrange(256) for _ in range(space_bytes(n)))
        for ln in (100, 200): yield case_response(n, d, [r.randrange(1 << n) for _ in range(ln)] + [(1 << n) - 1], r.randrange(R), [r.randrange(R) for _ in range(10)], rc)
def same_seq(x, y):
    if x is y or same(x, y): return True
    if type(x) is SSeq and type(y) is SSeq and x.tag is not None and y.tag is not None:
        if x.tag[0] == y.tag[0] == 'cat': return same_seq(x.tag[1], y.tag[1]) and same_seq(x.tag[2], y.tag[2])
        if x.tag[0] == y.tag[0] == 'ghostseq': return x.tag[1] is y.tag[1] and x.tag[2].eq(y.tag[2])
    return False
