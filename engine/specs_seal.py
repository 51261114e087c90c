"""Sealing and unsealing for any number of blocks, units and rounds: the loops of both functions against recursive definitions.

A unit is one letter of an unspecified alphabet (units are only moved, appended, hashed, added to and encoded), a block is an
array of letters, a file an array of blocks.  Definitions, by recursion over block b, round r and unit u:
  FS(0) = the file given, FS(b+1) = FS(b) with block b replaced by R(b, S)        (FS(b): b blocks are sealed)
  R(b, 0) = FS(b)[b],  R(b, r+1) = Q(b, r, U)                                     (block b after r rounds)
  Q(b, r, 0) = R(b, r), Q(b, r, u+1) = Q(b, r, u) with unit u replaced by VDE(ADD(Q(b, r, u)[u], HD(b, r, u)))
where HD(b, r, u) is the hash of D(b, r, u), the dependency data of the contract of seal."""
import time
import z3
from val import *
import val, models, loops
from loops import LoopFail
BV64 = z3.BitVecSort(64)
LET = z3.DeclareSort('Letter'); BLK = z3.ArraySort(BV64, LET); FIL = z3.ArraySort(BV64, BLK)
def F(n, *s): return z3.Function(n, *s)
FS = F('FS', BV64, FIL); RR = F('R', BV64, BV64, BLK); QQ = F('Q', BV64, BV64, BV64, BLK); HD = F('HD', BV64, BV64, BV64, LET)
ADD = F('ADD', LET, LET, LET); SUB = F('SUB', LET, LET, LET); VDE = F('VDE', LET, LET); VDI = F('VDI', LET, LET); HB = F('HB', BLK, LET)
ADDR = F('ADDR', BV64, BV64)
LTn = F('LTn', BV64, BV64); LTe = F('LTe', BV64, BV64, BV64); STn = F('STn', BV64, BV64); STe = F('STe', BV64, BV64, BV64)
LRn = F('LRn', LET, BV64, BV64, BV64); LRe = F('LRe', LET, BV64, BV64, BV64, BV64); SRn = F('SRn', LET, BV64, BV64, BV64); SRe = F('SRe', LET, BV64, BV64, BV64, BV64)
B, U, S, T = z3.BitVecs('B U S T', 64); DL, UL, BL, PL = z3.BitVecs('data_l unit_l block_l block_pl', 64); CL, CS_ = z3.BitVecs('cnt_l cnt_s', 64); ML, MSH = z3.BitVecs('mode_l mode_s', 64)
IVL = z3.Const('IV', LET); NOID = z3.Const('NOID', LET); NOPREV = z3.Const('NOPREV', LET)
ZERO64 = z3.BitVecVal(0, 64); BIG = 1 << 40
def n_(x): return z3.simplify(bv(x, 64))
def is_f(t, f): return z3.is_app(t) and t.decl().eq(f)
def letter(v):
    if type(v) is CSeq and len(v.items) == 1 and z3.is_expr(v.items[0]) and v.items[0].sort() == LET: return v.items[0]
    raise Unsupported('not a unit: %r' % (v,))
def unit(t): return CSeq([t])
def units(A): return SSeq(U, lambda i: unit(z3.Select(A, bv(i, 64))), ('arr', A, 'units'))
def buffer_(A): return SSeq(U, lambda i: z3.Select(A, bv(i, 64)), ('arr', A, 'buffer'))
def arr_of(v, kind='units'):
    if type(v) is not SSeq or v.tag is None: return None
    if v.tag[0] == 'arr': return v.tag[1] if v.tag[2] == kind else None
    if v.tag[0] == 'set' and kind == 'units':
        a = arr_of(v.tag[1])
        return None if a is None else z3.Store(a, v.tag[2], letter(v.tag[3]))
    return None
# dependency lists, legal by construction (C19)
def below(t, i): return z3.If(z3.ULT(t, i), t, ZERO64)
def other(t, u): return z3.If(z3.And(z3.ULT(t, U), t != u), t, z3.If(u == 0, z3.BitVecVal(1, 64), ZERO64))
def lcap(n): return z3.If(z3.ULT(n, BIG), n, ZERO64)
def lt(i): return z3.If(i == 0, ZERO64, lcap(LTn(i))), lambda j: below(LTe(i, j), i)
def stt(u): return z3.If(z3.ULE(U, 1), ZERO64, lcap(STn(u))), lambda j: other(STe(u, j), u)
def lr(d, i, c): return z3.If(i == 0, ZERO64, lcap(LRn(d, i, c))), lambda j: below(LRe(d, i, c, j), i)
def sr(d, u, c): return z3.If(z3.ULE(U, 1), ZERO64, lcap(SRn(d, u, c))), lambda j: other(SRe(d, u, c, j), u)
def aslist(p): return SSeq(n_(p[0]), lambda j: p[1](n_(j)))

class Seal:
    """one run: kind 'seal' or 'unseal', dependency modes chosen by constants"""
    def __init__(self, kind, rl, cz, rs):
        self.kind, self.rl, self.cz, self.rs = kind, rl, cz, rs      # random long?, cnt_l = 0?, random short?
        self.hashes = {}; self.fails = []
        self.fwd = kind == 'seal'
    def params(self, ctx):
        v = dict(data_l=DL, unit_l=UL, block_l=BL, big_block_l=BL, unit_pl=1, block_pl=PL, big_block_pl=PL, seal_rounds=S, vde_rounds=T, vde_mode=StrV('lit', 'sloth'),
                 mode_l=0 if self.rl else ML, cnt_l=0 if self.cz else CL, mode_s=0 if self.rs else MSH, cnt_s=CS_, leaves_to_prove_count=1)
        ty = [i for i, t in (enumerate(ctx.mir.types) if isinstance(ctx.mir.types, list) else ctx.mir.types.items()) if t['k'] == 'adt' and t['name'].endswith('::PosPara')]
        if len(ty) != 1: raise Unsupported('parameter record')
        fs = [f[0] for f in ctx.mir.types[ty[0]]['v'][0]['f']]
        if set(fs) != set(v): raise Unsupported('fields of the parameter record')
        return Agg(ty[0], 0, tuple(v[f] for f in fs))
    def pre(self): return [z3.ULT(B, BIG), z3.ULT(U, BIG), z3.ULT(S, BIG), UL != 0, BL != 0, ML != 0, MSH != 0] + ([CL != 0] if self.rl else [])
    def hook(self, op, x, y, checked):
        o = op.replace('WithOverflow', '').replace('Unchecked', '')
        if o == 'Div':
            if x.eq(DL) and y.eq(BL): return B
            if x.eq(BL) and y.eq(UL): return U
        if o == 'Mul' and (y.eq(PL) or x.eq(PL)):
            i = n_(x if y.eq(PL) else y); r = ADDR(i)
            return Agg(None, 0, (r, z3.UGE(i, B))) if checked else r
        return None
    # ------------------------------------------------------------ contracts
    def L(self, e, st, v): return models.L(e, st, v)
    def file(self, e, st, r):
        h = models.handle(e, st, r); c = st.heap[h.d[0]]
        if c.d[0].sort() != FIL: raise Unsupported('file')
        return h, c
    def blockno(self, off):
        off = n_(off)
        if not is_f(off, ADDR): raise Unsupported('offset %s' % off)
        return off.arg(0)
    def whole(self, n):
        if not n_(n).eq(PL): raise Unsupported('length %s' % n)
    def read_file(self, e, st, a, fn):
        h, c = self.file(e, st, a[0]); self.whole(a[2])
        return buffer_(z3.Select(c.d[0], self.blockno(a[1])))
    def write_all(self, e, st, a, fn):
        h, c = self.file(e, st, a[0]); A = arr_of(self.L(e, st, a[1]), 'buffer')
        if A is None or 'write' not in h.d[2]: raise Unsupported('write')
        st.heap[h.d[0]] = Opq('filec', z3.Store(c.d[0], self.blockno(st.heap[h.d[1]]), A), c.d[1])
        st.heap[h.d[1]] = e.fresh_bv('pos')
        return models.OK(UNIT)
    def to_units(self, e, st, a, fn):
        A = arr_of(self.L(e, st, a[0]), 'buffer')
        if A is None or a[1] != 1: raise Unsupported('to_units')
        return units(A)
    def com_units(self, e, st, a, fn):
        A = arr_of(self.L(e, st, a[0]))
        if A is None: raise Unsupported('com_units')
        return buffer_(A)
    def blake3(self, e, st, a, fn):
        v = self.L(e, st, a[0]); A = arr_of(v, 'buffer')
        if A is not None: return unit(HB(A))
        if type(v) not in (CSeq, SSeq): raise Unsupported('hash')
        h = z3.Const(e.fresh('hash'), LET); self.hashes[h.get_id()] = (h, v)
        return unit(h)
    def key(self, e, st, k):
        import specs_storage as SS
        if not SS.zterm(self.L(e, st, k)).eq(SS.KEY): raise Unsupported('another modulus')
    def bin(self, f):
        def g(e, st, a, fn):
            self.key(e, st, a[2]); return unit(f(letter(self.L(e, st, a[0])), letter(self.L(e, st, a[1]))))
        return g
    def enc(self, f):
        def g(e, st, a, fn):
            self.key(e, st, a[1]); m = self.L(e, st, a[3])
            if not n_(a[2]).eq(T) or not isinstance(m, StrV) or m.d != 'sloth' or a[4] != 1: raise Unsupported('delay parameters')
            return unit(f(letter(self.L(e, st, a[0]))))
        return g
    def same(self, x, want, what):
        if not n_(x).eq(n_(want)): raise Unsupported('%s: %s' % (what, x))
    def cl(self, e, st, a, fn):
        self.same(a[0], B, 'blocks'); self.same(a[1], 0 if self.cz else CL, 'count'); self.same(a[2], ML, 'mode')
        return SSeq(B, lambda i: aslist(lt(n_(i))))
    def csh(self, e, st, a, fn):
        self.same(a[0], U, 'units'); self.same(a[1], CS_, 'count'); self.same(a[2], MSH, 'mode')
        return SSeq(U, lambda i: aslist(stt(n_(i))))
    def rlong(self, e, st, a, fn):
        self.same(a[0], B, 'blocks'); d = self.L(e, st, a[1])
        return aslist(lr(letter(d), n_(a[2]), n_(a[3])))
    def rshort(self, e, st, a, fn):
        self.same(a[0], U, 'units'); d = self.L(e, st, a[1])
        d = NOPREV if type(d) is CSeq and not d.items else letter(d)
        return aslist(sr(d, n_(a[2]), n_(a[3])))
    def contracts(self):
        import specs_storage as SS
        d = {}; c = 'proof_of_storage::common::'; p = 'proof_of_storage::depend::'; q = 'proof_of_storage::prover::'
        for n, f in ((c + 'read_file', self.read_file), (c + 'to_units', self.to_units), (c + 'com_units', self.com_units), (c + 'blake3_hash', self.blake3), (c + 'modadd', self.bin(ADD)), (c + 'modsub', self.bin(SUB)),
                     ('vde::rug_vde::vde', self.enc(VDE)), ('vde::rug_vde::vde_inv', self.enc(VDI)), (q + 'create_long_depend', self.cl), (q + 'create_short_depend', self.csh),
                     (p + 'short_depend_random', self.rshort), (p + 'long_mode_random', self.rlong)): d.update(SS.sc(n, f))
        d['std::io::Write::write_all'] = self.write_all
        return d
    # ------------------------------------------------------------ definitions
    def deps(self, b, r, u):
        """D(b, r, u): length and elements"""
        q = QQ(b, r, u); prev = HB(RR(b - 1, S))
        if self.rl:
            cnt = z3.UDiv(b, z3.BitVecVal(10, 64)) + 1 if self.cz else CL
            L_ = lr(prev, b, n_(cnt))
        else: L_ = lt(b)
        Sh = sr(z3.If(u == 0, NOPREV, z3.Select(q, u - 1)), u, CS_) if self.rs else stt(u)
        nl, ns = L_[0], Sh[0]
        n = nl + ns + z3.If(u == 0, z3.BitVecVal(1, 64), ZERO64)
        def get(i): return z3.If(z3.ULT(i, nl), z3.Select(z3.Select(FS(b), L_[1](i)), u), z3.If(z3.ULT(i, nl + ns), z3.Select(q, Sh[1](i - nl)), z3.If(b == 0, IVL, prev)))
        return n, get
    def facts(self, b, r, u):
        one = z3.BitVecVal(1, 64); q = QQ(b, r, u); x = z3.Select(q, u); h = HD(b, r, u)
        return [FS(b + 1) == z3.Store(FS(b), b, RR(b, S)), z3.Implies(b != 0, FS(b) == z3.Store(FS(b - 1), b - 1, RR(b - 1, S))), RR(b, ZERO64) == z3.Select(FS(b), b),
                RR(b, r + 1) == QQ(b, r, U), QQ(b, r, ZERO64) == RR(b, r), QQ(b, r, u + 1) == z3.Store(q, u, VDE(ADD(x, h))),
                VDI(VDE(ADD(x, h))) == ADD(x, h), SUB(ADD(x, h), h) == x]
    def holds(self, e, s, c, extra, what):
        s2 = s.clone(); s2.pc = list(s.pc) + list(extra)
        c = z3.simplify(c) if isinstance(c, z3.ExprRef) else c
        ok = True if z3.is_true(c) else e.valid(s2, c)[0]
        if not ok: self.fails.append(what)
        return bool(ok)
    def hashed(self, e, s, t, b, r, u, extra):
        """t, the hash of some data in the code, is HD(b, r, u)"""
        if t.get_id() not in self.hashes: self.fails.append('hash'); return False
        v = self.hashes[t.get_id()][1]
        n, get = self.deps(b, r, u)
        if not self.holds(e, s, bv(e.slen(v), 64) == n, extra, 'length of the dependency data'): return False
        i = z3.BitVec(e.fresh('at'), 64)
        s2 = s.clone(); s2.pc = list(s.pc) + list(extra) + [z3.ULT(i, n)]
        w = e.to_sseq(v)
        ok = e.valid(s2, w.get(i) == get(i))[0]
        if not ok: self.fails.append('dependency data')
        return bool(ok)
class FileGhost:
    name = 'file'
    def __init__(self, g): self.g = g
    def at(self, i, v):
        if not z3.is_expr(v) or v.sort() != FIL: return False
        return v.eq(FS(ZERO64 if self.g.fwd else B)) if i == 0 else True
    def value(self, k): return FS(n_(k)) if self.g.fwd else FS(n_(B - k))
    def eq(self, eng, s, v, k1):
        if eng.initems: raise Unsupported('nested')
        if eng.probe: return True
        b = n_(k1 - 1) if self.g.fwd else n_(B - k1)
        want = FS(n_(b + 1)) if self.g.fwd else FS(b)
        return self.g.holds(eng, s, v == want, self.g.facts(b, ZERO64, ZERO64), 'file after a block')
class IdGhost:
    name = 'block ids'
    def __init__(self, g): self.g = g
    def at(self, i, v):
        if type(v) is not SSeq or v.tag is None: return False
        if i == 0: return v.tag[0] == 'rep' and type(v.tag[1]) is CSeq and not v.tag[1].items and v.len is B or (v.tag[0] == 'rep' and n_(v.len).eq(B) and type(v.tag[1]) is CSeq and not v.tag[1].items)
        return v.tag[0] == 'set'
    def value(self, k):
        k = n_(k)
        return SSeq(B, lambda i: unit(z3.If(z3.ULT(i, k), HB(RR(n_(i), S)), NOID)), ('ids', self, k))
    def eq(self, eng, s, v, k1):
        if eng.initems: raise Unsupported('nested')
        if eng.probe: return True
        k = n_(k1 - 1)
        if not (type(v) is SSeq and v.tag and v.tag[0] == 'set' and type(v.tag[1]) is SSeq and v.tag[1].tag and v.tag[1].tag[0] == 'ids' and v.tag[1].tag[2].eq(k)): return False
        return self.g.holds(eng, s, z3.And(v.tag[2] == k, letter(v.tag[3]) == HB(RR(k, S))), self.g.facts(k, ZERO64, ZERO64), 'id of a block')
class RoundGhost:
    name = 'rounds'
    def __init__(self, g): self.g = g
    def at(self, i, v):
        A = arr_of(v)
        if A is None: return False
        if i == 0:
            if not (z3.is_select(A) and A.arg(0).sort() == FIL): return False
            self.A0 = A; self.b = n_(A.arg(1)); return True
        return is_f(A, QQ)
    def start(self, eng, st):
        """the block as read is the one the definition starts from"""
        f = self.A0.arg(0)
        if self.g.fwd: return self.g.holds(eng, st, self.A0 == RR(self.b, ZERO64), self.g.facts(self.b, ZERO64, ZERO64), 'block read')
        return self.g.holds(eng, st, self.A0 == RR(self.b, S), self.g.facts(self.b, ZERO64, ZERO64), 'block read')
    def prepare(self, eng, s, k): pass
    def value(self, k): return units(RR(self.b, n_(k) if self.g.fwd else n_(S - k)))
    def eq(self, eng, s, v, k1):
        if eng.initems: raise Unsupported('nested')
        if eng.probe: return True
        if not self.start(eng, s): return False
        A = arr_of(v)
        r = n_(k1 - 1) if self.g.fwd else n_(S - k1)
        want = RR(self.b, n_(r + 1)) if self.g.fwd else RR(self.b, r)
        return A is not None and self.g.holds(eng, s, A == want, self.g.facts(self.b, r, ZERO64), 'block after a round')
class UnitGhost:
    name = 'units'
    def __init__(self, g): self.g = g
    def at(self, i, v):
        A = arr_of(v)
        if A is None: return False
        if i == 0:
            if z3.is_select(A) and A.arg(0).sort() == FIL: self.b = n_(A.arg(1)); self.r = ZERO64 if self.g.fwd else S
            elif is_f(A, RR): self.b, self.r = A.arg(0), A.arg(1)
            elif is_f(A, QQ): self.b = A.arg(0); self.r = n_(A.arg(1) + 1) if self.g.fwd else A.arg(1)
            else: return False
            self.A0 = A; return True
        return z3.is_store(A)
    def value(self, k): return units(QQ(self.b, self.r, n_(k)) if self.g.fwd else QQ(self.b, n_(self.r - 1), n_(U - k)))
    def eq(self, eng, s, v, k1):
        g = self.g
        if eng.initems: raise Unsupported('nested')
        if eng.probe: return True
        if not is_f(self.A0, RR): g.fails.append('block at the start of a round: %s' % self.A0); return False
        A = arr_of(v)
        if A is None or not z3.is_store(A): g.fails.append('block is not updated at one place: %s' % (v.tag if type(v) is SSeq else type(v),)); return False
        b = self.b; r = self.r if g.fwd else n_(self.r - 1); u = n_(k1 - 1) if g.fwd else n_(U - k1)
        fs = g.facts(b, r, u)
        eqs = []
        for conds, x in cases(A.arg(2)):
            s2 = s.clone(); s2.pc = list(s.pc) + conds
            if g.fwd: h = x.arg(0).arg(1) if is_f(x, VDE) and is_f(x.arg(0), ADD) else None
            else: h = x.arg(1) if is_f(x, SUB) else None
            if h is None: g.fails.append('shape of the step'); return False
            if not g.hashed(eng, s2, h, b, r, u, fs): return False
            eqs.append(z3.Implies(z3.And(*conds), h == HD(b, r, u)) if conds else h == HD(b, r, u))
        want = QQ(b, r, n_(u + 1)) if g.fwd else QQ(b, r, u)
        return g.holds(eng, s, A == want, fs + eqs, 'step')
def cases(t):
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        c = t.arg(0)
        return [([c] + p, x) for p, x in cases(t.arg(1))] + [([z3.Not(c)] + p, x) for p, x in cases(t.arg(2))]
    return [([], t)]
def ghosts(g): return [FileGhost(g), IdGhost(g), UnitGhost(g), RoundGhost(g)]
class Every(dict):
    """the loop rule on every loop"""
    def __contains__(self, k): return True
    def get(self, k, d=None): return {}
def run(ctx, kind, rl, cz, rs):
    import specs_storage as SS
    g = Seal(kind, rl, cz, rs)
    def tweak(e, st): e.rule = Every(); e.only_p1 = True; e.loop_limit = 4; e.ihook = g.hook; e.zhooks = [lambda *a: None]
    def mk(e, st):
        st.pc += g.pre(); st.heap[SS.SK] = Opq('filec', FS(ZERO64 if g.fwd else B), z3.BitVec('filelen', 64))
        return [SS.ref_to(e, st, g.params(ctx)), SS.SEALED, SS.ref_to(e, st, SS.ZV(SS.KEY)), SS.ref_to(e, st, unit(IVL))]
    gs = ghosts(g)
    try: e, rs_ = ctx.run('vp_root_' + kind, mk, ghosts=gs, contracts=g.contracts(), tweak=tweak)
    except LoopFail as x: raise Unsupported('%s%s' % (x, (' (%s)' % ', '.join(dict.fromkeys(g.fails))) if g.fails else ''))
    return g, e, rs_
MODES = [(rl, cz, rs) for rl in (False, True) for cz in ((False, True) if rl else (False,)) for rs in (False, True)]
def mode_name(m): return '%s long dependencies%s, %s short dependencies' % ('random' if m[0] else 'fixed', ' (default number)' if m[1] else '', 'random' if m[2] else 'fixed')
def tasks(ctx, kind):
    """any number of blocks, units and rounds below 2^40, one task per kind of dependencies"""
    return [('%s, any size, %s' % (kind, mode_name(m)), lambda m=m: prove(ctx, kind, *m), None) for m in MODES[::-1]]
ASSUMED = {'read_file / seek and write_all: a whole block at block number * block_pl is read, or replaced (bodies run in the bounded part and in C20)', 'to_units / com_units split a block into its units and join them (C20)', 'modadd / modsub inverse pair (C16)', 'vde / vde_inv inverse pair (C15)',
           'dependency lists: deterministic and legal (C19)', 'blake3 is a function of the data hashed', 'units are treated as letters of one unit length: they are only moved, joined, hashed, added to and encoded'}
def prove(ctx, kind, rl, cz, rs):
    import specs_storage as SS
    end = time.time() + (900 if ctx.thorough else 200); old = ctx.deadline
    ctx.deadline = min(old, end) if old else end
    ctx.assumed |= ASSUMED
    try: prove1(ctx, kind, rl, cz, rs)
    finally: ctx.deadline = old
def prove1(ctx, kind, rl, cz, rs):
    import specs_storage as SS
    g, e, res = run(ctx, kind, rl, cz, rs)
    out = lambda n, ok: ctx.add(n, 'proved' if ok else 'undecided', '' if ok else ', '.join(dict.fromkeys(g.fails)))
    out('returns', bool(res))
    for p in e.panics:
        s = State_(p['pc'])
        out('no panic: %s in %s' % (p['msg'], p['where']), e.valid(s, False)[0])
    for s, v in res:
        f = s.heap[SS.SK].d[0]
        out('the whole file is sealed' if g.fwd else 'the whole file is restored', g.holds(e, s, f == FS(B if g.fwd else ZERO64), [], 'final file'))
        if g.fwd:
            ids = v.f[0]; i = z3.BitVec(e.fresh('id'), 64)
            s2 = s.clone(); s2.pc = list(s.pc) + [z3.ULT(i, B)]
            out('ids', bv(e.slen(ids), 64).eq(B) and g.holds(e, s2, letter(ids.get(i)) == HB(RR(i, S)), [], 'ids returned'))
def State_(pc):
    from exec import State
    s = State(); s.pc = list(pc); return s
