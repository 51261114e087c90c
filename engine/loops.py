"""The loop rule: inductive invariants for loops whose iteration count is not a small constant.

The shape of the loop state after k (super-)iterations, G(k), is proposed from a few concrete iterations
(affine counters, sequences that grow by m elements, values equal to a recurrence named in the contract, everything else
havocked), then *proved*: G(0) is the entry state, and the body run from G(k), for an arbitrary k, is shown to
arrive in G(k+1).  A proposal that fails is weakened (havoc) and tried again.  Execution continues from the loop exits
reached from G(k)."""
import z3
from val import *
from poly import Poly, TooBig
import val

class LoopFail(Unsupported): pass
KMAX = 1 << 50

def apply(eng, fr, h, st, stop, within):
    bodyset = fr.cfg.back[h]
    live = fr.cfg.live[h] | fr.cfg.addr
    def body(s):
        cont, fin = [], []
        for kind, bb, s2 in eng.exec_from(fr, h, s, h, bodyset, True):
            if kind == 'stop': cont.append(s2)
            else: fin.append(((kind, bb), s2))
        if len(cont) > 1: cont = eng.merge_states(cont, fr, h)
        return cont, fin
    def relevant(c):
        if c[0] == fr.fid: return c[1] in live
        return True
    def lty(c): return fr.locals[c[1]] if c[0] == fr.fid else None
    def clean(s):
        for c in list(s.heap):
            if c[0] == fr.fid and c[1] not in live: del s.heap[c]
        for c in list(s.cnt):
            if isinstance(c, tuple) and (c[0] == fr.fid or (len(c) > 1 and c[1] == fr.fid)): del s.cnt[c]
    exits = rule(eng, st, body, relevant, lty, clean, (fr.iid, h))
    groups = {}
    for t, s in exits: groups.setdefault(t, []).append(s)
    out = []
    for (kind, bb), ss in groups.items():
        if len(ss) > 1: ss = eng.merge_states(ss, fr, bb)
        for s in ss:
            if kind == 'ret': out.append(('ret', None, s))
            else: out += eng.exec_from(fr, bb, s, stop, within, False)
    return out

def apply_py(eng, st, body, key):
    def b(s):
        cont, fin = body(s)
        if len(cont) > 1: cont = eng.merge_states(cont, None, None)
        return cont, [(stp, s2) for s2, stp in fin]
    ex = rule(eng, st, b, lambda c: True, lambda c: None, lambda s: None, key)
    return [(s, t) for t, s in ex]

def one(cont, what):
    if len(cont) != 1: raise LoopFail('loop body has %d continuations (%s)' % (len(cont), what))
    return cont[0]

def iterate(body, s, P):
    """P iterations: -> (continuing state or None, exits)"""
    fin = []
    cur = [s]
    for _ in range(P):
        nx = []
        for c in cur:
            a, f = body(c)
            nx += a; fin += f
        cur = nx
        if not cur: break
    return cur, fin

def rule(eng, st, body, relevant, lty, clean, key):
    st = st.clone()
    clean(st)
    opts = eng.rule.get(key) or {}
    eng.probe += 1
    try:
        # concrete iterations
        traj = [st]
        nmax = 2 if eng.only_p1 else 17
        for i in range(nmax):
            c, f = body(traj[-1].clone())
            if not c:
                break
            if len(c) > 1 and not eng.only_p1: raise LoopFail('loop body does not merge')
            s = c[0]
            if len(c) > 1:
                # several ways through the body: the proposal follows the one that changes most
                chg = lambda x: sum(1 for q, v in x.heap.items() if relevant(q) and q in traj[-1].heap and not (v is traj[-1].heap[q] or same(v, traj[-1].heap[q])))
                s = max(c, key=chg)
            clean(s)
            traj.append(s)
        if len(traj) < 3: 
            # too few iterations possible: no rule needed
            eng.probe -= 1
            try: return unroll(eng, st, body)
            finally: eng.probe += 1
    finally:
        eng.probe -= 1
    best = None
    for P in ((1,) if eng.only_p1 else (1, 8, 2, 4)):
        if len(traj) <= 2 * P: continue
        sub_ = traj[::P]
        try:
            shape = classify(eng, sub_, relevant, lty)
        except LoopFail as e:
            best = best or e; continue
        nh = sum(1 for x in shape.values() for y in leaves(x) if y[0] == 'havoc')
        if best is None or isinstance(best, Exception) or nh < best[0]: best = (nh, P, shape)
        if nh == 0: break
    if best is None: raise LoopFail('no loop invariant found')
    if isinstance(best, Exception): raise best
    nh, P, shape = best
    for attempt in range(12):
        r = attempt_rule(eng, st, body, relevant, lty, clean, P, shape, key)
        if r is not None: return r
    raise LoopFail('loop invariant not inductive')

def unroll(eng, st, body):
    out = []; work = [st.clone()]; n = 0
    while work:
        nx = []
        for s in work:
            c, f = body(s); nx += c; out += f
        work = nx; n += 1
        if n > 40: raise LoopFail('unroll')
    return out

def leaves(sh):
    if sh[0] == 'agg': 
        for x in sh[2]: yield from leaves(x)
    else: yield sh

# ------------------------------------------------------------------ proposing G
def classify(eng, traj, relevant, lty):
    shape = {}
    cells = [c for c in traj[0].heap if relevant(c)]
    for c in cells:
        vs = [t.heap.get(c, UNINIT) for t in traj]
        if all(v is vs[0] or same(v, vs[0]) for v in vs[1:]): continue
        shape[c] = cls(eng, vs, lty(c), c)
    # locals defined only inside the loop but live at the header would be uninitialised at entry
    return shape

def cls(eng, vs, ty, what):
    v0 = vs[0]
    if all(v is v0 or same(v, v0) for v in vs[1:]): return ['const', v0]
    g = match_ghost(eng, vs)
    if g is not None: return ['ghost', g]
    if all(type(v) is Agg and v.var == v0.var and len(v.f) == len(v0.f) for v in vs) and type(v0) is Agg:
        t = v0.ty if v0.ty is not None else (ty if not isinstance(ty, tuple) else None)
        return ['agg', v0, [cls(eng, [v.f[i] for v in vs], val._elt(t, 'f', i, v0.var), what) for i in range(len(v0.f))]]
    if all(type(v) is Opq and v.tag == v0.tag and len(v.d) == len(v0.d) for v in vs) and type(v0) is Opq:
        if v0.tag == 'float': return ['const', v0]
        if v0.tag in ('hasher', 'hash'): return ['havoc', 'dead', None]      # overwritten before its next use, or the run stops there
        return ['agg', v0, [cls(eng, [v.d[i] for v in vs], ('bits', 64), what) for i in range(len(v0.d))]]
    if all(isinstance(v, bool) or z3.is_bool(v) for v in vs): return ['havoc', 'bool', None]
    if all((isinstance(v, int) and not isinstance(v, bool)) or z3.is_bv(v) for v in vs):
        bits = None
        for v in vs:
            if z3.is_bv(v): bits = v.size()
        if bits is None:
            if isinstance(ty, tuple): bits = ty[1]
            elif ty is not None and eng.types[ty]['k'] == 'int': bits = eng.types[ty]['bits']
            else: bits = 64
        ds = set()
        for a, b in zip(vs, vs[1:]):
            d = z3.simplify(bv(b, bits) - bv(a, bits))
            if not z3.is_bv_value(d): return shifted(eng, vs, bits) or ['havoc', bits, None]
            ds.add(d.as_long())
        if len(ds) == 1: return ['affine', v0, ds.pop(), bits]
        return shifted(eng, vs, bits) or ['havoc', bits, None]
    if all(type(v) in (CSeq, SSeq) for v in vs):
        ls = [eng.slen(v) for v in vs]
        ds = set()
        for a, b in zip(ls, ls[1:]):
            d = z3.simplify(bv(b, 64) - bv(a, 64))
            if not z3.is_bv_value(d): ds.add(None)
            else: ds.add(d.as_long())
        if len(ds) == 1 and None not in ds:
            m = ds.pop()
            if m == 0:
                if all(type(v) is CSeq for v in vs) and len(v0.items) <= 300:
                    et = val._elt(ty, 'e')
                    return ['seqagg', v0, [cls(eng, [v.items[i] for v in vs], et, what) for i in range(len(v0.items))]]
                return rewritten(eng, vs)
            if 0 < m < 4096: return ['append', v0, m]
        return ['bad', 'sequence']
    if all(type(v) is Poly for v in vs): return ['havoc', 'poly', None]
    if all(z3.is_array(v) for v in vs): return ['havoc', 'array', v0.sort()]
    if all(z3.is_expr(v) and z3.is_int(v) for v in vs): return ['havoc', 'array', v0.sort(), v0]
    if all(type(v) in (Agg, VAgg) for v in vs): return ['bad', 'variant']
    return ['bad', repr(type(v0))]

def rewritten(eng, vs):
    """one element rewritten per iteration, at consecutive positions"""
    i0 = None
    for n, (a, b) in enumerate(zip(vs, vs[1:])):
        if type(b) is not SSeq or b.tag is None or b.tag[0] != 'set' or b.tag[1] is not a: return ['bad', 'rewritten sequence']
        if i0 is None: i0 = b.tag[2]
        if not z3.is_true(z3.simplify(b.tag[2] == i0 + n)): return ['bad', 'rewritten sequence']
    return ['update', vs[0], i0] if i0 is not None else ['bad', 'rewritten sequence']
def shifted(eng, vs, bits):
    """value halved (doubled) a fixed number of times per iteration"""
    for c in (1, 8, 2, 4):
        for op in ('shr', 'shl'):
            t = True
            for i, v in enumerate(vs[1:4], 1):
                w = z3.LShR(bv(vs[0], bits), i * c) if op == 'shr' else bv(vs[0], bits) << (i * c)
                q = z3.simplify(bv(v, bits) == w)
                if z3.is_true(q): continue
                if z3.is_false(q): t = False; break
                so = z3.Solver(); so.set('timeout', 500); so.add(z3.Not(q))
                if so.check() != z3.unsat: t = False; break
            if t: return [op, vs[0], c, bits]
    return None

def match_ghost(eng, vs):
    for g in eng.ghosts:
        if getattr(g, 'kind', None) == 'int': continue
        try:
            if all(g.at(i, v) for i, v in enumerate(vs[:3])): return g
        except Unsupported: continue
    return None

class Gen:
    """G(k) for one loop"""
    def __init__(self, eng, st, shape, P, body, clean, key):
        self.eng = eng; self.st = st; self.shape = shape; self.P = P; self.body = body; self.clean = clean; self.key = key
        self.cache = {}
        self.depth = 0
    def value(self, sh, k, inv, path):
        eng = self.eng; t = sh[0]
        if t == 'const': return sh[1]
        if t == 'ghost': return sh[1].value(k)
        if t == 'agg':
            fs = tuple(self.value(x, k, inv, path + (i,)) for i, x in enumerate(sh[2]))
            v = Agg(sh[1].ty, sh[1].var, fs) if type(sh[1]) is Agg else Opq(sh[1].tag, *fs)
            # a counting range stays within its end
            if type(v) is Agg and len(fs) == 2 and sh[2][0][0] == 'affine' and sh[2][1][0] == 'const' and sh[1].ty is not None \
               and eng.types[sh[1].ty]['k'] == 'adt' and eng.types[sh[1].ty]['name'].endswith('::Range'):
                bits, sg = sh[2][0][3], False
                inv.append(('range', path, z3.ULE(bv(fs[0], bits), bv(fs[1], bits)), z3.ULE(bv(sh[2][0][1], bits), bv(fs[1], bits))))
            if type(v) is Opq and v.tag == 'it' and v.d[0] in ('seq', 'chunks') and sh[2][2][0] == 'affine' and sh[2][3][0] == 'const':
                inv.append(('range', path, z3.ULE(bv(fs[2], 64), bv(fs[3], 64)), z3.ULE(bv(sh[2][2][1], 64), bv(fs[3], 64))))
            return v
        if t == 'seqagg': return CSeq([self.value(x, k, inv, path + (i,)) for i, x in enumerate(sh[2])])
        if t == 'affine':
            bits = sh[3]
            kk = k if bits == 64 else (z3.Extract(bits - 1, 0, k) if bits < 64 else z3.ZeroExt(bits - 64, k))
            e = kk * z3.BitVecVal(sh[2], bits) if sh[2] != 1 else kk
            if isinstance(sh[1], int) and sh[1] == 0: return e
            return bv(sh[1], bits) + e
        if t in ('shr', 'shl'):
            bits = sh[3]
            e = k * sh[2]
            e = z3.If(z3.UGE(e, z3.BitVecVal(bits, 64)), z3.BitVecVal(bits, 64), e)
            e = e if bits == 64 else (z3.Extract(bits - 1, 0, e) if bits < 64 else z3.ZeroExt(bits - 64, e))
            return z3.LShR(bv(sh[1], bits), e) if t == 'shr' else bv(sh[1], bits) << e
        if t == 'append': return self.seq(sh, k, path)
        if t == 'update': return self.upd(sh, k, path)
        if t == 'havoc':
            key = ('havoc', path, k.get_id())
            if key not in self.cache:
                if sh[1] == 'bool': v = eng.fresh_bool('hv')
                elif sh[1] == 'dead': v = Opq('dead')
                elif sh[1] == 'poly': v = Poly.var(eng.fresh('hv'))
                elif sh[1] == 'array': v = z3.Const(eng.fresh('hv'), sh[2])
                else: v = eng.fresh_bv('hv', sh[1])
                self.cache[key] = (v, k)
            return self.cache[key][0]
        raise LoopFail('unsupported loop variable: %s' % (sh[1],))
    def seq(self, sh, k, path):
        eng = self.eng
        v0, m = sh[1], sh[2]
        l0 = eng.slen(v0)
        base = eng.to_sseq(v0)
        kk = z3.simplify(bv(l0, 64) + k * z3.BitVecVal(m, 64))
        def get(i):
            off = z3.simplify(i - bv(l0, 64))
            if m == 1: q, j = off, 0
            else:
                q = z3.simplify(z3.UDiv(off, z3.BitVecVal(m, 64))); j = z3.simplify(z3.URem(off, z3.BitVecVal(m, 64)))
                if z3.is_bv_value(j): j = j.as_long()
            items = self.items(q, path)
            if isinstance(j, int): e = items[j]
            else:
                e = items[-1]
                for t in range(m - 2, -1, -1): e = merge(j == t, items[t], e, ('bits', 64))
            if isinstance(l0, int) and l0 == 0: return e
            c = z3.simplify(z3.ULT(i, bv(l0, 64)))
            if z3.is_true(c): return base.get(i)
            if z3.is_false(c): return e
            return merge(c, base.get(i), e, ('bits', 64))
        s = SSeq(kk, get, ('loopseq', self, path, k))
        return s
    def upd(self, sh, k, path):
        eng = self.eng; v0, i0 = sh[1], sh[2]
        base = eng.to_sseq(v0)
        def get(i):
            off = z3.simplify(bv(i, 64) - i0)
            c = z3.simplify(z3.ULT(off, k))
            if z3.is_false(c): return base.get(i)
            e = self.items(off, path)
            return e if z3.is_true(c) else merge(c, e, base.get(i), ('bits', 64))
        return SSeq(base.len, get, ('loopseq', self, path, k))
    def items(self, q, path):
        """the elements appended in super-iteration q"""
        eng = self.eng
        key = ('items', q.get_id())
        e = self.cache.get(key)
        if e is None:
            if self.depth > 3: raise LoopFail('self-dependent sequence')
            self.depth += 1
            eng.probe += 1; eng.initems += 1
            try:
                s = self.state(q)
                cur, _ = iterate(self.body, s, self.P)
                c = one(cur, 'items')
            finally:
                eng.probe -= 1; eng.initems -= 1
                self.depth -= 1
            e = (q, c)
            self.cache[key] = e
        c = e[1]
        v = c.heap[path[0]]
        for i in path[1:]: v = v.f[i] if type(v) is Agg else (v.items[i] if type(v) is CSeq else v.d[i])
        if type(v) is SSeq and v.tag is not None and v.tag[0] == 'set': return v.tag[3]
        its = tail(v)
        return its
    def ints(self, k):
        """integer loop variables at step k and at entry"""
        out = []
        def go(sh, path):
            if sh[0] == 'agg':
                for i, x in enumerate(sh[2]): go(x, path + (i,))
            elif sh[0] == 'havoc' and len(sh) > 3 and z3.is_int(sh[3]): out.append((sh[3], self.value(sh, k, [], path)))
        for c, sh in self.shape.items(): go(sh, (c,))
        return out
    def words(self, k):
        """64-bit loop variables without a closed form: (value at entry, value at step k)"""
        out = []
        def go(sh, path, v):
            if sh[0] == 'agg':
                fs = v.f if type(v) is Agg else v.d
                for i, x in enumerate(sh[2]): go(x, path + (i,), fs[i])
            elif sh[0] == 'havoc' and sh[1] == 64: out.append((bv(v, 64), self.value(sh, k, [], path)))
        for c, sh in self.shape.items(): go(sh, (c,), self.st.heap.get(c, UNINIT))
        return out
    def state(self, k):
        s = self.st.clone()
        inv = []
        for c, sh in self.shape.items(): s.heap[c] = self.value(sh, k, inv, (c,))
        s.pc = list(s.pc)
        s.pc.append(z3.ULT(k, z3.BitVecVal(KMAX, 64)))
        for n, p, g, init in inv:
            if (n, p) in self.okinv: s.pc.append(g)
        return s
    okinv = frozenset()

def tail(v):
    """items appended to a loop sequence"""
    its = []
    while type(v) is SSeq and v.tag is not None and v.tag[0] == 'cat':
        b = v.tag[2]
        if type(b) is not CSeq: raise LoopFail('appended sequence of symbolic length')
        its = list(b.items) + its
        v = v.tag[1]
    return its
def tail_base(v):
    n = 0
    while type(v) is SSeq and v.tag is not None and v.tag[0] == 'cat':
        b = v.tag[2]
        if type(b) is not CSeq: return None, 0
        n += len(b.items); v = v.tag[1]
    return v, n

def attempt_rule(eng, st, body, relevant, lty, clean, P, shape, key):
    G = Gen(eng, st, shape, P, body, clean, key)
    # candidate range invariants: initiation
    k0 = z3.BitVecVal(0, 64); k = z3.BitVec(eng.fresh('k'), 64)
    inv = []
    for c, sh in shape.items(): G.value(sh, k, inv, (c,))
    okinv = set()
    for n, p, g, init in inv:
        if eng.valid(st, eng.simp(init))[0]: okinv.add((n, p))
    G.okinv = okinv
    zinv = []
    if getattr(eng, 'zinv', None) is not None:
        drop = eng.__dict__.setdefault('zdrop', set())
        for n, g in eng.zinv([(x, x) for x, _ in G.ints(k)]):
            if (key, n) not in drop and eng.valid(st, g)[0]: zinv.append(n)
    binv = []
    if eng.binv is not None:
        bdrop = eng.__dict__.setdefault('bdrop', set())
        for n, g in eng.binv([x for x, _ in G.words(k)]):
            if (key, n) not in bdrop and eng.valid(st, g)[0]: binv.append(n)
    if not okinv:      # no bound on the number of iterations is part of the invariant
        k = z3.BitVec(eng.fresh('kw'), 64)
    np = len(eng.panics); na = eng.asserts
    f0 = int(str(k).rsplit('!', 1)[1])
    s = G.state(k)
    ginv = []
    for g in eng.ghosts:
        if hasattr(g, 'prepare'): g.prepare(eng, s, k)
        if hasattr(g, 'inv'):
            s0 = st.clone()
            if hasattr(g, 'prepare'): g.prepare(eng, s0, k0)
            if eng.valid(s0, eng.simp(g.inv(k0)))[0]:
                ginv.append(g); s.pc.append(g.inv(k))
    if zinv:
        for n, g in eng.zinv(G.ints(k)):
            if n in zinv: s.pc.append(g)
    if binv:
        for n, g in eng.binv([x for _, x in G.words(k)]):
            if n in binv: s.pc.append(g)
    if not eng.feasible(s, True) : raise LoopFail('vacuous loop state')
    cur, fin = iterate(body, s, P)
    ok = True
    k1 = z3.simplify(k + 1)
    for c2 in cur:
        if not check_next(eng, G, shape, c2, st, k1, relevant): ok = False
        if not ok: break
        for g in ginv:
            if not eng.valid(c2, eng.simp(g.inv(k1)))[0]: raise LoopFail('invariant of %s not preserved' % g.name)
        if zinv:
            now = [(a, b) for (a, _), b in zip(G.ints(k), int_leaves(shape, c2))]
            for n, g in eng.zinv(now):
                if n in zinv and not eng.valid(c2, g)[0]: drop.add((key, n)); ok = False
            if not ok: break
        if binv:
            for n, g in eng.binv(word_leaves(shape, c2)):
                if n in binv and not eng.valid(c2, g)[0]: bdrop.add((key, n)); ok = False
            if not ok: break
        inv1 = []
        for c, sh in shape.items(): G.value(sh, k1, inv1, (c,))
        for n, p, g, init in inv1:
            if (n, p) in okinv and not eng.valid(c2, eng.simp(g))[0]:
                raise LoopFail('range invariant not preserved')
    if not ok:
        del eng.panics[np:]; eng.asserts = na
        return None
    if not okinv:
        f = previous(st, cur, k, f0)
        if f is not None:
            for _, s2 in fin: s2.pc = list(s2.pc) + [f]
            for p in eng.panics[np:]: p['pc'] = list(p['pc']) + [f]
    eng.loops_proved.append((str(key), P, sorted({x[0] for sh in shape.values() for x in leaves(sh)})))
    return fin

def int_leaves(shape, s):
    out = []
    def go(sh, v):
        if sh[0] == 'agg':
            for i, x in enumerate(sh[2]): go(x, (v.f if type(v) is Agg else v.d)[i])
        elif sh[0] == 'havoc' and len(sh) > 3 and z3.is_int(sh[3]): out.append(v)
    for c, sh in shape.items(): go(sh, s.heap[c])
    return out

def word_leaves(shape, s):
    out = []
    def go(sh, v):
        if sh[0] == 'agg':
            for i, x in enumerate(sh[2]): go(x, (v.f if type(v) is Agg else v.d)[i])
        elif sh[0] == 'havoc' and sh[1] == 64: out.append(bv(v, 64))
    for c, sh in shape.items(): go(sh, s.heap[c])
    return out

def previous(st, cur, k, f0):
    """k = 0, or the iteration before ran to its end from G(k-1): the conditions on that path that speak only of
    k and of what exists before the loop"""
    n0 = len(st.pc); ds = []
    for c in cur:
        cs = []
        for x in c.pc[n0:]:
            if not isinstance(x, z3.ExprRef): continue
            ok = True
            for n in names(x):
                if n == str(k): continue
                t = n.rsplit('!', 1)
                if len(t) == 2 and t[1].isdigit() and int(t[1]) > f0: ok = False; break
            if ok: cs.append(x)
        if not cs: return None
        ds.append(z3.And(*cs))
    if not ds: return None
    return z3.Or(k == 0, z3.substitute(z3.Or(*ds), (k, k - 1)))
def names(x):
    out = set(); seen = set(); st = [x]
    while st:
        y = st.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(y.decl().name())
        st += y.children()
    return out

def check_next(eng, G, shape, s, st0, k1, relevant):
    allok = True
    for c in list(st0.heap):
        if not relevant(c): continue
        v = s.heap.get(c, UNINIT)
        if c in shape:
            inv = []
            if not chk(eng, G, shape[c], v, k1, s, (c,)): allok = False
        else:
            v0 = st0.heap[c]
            if v is v0 or same(v, v0): continue
            # changes at a symbolic iteration although not in the first ones
            sh = wild(eng, [v0, v], None)
            shape[c] = sh; allok = False
    return allok
def wild(eng, vs, ty):
    sh = cls(eng, vs, ty, None)
    return weaken(eng, sh, vs[1])
def weaken(eng, sh, v):
    if sh[0] == 'agg': return ['agg', sh[1], [weaken(eng, x, (v.f if type(v) is Agg else v.d)[i]) for i, x in enumerate(sh[2])]]
    if sh[0] in ('affine', 'shr', 'shl'): return ['havoc', sh[3], None]
    if sh[0] in ('const', 'havoc'): return sh
    raise LoopFail('cannot weaken %s' % sh[0])
def chk(eng, G, sh, v, k1, s, path):
    t = sh[0]
    if t == 'havoc': return True
    if t == 'agg':
        if type(sh[1]) is Agg:
            if type(v) is not Agg or v.var != sh[1].var or len(v.f) != len(sh[2]): raise LoopFail('aggregate changes shape')
            fs = v.f
        else:
            if type(v) is not Opq or v.tag != sh[1].tag or len(v.d) != len(sh[2]): raise LoopFail('value changes shape')
            fs = v.d
        r = True
        for i, x in enumerate(sh[2]): r = chk(eng, G, x, fs[i], k1, s, path + (i,)) and r
        return r
    if t == 'seqagg':
        if type(v) is not CSeq or len(v.items) != len(sh[2]): raise LoopFail('sequence changes length')
        r = True
        for i, x in enumerate(sh[2]): r = chk(eng, G, x, v.items[i], k1, s, path + (i,)) and r
        return r
    if t == 'append':
        b, n = tail_base(v)
        if type(b) is SSeq and b.tag is not None and b.tag[0] == 'loopseq' and b.tag[1] is G and b.tag[2] == path and n == sh[2]: return True
        raise LoopFail('sequence is not extended uniformly')
    if t == 'update':
        if type(v) is SSeq and v.tag is not None and v.tag[0] == 'set':
            b = v.tag[1]
            if type(b) is SSeq and b.tag is not None and b.tag[0] == 'loopseq' and b.tag[1] is G and b.tag[2] == path \
               and eng.valid(s, v.tag[2] == sh[2] + (k1 - 1))[0]: return True
        raise LoopFail('sequence is not rewritten uniformly')
    want = G.value(sh, k1, [], path)
    if t == 'ghost':
        if sh[1].eq(eng, s, v, k1): return True
        eng.ghost_fail.append((sh[1].name, str(path)))
        if type(v) is Poly: sh[:] = ['havoc', 'poly', None]; return False
        if z3.is_array(v) or z3.is_int(v): sh[:] = ['havoc', 'array', v.sort(), sh[1].value(z3.BitVecVal(0, 64))]; return False
        if z3.is_bv(v) or (isinstance(v, int) and not isinstance(v, bool)): sh[:] = ['havoc', sh[2] if len(sh) > 2 else 64, None]; return False
        raise LoopFail('recurrence %s not maintained' % sh[1].name)
    if same(v, want): return True
    if (isinstance(v, int) and not isinstance(v, bool)) or z3.is_bv(v):
        bits = v.size() if z3.is_bv(v) else (want.size() if z3.is_bv(want) else 64)
        if eng.valid(s, eng.simp(bv(v, bits) == bv(want, bits)))[0]: return True
        if t == 'affine':
            for g in eng.ghosts:
                if getattr(g, 'kind', None) == 'int' and bits == 64 and g.at(0, sh[1]):
                    sh[:] = ['ghost', g, bits]; return False
        sh[:] = ['havoc', bits, None]; return False
    if isinstance(v, bool) or z3.is_bool(v):
        if eng.valid(s, eng.simp(b_z3(v) == b_z3(want)))[0]: return True
        sh[:] = ['havoc', 'bool', None]; return False
    if type(v) is Poly: sh[:] = ['havoc', 'poly', None]; return False
    if z3.is_array(v) or (z3.is_expr(v) and z3.is_int(v)): sh[:] = ['havoc', 'array', v.sort(), want]; return False
    raise LoopFail('loop constant changes (%r)' % (type(v),))
