"""Contracts of constraint synthesis: completeness, soundness and shape of the R1CS the real code emits."""
import time
import z3, random
import poly, models, val
from poly import Poly, ZERO, ONE, R, A, define, TooBig
from val import *
from models import CSCELL, CS, LCv
from framework import evalp, evalatom, eval_env, evalbool

def build(ctx, root, fields, mode, atoms_none=True):
    """run generate_constraints on the given struct fields -> (engine, CS)"""
    m = ctx.mir
    def mk(e, st):
        inst = m.insts[m.roots[root]]; ty = inst['body']['locals'][1]
        d = m.types[ty]; vals = []
        for n, t in d['v'][0]['f']:
            if n not in fields: raise Unsupported('unknown field %s' % n)
            v = fields[n]
            if isinstance(v, tuple) and v and v[0] == 'opt': v = opt(v[1], mode)
            elif isinstance(v, list):
                v = Ref(e.alloc(st, CSeq([opt(x[1], mode) if isinstance(x, tuple) else x for x in v])))
            vals.append(v)
        st.heap[CSCELL] = CS(mode)
        return [Agg(ty, 0, tuple(vals)), Opq('csref')]
    saved = dict(models.BITINFO)
    e, rs = ctx.run(root, mk, tweak=lambda e, st: (seed_bits(e), setattr(e, 'concrete_limit', 1 << 20), setattr(e, 'max_splits', 12)))
    return e, rs
def opt(v, mode):
    if mode == 'setup': return Agg(None, 0, ())
    return Agg(None, 1, (v,))
BITS = {}
def seed_bits(e):
    e.fbits.update({p: r for p, r in BITS.items()})
    for p, r in BITS.items():
        if (p, r) not in e.bitrel: e.bitrel.append((p, r))
def reset():
    poly.reset(); val.reset_tables(); BITS.clear(); models.BITINFO.clear()
def bits_of(p):
    """the bits of the canonical representative of p, shared by specification and code"""
    r = BITS.get(p)
    if r is None:
        nm = 'bits%d' % len(BITS)
        r = [z3.Bool('%s.%d' % (nm, i)) for i in range(255)] + [False]
        for i, b in enumerate(r[:255]): models.BITINFO[b.decl().name()] = (p, i)
        BITS[p] = r
    return r
def bit_poly(b): return field_of_bool(b)
def low_poly(bits, n):
    p = ZERO
    for k in range(n): p = p + bit_poly(bits[k]).scale(1 << k)
    return p

def lc_eval(l, sol):
    p = ZERO
    for v, c in l.t.items():
        x = ONE if v == 'One' else sol[v]
        p = p + (c * x if not c.is_const() else x.scale(c.cval()))
    return p

class Span:
    """linear span over F_r of relations (polynomials equal to zero)"""
    def __init__(self): self.rows = []      # (pivot monomial, poly with pivot coef 1)
    def reduce(self, p):
        for piv, q in self.rows:
            c = p.t.get(piv)
            if c: p = p - q.scale(c)
        return p
    def add(self, p):
        p = self.reduce(p)
        if p.is_zero(): return
        # pivot: prefer a single boolean atom of the largest coefficient (top bits first)
        piv = max(p.t, key=lambda m: (len(m), m))
        inv = pow(p.t[piv], -1, R)
        self.rows.append((piv, p.scale(inv)))

# ----------------------------------------------------------------------------------- execution paths
def path_env(e, s, rnd, tries=30):
    """values of the inputs under which the code takes this path (None when none was found)"""
    pos, oth = [], []
    for c in s.pc:
        for x in (c.children() if z3.is_and(c) else [c]):
            r = e.feq_rev.get(x.get_id())
            if r is not None and r[0].eq(x): pos.append(r[1])
            else: oth.append(x)
    for _ in range(tries):
        env = eval_env(rnd)
        for d in pos:
            # solve d = 0 for an input that occurs linearly with a constant coefficient
            cand = [(m[0][0], c) for m, c in d.t.items() if len(m) == 1 and m[0][1] == 1 and A.meta.get(m[0][0]) is None and not A.boolean[m[0][0]] and m[0][0] not in env['v']
                    and not any(m2 is not m and any(a == m[0][0] for a, _ in m2) for m2 in d.t)]
            if not cand: continue
            a, c = cand[0]
            env['v'][a] = 0
            env['v'][a] = (-evalp(d, env)) * pow(c, -1, R) % R
        try:
            if all(evalp(d, env) == 0 for d in pos) and all(holds(e, x, env) for x in oth): return env
        except Unsupported: pass
    return None
def holds(e, x, env):
    r = e.feq_rev.get(x.get_id())
    if r is not None and r[0].eq(x): return evalp(r[1], env) == 0
    if z3.is_not(x): return not holds(e, x.arg(0), env)
    if z3.is_and(x): return all(holds(e, y, env) for y in x.children())
    if z3.is_or(x): return any(holds(e, y, env) for y in x.children())
    return evalbool(x, env)

# ----------------------------------------------------------------------------------- completeness
def completeness(ctx, e, cs, public, tag, hint=None, env=None):
    """the honest assignment satisfies every constraint, and the public inputs are the specified ones in order"""
    vs, cons = cs.listed()
    sol = {}
    for n, v in vs:
        if type(v) is not Poly: raise Unsupported('assigned value %r' % (v,))
        sol[n] = v
    inst = [v for n, v in vs if n[0] == 'I']
    ok = True
    if len(inst) != len(public):
        if hint: ctx.hints.append(('%s: number of public inputs' % tag, hint(eval_env(ctx.rnd))))
        ctx.add('%s: number of public inputs' % tag, 'refuted', '%d instead of %d' % (len(inst), len(public)))
        return False
    for i, (v, w) in enumerate(zip(inst, public)): ok &= ctx.poly_eq(v, w, '%s: public input %d' % (tag, i), hint=hint)
    sp = Span()
    for p, bits in e.bitrel:
        s = ZERO
        for k, b in enumerate(bits):
            if b is not False: s = s + field_of_bool(b).scale(1 << k)
        sp.add(s - p)
    bad = []
    single = env is None
    if env is None: env = eval_env(ctx.rnd)
    und = []; more = []
    for i, (a, b, c, w) in enumerate(cons):
        x, y, z = lc_eval(a, sol), lc_eval(b, sol), lc_eval(c, sol)
        try: d = (x * y - z).fold()
        except TooBig: d = None
        if d is not None and d.is_zero(): continue
        if (evalp(x, env) * evalp(y, env) - evalp(z, env)) % R: bad.append((i, w, d)); continue
        if d is not None:
            r = sp.reduce(d)
            if r.is_zero(): continue
            try:
                from framework import reduce_cuts
                r = sp.reduce(reduce_cuts(r))
                if r.is_zero(): continue
            except TooBig: pass
        if single and not more: more = [eval_env(ctx.rnd) for _ in range(8)]
        e2 = next((v for v in more if (evalp(x, v) * evalp(y, v) - evalp(z, v)) % R), None)
        if e2 is not None: bad.append((i, w, d)); env = e2; continue
        und.append((i, w, d))
    if bad:
        if hint: ctx.hints.append(('%s: honest assignment satisfies every constraint' % tag, hint(env)))
        ctx.add('%s: honest assignment satisfies every constraint' % tag, 'refuted', 'constraint %d of %d (in %s): %s' % (bad[0][0], len(cons), bad[0][1], bad[0][2]))
        return False
    if und: ctx.add('%s: honest assignment satisfies every constraint' % tag, 'undecided', 'constraint %d (in %s): %s' % (und[0][0], und[0][1], und[0][2])); return False
    ctx.add('%s: honest assignment satisfies all %d constraints' % (tag, len(cons)), 'proved')
    return ok

def shape(ctx, c1, c2, tag, reach=True, hint=None):
    def no(name, why):
        if hint is not None: ctx.hints.append(('%s: %s' % (tag, name), hint()))
        return ctx.add('%s: %s' % (tag, name), 'refuted' if reach else 'undecided', why)
    v1, k1 = c1.listed(); v2, k2 = c2.listed()
    if c1.nin != c2.nin or c1.nwit != c2.nwit or len(k1) != len(k2):
        return no('same number of variables and constraints', 'proving (%d,%d,%d), setup (%d,%d,%d)' % (c1.nin, c1.nwit, len(k1), c2.nin, c2.nwit, len(k2)))
    if [n for n, _ in v1] != [n for n, _ in v2]: pass      # allocation order between kinds is immaterial
    for i, (p, q) in enumerate(zip(k1, k2)):
        for x, y in zip(p[:3], q[:3]):
            if x.t != y.t: return no('same constraint matrices', 'constraint %d: %r vs %r' % (i, x, y))
    return ctx.add('%s: key generation and proving emit the same %d constraints over %d public and %d private variables' % (tag, len(k1), c1.nin, c1.nwit), 'proved')

# ----------------------------------------------------------------------------------- soundness
class Solved: pass
def solve(ctx, cs):
    """express every satisfying assignment through free values: every variable becomes a polynomial in the free atoms,
    together with the residual relations the free atoms have to satisfy"""
    vs, cons = cs.listed()
    honest = dict(vs)
    order = [n for n, _ in vs]
    sol = {}
    used = set()
    freeat = {}          # atom id -> var
    resid = []
    pend = list(range(len(cons)))
    occ = {}
    for i, (a, b, c, w) in enumerate(cons):
        for l in (a, b, c):
            for v in l.t:
                if v != 'One': occ.setdefault(v, set()).add(i)
    state = {}
    def unknowns(l): return [v for v in l.t if v != 'One' and v not in sol]
    def lc_known(l):
        p = ZERO
        for v, c in l.t.items():
            if v == 'One': p = p + c
            elif v in sol: p = p + (c * sol[v] if not c.is_const() else sol[v].scale(c.cval()))
        return p
    def atom_of(p):
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
        return None
    def base(v):
        """atom of the honest value if that is a plain input"""
        h = honest.get(v)
        if type(h) is not Poly: return None
        a = atom_of(h)
        if a is None or a in used or isinstance(A.meta.get(a), Poly): return None
        return a
    def assign(v, p):
        sol[v] = p.fold()
        return [i for i in occ.get(v, ()) if i in live]
    live = set(pend)
    def free(v, boolean):
        a = base(v)
        if a is not None and A.boolean[a] == boolean:
            used.add(a); p = Poly({((a, 1),): 1})
        else:
            p = Poly.var('free:%s%d%s' % (v[0], v[1], ':bit' if boolean else ''), boolean)
        freeat[list(p.t)[0][0][0]] = v
        return p
    def step(i):
        a, b, c, w = cons[i]
        ua, ub, uc = unknowns(a), unknowns(b), unknowns(c)
        allu = set(ua) | set(ub) | set(uc)
        if not allu:
            live.discard(i)
            d = (lc_known(a) * lc_known(b) - lc_known(c)).fold()
            if not d.is_zero(): resid.append((d, i, w))
            return []
        if len(allu) == 1:
            u = next(iter(allu))
            if not ua and not ub:
                co = c.t[u]
                if co.is_const():
                    live.discard(i)
                    d = lc_known(a) * lc_known(b) - lc_known(c)
                    return assign(u, d.scale(pow(co.cval(), -1, R)))
            elif (ua and not ub) or (ub and not ua):
                l, k = (a, lc_known(b)) if ua else (b, lc_known(a))
                co = l.t[u]
                cc = c.t.get(u, ZERO)
                if k.is_const() and co.is_const() and cc.is_const():
                    f = (co.cval() * k.cval() - cc.cval()) % R
                    if f:
                        live.discard(i)
                        d = lc_known(c) - lc_known(l) * k
                        return assign(u, d.scale(pow(f, -1, R)))
            else:
                # booleanity: (p u + q)(r u + s) = t u + z with roots 0 and 1
                if all(x.is_const() for x in list(a.t.values()) + list(b.t.values()) + list(c.t.values())) and \
                   all(v == u or v == 'One' or (v in sol and sol[v].is_const()) for l in (a, b, c) for v in l.t):
                    def at(x):
                        g = lambda l: (lc_known(l).cval() + (l.t[u].cval() * x if u in l.t else 0)) % R
                        return (g(a) * g(b) - g(c)) % R
                    quad = a.t[u].cval() * b.t[u].cval() % R
                    if quad and at(0) == 0 and at(1) == 0:
                        live.discard(i)
                        return assign(u, free(u, True))
        return None
    work = list(pend)
    # what is to be left free next: public inputs fed from plain inputs first, then private ones, then anything;
    # a variable once unsuitable stays so, hence the three positions only advance
    pos = {'I': 0, 'W': 0, None: 0}
    def plain(v): b = base(v); return b is not None and not A.boolean[b]
    def advance(kind, suitable):
        while pos[kind] < len(order) and not suitable(order[pos[kind]]): pos[kind] += 1
        return order[pos[kind]] if pos[kind] < len(order) else None
    while True:
        while work:
            i = work.pop()
            if i not in live: continue
            r = step(i)
            if r: work += r
        if advance(None, lambda v: v not in sol) is None: break
        pick = advance('I', lambda v: v[0] == 'I' and v not in sol and plain(v)) or advance('W', lambda v: v not in sol and plain(v)) or advance(None, lambda v: v not in sol)
        work += assign(pick, free(pick, False))
    S = Solved(); S.sol = sol; S.resid = resid; S.freeat = freeat; S.cons = cons; S.order = order; S.cs = cs
    return S

def soundness(ctx, S, claims, tag, hint=None, env_inputs=None):
    """claims: [(name, poly)] — zero under every satisfying assignment"""
    sp = Span()
    for d, i, w in S.resid: sp.add(d)
    left = []; f = None
    for cl in claims:
        name, p = cl[0], cl[1]
        top = len(cl) > 2 and cl[2] == 'top'
        r = closed(sp, p, top)
        if r is True: ctx.add('%s: %s' % (tag, name), 'proved'); continue
        left.append((name, p, r))
        if len(left) == 3:
            # enough to look for a counterexample; with one at hand the remaining claims need no proof
            f = forge(ctx, S, [p for _, p, _ in left])
            if f is not None: break
    if not left: return True
    if f is None and len(left) != 3: f = forge(ctx, S, [p for _, p, _ in left])
    h = hint(f) if hint and f is not None else None
    for name, p, r in left:
        if f is None: ctx.add('%s: %s' % (tag, name), 'undecided', 'does not follow linearly from the emitted constraints: %s' % (r,))
        else:
            if h is not None: ctx.hints.append(('%s: %s' % (tag, name), h))
            ctx.add('%s: %s' % (tag, name), 'refuted', 'a satisfying assignment violates it: %s' % f['what'])
    return False

def closed(sp, p, top, depth=3):
    """True when p is in the span of the relations, unfolding up to `depth` named intermediate values of the specification"""
    r = p
    try:
        q = p.fold()
        for k in range(depth + 1):
            r = sp.reduce(q)
            if r.is_zero() or (top and is_top(r)): return True
            cuts = [a for a in r.atoms() if isinstance(A.meta.get(a), Poly)]
            if not cuts: break
            a = max(cuts); q = r.subst({a: A.meta[a]})
    except TooBig: pass
    return r

def is_top(r):
    """+-2^255 times one boolean: the 256th bit of the decomposition, which the honest prover sets to zero"""
    if len(r.t) != 1: return False
    (m, c), = r.t.items()
    return len(m) == 1 and A.boolean[m[0][0]] and c in ((1 << 255) % R, R - (1 << 255) % R)
def assignment(S, env):
    inst = []; wit = []
    for v in sorted([v for v in S.order if v[0] == 'I'], key=lambda v: v[1]): inst.append(evalp(S.sol[v], env))
    for v in sorted([v for v in S.order if v[0] == 'W'], key=lambda v: v[1]): wit.append(evalp(S.sol[v], env))
    return inst, wit
def check_assignment(S, env):
    vals = {}
    def val_(v):
        if v == 'One': return 1
        if v not in vals: vals[v] = evalp(S.sol[v], env)
        return vals[v]
    def ev(l): return sum(evalp(c, env) * val_(v) for v, c in l.t.items()) % R
    return all((ev(a) * ev(b) - ev(c)) % R == 0 for a, b, c, w in S.cons)

def cutdeps(b, memo):
    m = A.meta.get(b)
    if not isinstance(m, Poly): return frozenset([b])
    k = (id(m), b)
    if k not in memo:
        out = set([b])
        for x in m.atoms(): out |= cutdeps(x, memo)
        memo[k] = frozenset(out)
    return memo[k]
def repair(S, v, changed, rnd):
    """satisfy the residual relations by moving free atoms not in `changed`"""
    memo = {}
    for _ in range(12 + 2 * len(S.resid)):
        env = {'rnd': rnd, 'v': dict(v), 'b': {}}
        # boolean atoms are free here: their value is what we say
        bad = [(d, evalp(d, env)) for d, _, _ in S.resid]
        bad = [(d, x) for d, x in bad if x]
        if not bad: return env
        bad.sort(key=lambda b: -len(b[0].t))        # whole decompositions before their parts
        moved = set()
        for d, x in bad:
            # several relations in one pass, as long as none depends on what this pass moved
            if moved:
                dep = set()
                for b in d.atoms(): dep |= cutdeps(b, memo)
                if dep & moved: continue
            w = fix1(S, d, x, v, changed, memo)
            if w is None: return None
            moved |= w
    return None
def fix1(S, d, x, v, changed, memo):
    """move free atoms so that d, now x, becomes zero"""
    lin = {}
    for m, c in d.t.items():
        for a, e in m: lin.setdefault(a, []).append((m, c))
    for a in list(lin):
        if a in S.freeat and a not in changed and not A.boolean[a] and len(lin[a]) == 1 and lin[a][0][0] == ((a, 1),):
            if any(a in cutdeps(b, memo) for b in d.atoms() if b != a): continue
            v[a] = (v[a] - x * pow(lin[a][0][1], -1, R)) % R
            changed.add(a); return {a}
    bs = [(lin[a][0][1], a) for a in lin if a in S.freeat and A.boolean[a] and len(lin[a]) == 1 and lin[a][0][0] == ((a, 1),) and a not in changed]
    # values of the proof's own first: those named after the specification are honest to begin with
    for pool, sign in [(p, s) for p in ([b for b in bs if A.names[b[1]].startswith('free:')], bs) for s in (1, -1)]:
        q = [((c * sign) % R, a) for c, a in pool]
        q = [(c, a) for c, a in q if c & (c - 1) == 0 and c]
        if not q: continue
        cur = sum(c * v[a] for c, a in q)
        tgt = (cur - sign * x) % R
        w = {a: 0 for c, a in q}; t = tgt
        for c, a in sorted(q, reverse=True):
            if t >= c: w[a] = 1; t -= c
        if t == 0:
            v.update(w); changed |= set(w); return set(w)
    return None

def forge(ctx, S, claims, tries=400):
    """look for a satisfying assignment violating one of the claims"""
    rnd = ctx.rnd
    base = eval_env(rnd)
    atoms = list(S.freeat)
    for d, _, _ in S.resid:
        for a in d.atoms():
            if a not in S.freeat and A.meta.get(a) is None: pass
    for a in atoms: evalatom(a, base)
    fixed = dict((a, base['v'][a]) for a in atoms)
    named = {a for a in range(len(A.names)) if A.meta.get(a) is None and not A.boolean[a] and a not in S.freeat}
    for a in named: fixed[a] = evalatom(a, base)
    extra = [a for a in atoms if A.names[a].startswith('free:')]
    others = [a for a in atoms if a not in set(extra)]
    def attempt(start):
        v = dict(fixed); v.update(start)
        env = repair(S, v, set(start), rnd)
        if env is not None and any(evalp(p, env) for p in claims) and check_assignment(S, env): return env
        return None
    # what the open claims talk about comes first, a few values of every claim
    inclaim = {}
    for p in claims:
        for k, a in enumerate([a for a in p.atoms() if a in S.freeat][:8]): inclaim.setdefault(a, k)
    near = sorted(inclaim, key=lambda a: inclaim[a])
    cands = [[a] for a in near[:60]] + [[a] for a in extra[:200]] + [[a] for a in others]
    for _ in range(60):
        if len(atoms) >= 2: cands.append(rnd.sample(extra if len(extra) >= 2 else atoms, 2))
    # honest values may themselves violate a claim
    t0 = time.time()
    for st in [[]] + cands[:tries]:
        if time.time() - t0 > 90: break
        start = {}
        for a in st: start[a] = (1 - fixed[a]) if A.boolean[a] else rnd.choice([(fixed[a] + 1) % R, rnd.randrange(R), 0, 1, 2])
        env = attempt(start)
        if env is not None:
            inst, wit = assignment(S, env)
            return dict(env=env, instance=inst, witness=wit, what='with %s changed' % ', '.join('%s=%d' % (A.names[a], start[a]) for a in start) if start else 'honest values')
    return None
