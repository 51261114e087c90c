"""Running the contracts of one property and reporting."""
import os, sys, time, json, random, traceback, signal, subprocess
import z3
import prep, poly, val, models, loops
from poly import Poly, ZERO, ONE, R, define, TooBig
from val import *
from mir import Mir
from exec import Engine, State, LoopLimit, Budget

VERIF = prep.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.json')

class Skip(Exception): pass
def on_alarm(sig, fr):
    import linecache
    raise Budget('time limit of the section, in %s:%d' % (os.path.basename(fr.f_code.co_filename), fr.f_lineno))

class Case:
    """one native run of the real code: commands and the check of their outputs"""
    def __init__(self, cmds, check, desc, inputs=None, timeout=120):
        self.cmds = [cmds] if isinstance(cmds, str) else cmds
        self.check = check if callable(check) else (lambda outs, e=check: None if outs[-1] == 'ok ' + e else 'expected %s, got %s' % (e[:300], outs[-1][:300]))
        self.desc = desc; self.inputs = inputs; self.timeout = timeout

class Ctx:
    def __init__(self, prop, tier, seed, crate):
        self.prop = prop; self.tier = tier; self.seed = seed; self.crate = crate
        self.obls = []          # dict(name, status, detail, t, bounded)
        self.t0 = time.time()
        self.engines = []
        self.hints = []
        self.contracts = []     # text of the contracts
        self.functions = set()
        self.models_used = {}
        self.assumed = set()
        self.known = []
        self.loops = []
        self.queries = 0; self.solver_time = 0.0; self.asserts = 0; self.steps = 0
        self.native_cases = 0
        self.rnd = random.Random(seed)
        self._mir = None; self._nat = None
        self.thorough = tier == 'thorough'
        self.deadline = None
        self.budget = 2400 if self.thorough else 420
        self.secname = None
    # ---------------------------------------------------------------- resources
    @property
    def mir(self):
        if self._mir is None:
            p, meta = prep.mir(self.crate)
            self._mir = Mir(p); self._mir.dropped = meta['dropped']
        return self._mir
    @property
    def nat(self):
        if self._nat is None: self._nat = prep.Native(self.crate)
        return self._nat
    def left(self): return self.budget - (time.time() - self.t0)
    # ---------------------------------------------------------------- obligations
    def add(self, name, status, detail='', t=0.0, bounded=None):
        full = '%s: %s' % (self.secname, name) if self.secname else name
        self.obls.append(dict(name=full, status=status, detail=str(detail)[:1500], t=round(t, 3), bounded=bounded))
        if os.environ.get('VP_V') or (status != 'proved' and os.environ.get('VP_Q') is None): print('  [%s] %s %s' % (status, full, str(detail)[:400] if status != 'proved' else ''), flush=True)
        return status == 'proved'
    def section(self, name, fn, bounded=None, budget=None):
        """run one group of obligations; any construct outside the verifier's reach leaves it undecided"""
        t = time.time()
        self.secname = name; self.secbound = bounded
        n0 = len(self.obls)
        self.deadline = t + min(budget or 1e9, max(20, self.left()))
        signal.signal(signal.SIGALRM, on_alarm)
        signal.setitimer(signal.ITIMER_REAL, max(1, self.deadline + 5 - t), 5)
        try:
            try: fn()
            finally: signal.setitimer(signal.ITIMER_REAL, 0)
            if len(self.obls) == n0: self.add('obligations generated', 'undecided', 'no obligation was generated')
        except (Unsupported, LoopLimit, Budget, TooBig, NoMerge, z3.Z3Exception, KeyError, IndexError, AttributeError, TypeError, ValueError, RecursionError, AssertionError) as e:
            msg = '%s: %s' % (type(e).__name__, str(e)[:600])
            if os.environ.get('VP_TB'): traceback.print_exc()
            self.add('within reach of the verifier', 'undecided', msg)
        for o in self.obls[n0:]:
            if bounded: o['bounded'] = bounded
        self.secname = None
        return all(o['status'] == 'proved' for o in self.obls[n0:])
    def parallel(self, tasks, procs=None):
        """independent groups of obligations [(name, fn, bounded)] in forked processes; a group with a counterexample is repeated here so that it can be replayed"""
        import pickle, select
        procs = procs or int(os.environ.get('VP_PROCS', '0')) or min(8, os.cpu_count() or 1)
        if procs <= 1 or len(tasks) <= 1:
            for n, f, b in tasks: self.section(n, f, b)
            return
        self.mir
        keep = ('functions', 'models_used', 'assumed', 'loops', 'queries', 'solver_time', 'asserts', 'steps', 'known')
        sys.stdout.flush()
        todo = list(enumerate(tasks)); run = {}; res = {}
        while todo or run:
            while todo and len(run) < procs:
                i, (n, f, b) = todo.pop(0)
                r, w = os.pipe(); pid = os.fork()
                if pid == 0:
                    try:
                        os.close(r)
                        n0, h0, k0 = len(self.obls), len(self.hints), len(self.known)
                        self.queries = self.asserts = self.steps = 0; self.solver_time = 0.0
                        self.functions = set(); self.models_used = {}; self.assumed = set(); self.loops = []; self.known = []
                        if self._nat is not None: self._nat = None
                        self.section(n, f, b)
                        d = {k: getattr(self, k) for k in keep}; d['obls'] = self.obls[n0:]; d['nh'] = len(self.hints) - h0
                        with os.fdopen(w, 'wb') as fo: pickle.dump(d, fo)
                        sys.stdout.flush()
                    except BaseException as ex:
                        if os.environ.get('VP_TB'): traceback.print_exc()
                    finally: os._exit(0)
                os.close(w); run[r] = (i, pid, b'')
            rd, _, _ = select.select(list(run), [], [])
            for r in rd:
                x = os.read(r, 1 << 20); i, pid, buf = run[r]
                if x: run[r] = (i, pid, buf + x); continue
                os.close(r); os.waitpid(pid, 0); del run[r]
                try: res[i] = pickle.loads(buf)
                except Exception: res[i] = None
        for i, (n, f, b) in enumerate(tasks):
            d = res.get(i)
            if d is None or (d['nh'] and not (self.left() < 0 and self.hints)):
                self.section(n, f, b); continue
            self.obls += d['obls']
            self.functions |= d['functions']; self.assumed |= d['assumed']; self.loops += d['loops']; self.known += [k for k in d['known'] if k not in self.known]
            for k, v in d['models_used'].items(): self.models_used[k] = self.models_used.get(k, 0) + v
            for k in ('queries', 'solver_time', 'asserts', 'steps'): setattr(self, k, getattr(self, k) + d[k])
    def either(self, name, unbounded, bounded, bound, budget=None):
        """unbounded proof; where it is out of reach, the same contract at stated bounds"""
        if not self.section(name, unbounded, budget=budget):
            self.section(name + ' [bounded]', bounded, bounded=bound, budget=budget)
    # ---------------------------------------------------------------- symbolic execution
    def run(self, root, mk, ghosts=(), contracts=None, tweak=None, name=None, rule=None):
        """mk(engine, state) -> args; restarts with the loop rule on the loops that need it"""
        if root in self.mir.dropped or root not in self.mir.roots: raise Unsupported('entry point %s does not exist in this tree' % root)
        rule = dict(rule or {})
        for _ in range(12):
            e = Engine(self.mir); e.rule = rule; e.deadline = self.deadline
            e.ghosts = list(ghosts(e) if callable(ghosts) else ghosts)
            if contracts: e.contracts.update(contracts)
            st = State()
            if tweak: tweak(e, st)
            args = mk(e, st)
            if not e.feasible(st, True): raise Unsupported('vacuous precondition')
            try:
                res = e.exec_fn(self.mir.roots[root], args, st)
                self.finish(e)
                return e, res
            except LoopLimit as ex:
                self.account(e)
                rule[ex.key] = {}
        raise Unsupported('too many loops')
    def account(self, e):
        self.queries += e.inc.queries; self.solver_time += e.inc.time; self.steps += e.steps
        e.inc.queries = 0; e.inc.time = 0
    def finish(self, e):
        self.account(e)
        self.asserts += e.asserts
        for k, n in e.used_models.items(): self.models_used[k] = self.models_used.get(k, 0) + n
        for k in e.inlined:
            if not k.split('<')[0].startswith(('std::', 'core::', 'alloc::')) and 'vp_root' not in k: self.functions.add(k)
        self.loops += e.loops_proved
        for k in getattr(e, 'contracts_used', ()): self.assumed.add(k)
    # ---------------------------------------------------------------- obligations over states
    def oblige(self, e, st, c, name, hint=None):
        t = time.time()
        if isinstance(c, z3.ExprRef):
            c = z3.simplify(c)
            c = True if z3.is_true(c) else False if z3.is_false(c) else c
        ok, m = e.valid(st, c)
        dt = time.time() - t
        if ok: return self.add(name, 'proved', t=dt)
        if ok is None: return self.add(name, 'undecided', 'solver gave up', dt)
        und = tainted(e, st, c)
        d = 'counterexample: ' + show_model(m)
        if hint is not None and m is not None:
            try:
                h = hint(m)
                if h is not None: self.hints.append((name, h))
            except Exception as ex: d += ' (not concretised: %s)' % ex
        return self.add(name, 'undecided' if und else 'refuted', d + (' (depends on an abstracted loop variable)' if und else ''), dt)
    def nopanic(self, e, name='no panic, no overflow, no out-of-bounds index', allow=None, hint=None, extra=None):
        """every panic recorded on the way must be unreachable under the precondition"""
        bad = 0
        for p in e.panics:
            if allow and allow(p): continue
            s = State(); s.pc = p['pc']
            r, m = e.inc.check(s.pc, z3.BoolVal(True))
            if r == z3.unsat: continue
            bad += 1
            und = r != z3.sat or tainted(e, s, True)
            if hint is not None and m is not None:
                try:
                    h = hint(m)
                    if h is not None: self.hints.append((name, h))
                except Exception: pass
            self.add(name, 'undecided' if und else 'refuted', '%s in %s: %s' % (p['msg'], p['where'], show_model(m)))
            if bad > 3: break
        self.account(e)
        if not bad: self.add(name + ' (%d checks)' % e.asserts, 'proved')
        return not bad
    def poly_eq(self, got, want, name, e=None, hint=None, names=None):
        """equality of field elements as polynomials over the inputs"""
        t = time.time()
        if type(got) is not Poly: return self.add(name, 'undecided', 'not a field element: %r' % (got,))
        d = (got - want).fold()
        if d.is_zero(): return self.add(name, 'proved', t=time.time() - t)
        at = d.atoms() | got.atoms() | want.atoms()
        # a random point refutes
        abstract = [poly.A.names[a] for a in at if 'hv!' in poly.A.names[a] or poly.A.names[a].startswith('?')]
        for _ in range(12):
            env = eval_env(self.rnd)
            try: v = evalp(d, env)
            except Unsupported as ex: return self.add(name, 'undecided', str(ex))
            if v != 0: break
        if v != 0 and not abstract:
            if hint is not None:
                h = hint(env)
                if h is not None: self.hints.append((name, h))
            return self.add(name, 'refuted', 'values differ: got - want = %s' % (d,), time.time() - t)
        # substitute definitions, latest first
        try:
            d2 = reduce_cuts(d)
            if d2.is_zero(): return self.add(name, 'proved', t=time.time() - t)
        except TooBig: pass
        return self.add(name, 'undecided', 'not decided: %s' % (d,), time.time() - t)

def eval_env(rnd): return {'rnd': rnd, 'v': {}}
def evalatom(a, env):
    v = env['v'].get(a)
    if v is None:
        d = poly.A.meta.get(a)
        if d is not None: v = evalp(d, env)
        elif poly.A.boolean[a]: v = boolval(a, env)
        else: v = env['rnd'].randrange(R)
        env['v'][a] = v
    return v
def boolval(a, env):
    """bits of a field element are evaluated from its value"""
    b = poly.A.meta.get(('bool', a))
    if b is None: return env['rnd'].randrange(2)
    return int(evalbool(b, env))
def evalbool(b, env):
    if isinstance(b, bool): return b
    tab = env.setdefault('b', {})
    cs = consts_of(b)
    sub = []
    for x in cs:
        n = x.decl().name()
        if n not in tab:
            bi = models.BITINFO.get(n)
            if z3.is_bool(x): tab[n] = z3.BoolVal(bool((evalp(bi[0], env) >> bi[1]) & 1) if bi is not None else bool(env['rnd'].randrange(2)))
            elif z3.is_bv(x): tab[n] = z3.BitVecVal(env['rnd'].randrange(1 << x.size()), x.size())
            else: raise Unsupported('evaluate ' + n)
        sub.append((x, tab[n]))
    v = z3.simplify(z3.substitute(b, *sub)) if sub else z3.simplify(b)
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    raise Unsupported('evaluate boolean')
def consts_of(e):
    out = {}; seen = set(); st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[x.decl().name()] = x
        st += x.children()
    return list(out.values())
def evalp(p, env):
    s = 0
    for m, c in p.t.items():
        for a, e in m: c = c * pow(evalatom(a, env), e, R) % R
        s += c
    return s % R
def reduce_cuts(d, limit=400, seconds=30):
    t = time.time()
    for _ in range(limit):
        if d.is_zero(): return d
        if len(d.t) > 5000 or time.time() - t > seconds: raise TooBig()
        cuts = [a for a in d.atoms() if isinstance(poly.A.meta.get(a), Poly)]
        if not cuts: return d
        a = max(cuts)
        d = d.subst({a: poly.A.meta[a]})
    return d

def free_names(exprs, seen=None):
    out = set(); seen = set()
    stack = [x for x in exprs if isinstance(x, z3.ExprRef)]
    while stack:
        x = stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        stack += x.children()
    return out
ABSTRACT = ('hv!', 'kw!', 'fcmp', 'unk!', 'feq!')
def tainted(e, st, c):
    ns = free_names(list(st.pc) + ([c] if isinstance(c, z3.ExprRef) else []))
    return any(n.startswith(ABSTRACT) for n in ns)
def show_model(m):
    if m is None: return ''
    out = []
    for d in m.decls()[:40]:
        s = str(m[d]).replace('\n', ' ')
        out.append('%s=%s' % (d.name(), s[:80]))
    return ', '.join(sorted(out))[:900]

# -------------------------------------------------------------------- command line
def main(props):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default=None)
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props[a.prop]
    ctx = Ctx(a.prop, a.tier, seed, P.crate)
    ctx.only = a.only
    sys.exit(execute(ctx, P))

def execute(ctx, P):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    replay = os.path.join(VERIF, 'evidence', '%s.replay.json' % ctx.prop)
    if os.path.exists(replay): os.remove(replay)
    try:
        ctx.contracts = list(P.contracts)
        P.prove(ctx)
    except prep.CrateBroken as e:
        print('ERROR: %s' % e); return 2
    except Exception as e:
        if os.environ.get('VP_TB'): traceback.print_exc()
        ctx.secname = None
        ctx.add('within reach of the verifier', 'undecided', '%s: %s' % (type(e).__name__, str(e)[:600]))
    ctx.deadline = None
    proved = [o for o in ctx.obls if o['status'] == 'proved']
    refuted = [o for o in ctx.obls if o['status'] == 'refuted']
    und = [o for o in ctx.obls if o['status'] == 'undecided']
    vac = len(proved) == 0
    failing = None; note = None; native_ran = False
    quick = getattr(P, 'native_quick', 0)
    if refuted or und or vac or ctx.thorough or quick:
        # replay the verifier's counterexamples and search for a failing input on the real code;
        # where the composition is proved at stated bounds only, a short search always stands in for the rest
        t = time.time(); limit = 900 if ctx.thorough else 260 if refuted or und or vac else quick
        try:
            failing = falsify(ctx, P, limit)
            native_ran = True
        except prep.CrateBroken as e:
            note = 'native harness unavailable: %s' % str(e)[:400]
        except Exception as e:
            if os.environ.get('VP_TB'): traceback.print_exc()
            note = 'native search stopped: %s: %s' % (type(e).__name__, str(e)[:400])
            print('note: ' + note)
    code = 0
    for k in ctx.known: print('KNOWN-FINDING: property=%s %s' % (ctx.prop, k))
    viol = 0
    if failing is not None or refuted:
        # a refutation that replays correctly on the real code does not count
        if failing is None and native_ran and getattr(ctx, 'spurious', False) and all(o.get('hinted') for o in refuted):
            note = 'verifier counterexample does not reproduce on the real code: undecided'
        else:
            code = 1; viol = 1
    rec = dict(property=ctx.prop, failed_obligations=refuted + und, failing_input=failing, note=note,
               verifier_output=['[%s] %s %s' % (o['status'], o['name'], o['detail']) for o in ctx.obls if o['status'] != 'proved'])
    if code:
        json.dump(rec, open(replay, 'w'), indent=1, default=str)
        print('failed: ' + '; '.join(o['name'] for o in (refuted + und)[:6]))
        if failing: print('failing input: ' + json.dumps(failing, default=str)[:1500])
        print('VIOLATION property=%s replay=%s%s' % (ctx.prop, replay, '' if failing else ' no-failing-input-found'))
    write_evidence(ctx, P, proved, refuted, und, failing, viol, note, native_ran)
    nb = sum(1 for o in proved if o.get('bounded'))
    print('%s %s: %d obligations, %d discharged (%d of them at stated bounds), %d refuted, %d undecided; %d solver queries, %.1f s in the solver; %d native runs; %.1f s' %
          (ctx.prop, ctx.tier, len(ctx.obls), len(proved), nb, len(refuted), len(und), ctx.queries, ctx.solver_time, ctx.native_cases, time.time() - ctx.t0))
    if code == 0 and und: print('note: %d obligations are outside the verifier\'s reach on this tree; the bounded stand-in found no violation' % len(und))
    if ctx._nat: ctx._nat.close()
    return code

def run_case(ctx, c):
    outs = []
    for cmd in c.cmds: outs.append(cmd(ctx, outs) if callable(cmd) else ctx.nat.ask(cmd, c.timeout))
    ctx.native_cases += 1
    if any(o == 'ok unknown-command' for o in outs): return None
    if any(o in ('timeout', 'died') for o in outs): return None if c.timeout < 0 else ('the code does not answer: %s' % outs[-1] if outs[-1] == 'died' else None)
    return c.check(outs)

def falsify(ctx, P, limit):
    t = time.time()
    import itertools
    hinted = 0
    for name, h in ctx.hints:
        hs = [h] if isinstance(h, Case) else h
        for c in hs:
            r = run_case(ctx, c)
            hinted += 1
            if r is not None: return dict(case=c.desc, inputs=c.inputs or c.cmds, observed=r, obligation=name)
    if hinted:
        ctx.spurious = True
        hn = {n for n, _ in ctx.hints}
        for o in ctx.obls:
            if o['status'] == 'refuted' and any(o['name'].endswith(n) for n in hn): o['hinted'] = True
    # sizes beyond the usual thresholds always run; the rest as long as time allows
    t0 = time.time()
    def cases():
        for c in (P.scale(ctx) if hasattr(P, 'scale') else ()):
            if time.time() - t0 > 150: break
            yield c
        nonlocal t
        t = time.time()
        yield from P.falsify(ctx)
    for c in cases():
        r = run_case(ctx, c)
        if r is not None: return dict(case=c.desc, inputs=[x for x in (c.inputs or c.cmds) if not callable(x)] if isinstance(c.inputs or c.cmds, list) else c.inputs, observed=r)
        if time.time() - t > limit: break
    return None

def write_evidence(ctx, P, proved, refuted, und, failing, viol, note, native_ran):
    unb = [o for o in proved if not o.get('bounded')]
    bnd = [o for o in proved if o.get('bounded')]
    cov = dict(
        obligations=len(ctx.obls), discharged=len(proved),
        checker_cmd='python3-vt /verif/engine/check.py %s --tier %s' % (ctx.prop, ctx.tier),
        trusted_base=['rustc nightly front end (MIR generation)', 'driver/main.rs (MIR export)', 'engine/*.py (symbolic execution of MIR, loop rule, polynomial normal forms over F_r)', 'z3 (python bindings)'],
        discharged_unbounded=len(unb), discharged_bounded=len(bnd), bounds=sorted({o['bounded'] for o in bnd}),
        undecided=[dict(name=o['name'], why=o['detail']) for o in und][:40], refuted=[dict(name=o['name'], why=o['detail']) for o in refuted][:40],
        functions_under_contract=sorted(ctx.functions), contracts=ctx.contracts,
        implicit_checks=ctx.asserts, loops_by_invariant=sorted({'%s period %s %s' % (k, p, ','.join(s)) for k, p, s in ctx.loops}),
        back_end='z3 %s for bit-vector/array obligations; exact polynomial normal forms over F_r for field obligations' % z3.get_version_string(),
        solver_queries=ctx.queries, solver_seconds=round(ctx.solver_time, 2), mir_steps=ctx.steps,
        library_models_trusted=sorted(ctx.models_used), contracts_assumed_at_calls=sorted(ctx.assumed),
        native_runs=ctx.native_cases, samples=[o['name'] for o in proved[:8]], slowest=[dict(name=o['name'], s=o['t']) for o in sorted(ctx.obls, key=lambda o: -o['t'])[:5]],
        obligation_list=[dict(name=o['name'], status=o['status'], bounded=o['bounded']) for o in ctx.obls][:400],
    )
    if note: cov['note'] = note
    if failing: cov['failing_input'] = failing
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=P.level, coverage=cov, wall_s=round(time.time() - ctx.t0, 2),
              assumptions=list(GENERIC) + list(getattr(P, 'assumptions', [])), violations=viol)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', ctx.prop + '.json'), 'w'), indent=1, default=str)

GENERIC = [
    'Sequences have fewer than 2^48 elements and loops fewer than 2^50 iterations',
    'Library functions (listed in library_models_trusted) behave as their models in engine/models.py and engine/iters.py say; memory allocation succeeds',
    'File operations on regular files succeed, and one read fills its buffer up to the end of the file',
    'Wall-clock readings and floating-point timings are unconstrained; termination is not proved',
]
