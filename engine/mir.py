"""Loading of the exported MIR and the control-flow facts the executor needs."""
import json

class Mir:
    def __init__(self, path):
        with open(path) as f: d = json.load(f)
        self.types = d['types']; self.fns = d['fns']; self.insts = d['insts']; self.roots = d['roots']
        self.cfg = {}
    def tyname(self, t):
        d = self.types[t]
        k = d['k']
        if k in ('int', 'float'): return d['name']
        if k == 'adt': return d['name'] + ('<' + ','.join(self.tyname(a) if isinstance(a, int) else str(a['const']) for a in d['args']) + '>' if d['args'] else '')
        if k == 'ref': return '&' + ('mut ' if d['mut'] else '') + self.tyname(d['e'])
        if k == 'ptr': return '*' + self.tyname(d['e'])
        if k == 'slice': return '[' + self.tyname(d['e']) + ']'
        if k == 'array': return '[%s;%s]' % (self.tyname(d['e']), d['n'])
        if k == 'tuple': return '(' + ','.join(self.tyname(a) for a in d['f']) + ')'
        if k == 'closure': return 'closure#%d' % d['inst']
        if k == 'fndef': return 'fn:' + self.fns[d['fn']]['decl']
        return k
    def info(self, iid):
        c = self.cfg.get(iid)
        if c is None:
            c = self.cfg[iid] = Cfg(self.insts[iid]['body'])
        return c

def succs(t):
    k = t[0]
    if k == 'goto': return [t[1]]
    if k == 'switch': return [b for _, b in t[2]] + [t[3]]
    if k == 'drop': return [t[2]]
    if k == 'call': return [t[4]] if t[4] is not None else []
    if k == 'assert': return [t[4]]
    return []

def place_reads(p, acc):
    acc.add(p[0])
    for e in p[1]:
        if isinstance(e, list) and e[0] == 'i': acc.add(e[1])

def op_reads(o, acc):
    if o[0] in ('c', 'm'): place_reads(o[1], acc)

def rv_reads(r, acc, addr):
    k = r[0]
    if k in ('addr', 'discr', 'len'):
        place_reads(r[1], acc)
        if k == 'addr' and '*' not in r[1][1]: addr.add(r[1][0])
    elif k == 'ref':
        place_reads(r[2], acc)
        if '*' not in r[2][1]: addr.add(r[2][0])
    elif k == 'agg':
        for o in r[2]: op_reads(o, acc)
    elif k in ('bin', 'cbin'):
        op_reads(r[2], acc); op_reads(r[3], acc)
    elif k == 'cast': op_reads(r[2], acc)
    elif k in ('rep', 'use'): op_reads(r[1], acc)
    elif k == 'un': op_reads(r[2], acc)

class Cfg:
    def __init__(self, body):
        self.blocks = body['blocks']
        n = len(self.blocks)
        self.succ = [succs(b['t']) for b in self.blocks]
        # reachable from 0 without unwinding
        seen = {0}; st = [0]
        while st:
            b = st.pop()
            for s in self.succ[b]:
                if s not in seen: seen.add(s); st.append(s)
        self.reach = seen
        # blocks that can reach a return
        self.pred = [[] for _ in range(n)]
        for b in seen:
            for s in self.succ[b]: self.pred[s].append(b)
        rets = [b for b in seen if self.blocks[b]['t'][0] == 'ret']
        can = set(rets); st = list(rets)
        while st:
            b = st.pop()
            for p in self.pred[b]:
                if p not in can: can.add(p); st.append(p)
        self.can = can
        # post-dominators over blocks in `can` (virtual exit = n)
        order = self._postorder()
        self.ipdom = self._ipdoms(rets, n)
        self.back = self._loops()
        self._liveness(n, body)
    def _postorder(self):
        seen = set(); out = []
        st = [(0, iter(self.succ[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(self.succ[s]))); break
            else:
                out.append(b); st.pop()
        self.rpo = out[::-1]
        return out
    def _ipdoms(self, rets, n):
        # iterative dominators on the reversed graph
        EXIT = n
        nodes = [b for b in self.can]
        succ = {b: [s for s in self.succ[b] if s in self.can] for b in nodes}
        for r in rets: succ[r] = [EXIT]
        pred = {b: [] for b in nodes}; pred[EXIT] = []
        for b in nodes:
            for s in succ[b]: pred[s].append(b)
        seen = {EXIT}; out = []; st = [(EXIT, iter(pred[EXIT]))]
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(pred[s]))); break
            else:
                out.append(b); st.pop()
        rpo = out[::-1]; num = {b: i for i, b in enumerate(rpo)}
        idom = {EXIT: EXIT}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == EXIT: continue
                new = None
                for s in succ[b]:
                    if s in idom:
                        if new is None: new = s
                        else:
                            x, y = s, new
                            while x != y:
                                while num[x] > num[y]: x = idom[x]
                                while num[y] > num[x]: y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new; ch = True
        return {b: (None if idom[b] == EXIT else idom[b]) for b in idom if b != EXIT}
    def _loops(self):
        """headers: target of a DFS back edge -> set of body blocks (natural loop)."""
        color = {}; heads = {}
        st = [(0, iter(self.succ[0]))]; color[0] = 1
        backs = []
        while st:
            b, it = st[-1]
            for s in it:
                c = color.get(s, 0)
                if c == 1: backs.append((b, s))
                elif c == 0:
                    color[s] = 1; st.append((s, iter(self.succ[s]))); break
            else:
                color[b] = 2; st.pop()
        for t, h in backs:
            body = heads.setdefault(h, {h})
            w = [t]
            while w:
                x = w.pop()
                if x not in body:
                    body.add(x)
                    w.extend(self.pred[x])
        return heads
    def _liveness(self, n, body):
        use = [set() for _ in range(n)]; defs = [set() for _ in range(n)]
        self.addr = set()
        for b in self.reach:
            u, d = use[b], defs[b]
            for s in self.blocks[b]['s']:
                if s[0] == '=':
                    acc = set(); rv_reads(s[2], acc, self.addr)
                    if s[1][1]: place_reads(s[1], acc)
                    u |= acc - d
                    if not s[1][1]: d.add(s[1][0])
                elif s[0] == 'sd':
                    if s[1][0] not in d: u.add(s[1][0])
            t = self.blocks[b]['t']; acc = set()
            if t[0] == 'switch': op_reads(t[1], acc)
            elif t[0] == 'assert': op_reads(t[1], acc)
            elif t[0] == 'call':
                op_reads(t[1], acc)
                for o in t[2]: op_reads(o, acc)
                if t[3][1]: place_reads(t[3], acc)
            elif t[0] == 'ret': acc.add(0)
            u |= acc - d
            if t[0] == 'call' and not t[3][1]: d.add(t[3][0])
        live = [set() for _ in range(n)]
        ch = True
        order = [b for b in reversed(self.rpo)]
        while ch:
            ch = False
            for b in order:
                o = set()
                for s in self.succ[b]: o |= live[s]
                i = use[b] | (o - defs[b])
                if i != live[b]: live[b] = i; ch = True
        self.live = live
