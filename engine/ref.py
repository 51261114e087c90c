"""Reference semantics over plain integers (used for replay on the real code)."""
from poly import R
def df(xl, xr, cs, e):
    for c in cs: xl, xr = (xr + pow(xl + c, e, R)) % R, xl
    return xl
def hash1(x, k, cs, e):
    h = 0
    for i, c in enumerate(cs):
        t = (x + k) % R if i == 0 else (h + k + c) % R
        h = pow(t, e, R)
    return (h + k) % R
def multi(xs, k, cs, e):
    r = k
    for x in xs: r = (r + x + hash1(x, r, cs, e)) % R
    return r
def hx(x): return '%x' % (x % R)
def hxs(l): return ','.join(hx(x) for x in l) if l else '-'
def h64(x): return '%064x' % (x % R)
def bits(l): return ''.join('1' if b else '0' for b in l) if l else '-'
def hexb(bs): return ''.join('%02x' % b for b in bs) if bs else '-'
def b2b(bs): return [bool((b >> i) & 1) for b in bs for i in range(8)]
def unb(l):
    out = []
    for i in range(0, len(l), 8): out.append(sum(1 << j for j, b in enumerate(l[i:i + 8]) if b))
    return out
def edge(rnd, i):
    """field elements with the edges first"""
    E = [0, 1, R - 1, 2, (R - 1) // 2, 1 << 254, R - 2]
    return E[i] if i < len(E) else rnd.randrange(R)
