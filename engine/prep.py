"""Scratch copies of the crates under verification, MIR export and native harness builds.

Nothing is written under /repo: a crate is copied to a scratch directory, the entry points (roots/*.rs) or the replay
harness (harness/*.rs) are added there as one extra module, and the copy is compiled."""
import os, sys, re, subprocess, shutil, tempfile, hashlib, atexit, json, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
_scratch = None

class CrateBroken(Exception): pass

def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vp-run-')
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch

def env(toolchain):
    e = dict(os.environ)
    e['HOME'] = '/root'
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['RUSTUP_TOOLCHAIN'] = toolchain
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_BUILD_TARGET'): e.pop(k, None)
    return e
STABLE = 'stable-x86_64-unknown-linux-gnu'
NIGHTLY = 'nightly'

CRATES = {
    'space': dict(dir='proof_of_space', name='proof_of_space', main='src/main.rs', drop=()),
    'storage': dict(dir='proof_of_storage', name='proof_of_storage', main='src/main.rs', drop=('zk_vde',)),
}

def tree_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds.sort()
                if 'target' in ds: ds.remove('target')
                if 'data' in ds: ds.remove('data')
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(os.path.relpath(q, p).encode()); h.update(open(q, 'rb').read())
        else: h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]

def copy_crate(which, dst):
    c = CRATES[which]
    src = os.path.join(REPO, c['dir'])
    def ign(d, names): return [n for n in names if n in ('target', 'data', '.git')]
    shutil.copytree(src, dst, ignore=ign)
    lock = os.path.join(dst, 'Cargo.lock')
    if not os.path.exists(lock): shutil.copy(os.path.join(VERIF, 'locks', c['name'] + '.lock'), lock)
    with open(os.path.join(dst, 'Cargo.toml'), 'a') as f: f.write('\n[workspace]\n')
    return dst

def crate_root(dst, which):
    for m in ('src/main.rs', 'src/lib.rs'):
        p = os.path.join(dst, m)
        if os.path.exists(p): return p
    raise CrateBroken('no crate root')

def drop_mods(path, mods):
    s = open(path).read()
    for m in mods: s = re.sub(r'(?m)^\s*(pub\s+)?mod\s+%s\s*;' % m, '', s)
    open(path, 'w').write(s)

def driver():
    """the MIR exporter, a rustc driver linked against rustc_private"""
    src = os.path.join(VERIF, 'driver', 'main.rs')
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, 'drv-' + tree_hash(src))
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        r = subprocess.run(['rustc', '--edition', '2021', '-O', src, '-o', tmp], env=env(NIGHTLY), capture_output=True, text=True)
        if r.returncode: raise RuntimeError('driver does not build: ' + r.stderr[-2000:])
        os.rename(tmp, out)
    return out

def strip_lines(text, err, fname):
    """remove the one-line items of `fname` the compiler complains about"""
    bad = set(int(x) for x in re.findall(r'-->\s*src/%s:(\d+):' % re.escape(fname), err))
    lines = text.split('\n')
    n = 0
    for b in bad:
        if b <= len(lines) and lines[b - 1].startswith('pub fn '):
            lines[b - 1] = ''; n += 1
    return '\n'.join(lines), n

def mir(which):
    """-> path of the exported MIR of the crate's current source, and the entry points that no longer compile"""
    c = CRATES[which]
    roots = os.path.join(VERIF, 'roots', which + '.rs')
    h = tree_hash(os.path.join(REPO, c['dir']), roots, os.path.join(VERIF, 'driver', 'main.rs'))
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, 'mir-%s-%s.json' % (which, h))
    if os.path.exists(out) and os.path.exists(out + '.meta'):
        return out, json.load(open(out + '.meta'))
    drv = driver()
    dst = copy_crate(which, os.path.join(scratch(), 'mir-' + which))
    main = crate_root(dst, which)
    drop_mods(main, c['drop'])
    with open(main, 'a') as f: f.write('\n#[allow(dead_code, unused)] pub mod vp_roots;\n')
    e = env(NIGHTLY)
    sysroot = subprocess.run(['rustc', '--print', 'sysroot'], env=e, capture_output=True, text=True).stdout.strip()
    tmp = os.path.join(scratch(), 'mir-%s.json' % which)
    e.update(LD_LIBRARY_PATH=sysroot + '/lib', VP_CRATE=c['name'], VP_OUT=tmp, RUSTC_WORKSPACE_WRAPPER=drv,
             CARGO_TARGET_DIR=os.path.join(CACHE, 'tgt-mir-' + which) if os.path.isdir(os.path.join(CACHE, 'keep')) else os.path.join(scratch(), 'tgt-mir'))
    text = open(roots).read(); dropped = []
    for attempt in range(6):
        open(os.path.join(dst, 'src', 'vp_roots.rs'), 'w').write(text)
        if os.path.exists(tmp): os.remove(tmp)
        r = subprocess.run(['cargo', 'check', '--offline', '--bins' if main.endswith('main.rs') else '--lib'], cwd=dst, env=e, capture_output=True, text=True)
        if r.returncode == 0 and os.path.exists(tmp): break
        new, n = strip_lines(text, r.stderr, 'vp_roots.rs')
        if n == 0: raise CrateBroken('crate %s does not compile:\n%s' % (which, r.stderr[-3000:]))
        dropped += [re.match(r'pub fn (\w+)', a).group(1) for a, b in zip(text.split('\n'), new.split('\n')) if a != b]
        text = new
    else: raise CrateBroken('crate %s does not compile with the entry points' % which)
    t2 = out + '.%d' % os.getpid()
    shutil.copy(tmp, t2); os.rename(t2, out)
    meta = {'dropped': dropped, 'hash': h}
    json.dump(meta, open(out + '.meta', 'w'))
    prune()
    return out, meta

def prune():
    fs = sorted((os.path.getmtime(os.path.join(CACHE, f)), f) for f in os.listdir(CACHE) if f.startswith(('mir-', 'nat-')))
    for _, f in fs[:-16]:
        try: os.remove(os.path.join(CACHE, f))
        except OSError: pass

def native(which):
    """build the replay harness around the crate's current source -> executable"""
    c = CRATES[which]
    hsrc = os.path.join(VERIF, 'harness', which + '.rs')
    ctor = os.path.join(VERIF, 'harness', which + '_ctors.json')
    hh = [os.path.join(REPO, c['dir']), hsrc] + ([ctor] if os.path.exists(ctor) else [])
    out = os.path.join(CACHE, 'nat-%s-%s' % (which, tree_hash(*hh)))
    if os.path.exists(out): return out
    os.makedirs(CACHE, exist_ok=True)
    dst = copy_crate(which, os.path.join(scratch(), 'nat-' + which))
    main = crate_root(dst, which)
    drop_mods(main, c['drop'])
    s = open(main).read()
    s = re.sub(r'\bfn\s+main\s*\(', 'fn __orig_main(', s)
    s += '\n#[allow(dead_code, unused)] pub mod vp_harness;\nfn main() { vp_harness::main() }\n'
    open(main, 'w').write(s)
    if os.path.exists(ctor):
        for f, t in json.load(open(ctor)).items():
            p = os.path.join(dst, f)
            if os.path.exists(p):
                with open(p, 'a') as g: g.write('\n' + t + '\n')
    e = env(STABLE)
    e.update(CARGO_PROFILE_DEV_OPT_LEVEL='1', CARGO_PROFILE_DEV_DEBUG='0', CARGO_INCREMENTAL='0',
             CARGO_TARGET_DIR=os.path.join(CACHE, 'tgt-nat-' + which) if os.path.isdir(os.path.join(CACHE, 'keep')) else os.path.join(scratch(), 'tgt-nat'))
    text = open(hsrc).read()
    for attempt in range(6):
        open(os.path.join(dst, 'src', 'vp_harness.rs'), 'w').write(text)
        r = subprocess.run(['cargo', 'build', '--offline'], cwd=dst, env=e, capture_output=True, text=True)
        if r.returncode == 0: break
        # a command whose function no longer exists with this signature is dropped
        bad = set(int(x) for x in re.findall(r'-->\s*src/vp_harness.rs:(\d+):', r.stderr))
        lines = text.split('\n'); n = 0
        for b in bad:
            if b <= len(lines) and lines[b - 1].lstrip().startswith('"'): lines[b - 1] = ''; n += 1
        if n == 0: raise CrateBroken('native harness does not build:\n' + r.stderr[-3000:])
        text = '\n'.join(lines)
    else: raise CrateBroken('native harness does not build')
    tgt = e['CARGO_TARGET_DIR']
    exe = os.path.join(tgt, 'debug', c['name'])
    t2 = out + '.%d' % os.getpid()
    shutil.copy(exe, t2); os.rename(t2, out)
    prune()
    return out

class Native:
    """line-oriented conversation with the harness process"""
    def __init__(self, which):
        self.exe = native(which)
        self.dir = os.path.join(scratch(), 'natcwd-%d' % os.getpid()); os.makedirs(self.dir, exist_ok=True)
        self.p = None
        self.calls = 0
    def start(self):
        self.p = subprocess.Popen([self.exe], cwd=self.dir, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    def ask(self, line, timeout=120):
        import select
        if self.p is None or self.p.poll() is not None: self.start()
        self.calls += 1
        try:
            self.p.stdin.write(line + '\n'); self.p.stdin.flush()
        except BrokenPipeError:
            self.p = None
            return 'died'
        end = time.time() + timeout
        buf = getattr(self, 'buf', '')
        fd = self.p.stdout.fileno()
        while True:
            while '\n' in buf:
                l, buf = buf.split('\n', 1)
                if l.startswith('@@'):
                    self.buf = buf
                    return l[2:].strip()
            w = end - time.time()
            if w <= 0: self.kill(); return 'timeout'
            r, _, _ = select.select([fd], [], [], w)
            if r:
                d = os.read(fd, 1 << 20).decode(errors='replace')
                if not d: self.kill(); return 'died'
                buf += d
    def kill(self):
        if self.p is not None:
            self.p.kill(); self.p.wait(); self.p = None
        self.buf = ''
    def close(self): self.kill()

if __name__ == '__main__':
    print('MIR exporter:', driver())
