#!/usr/bin/env python3
"""Driver: `run.py ID` decides one property against /repo's working tree; `run.py setup` builds everything.
Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken. Exit 2: the check itself failed."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
TARGET = os.path.join(HERE, 'target')
TIER = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NCPU = os.cpu_count() or 4

# name -> (cargo profile, features)
VARIANTS = {
    'std-chk': ('chk', ['std']),      # optimized, debug assertions and overflow checks
    'std-rel': ('rel', ['std']),      # as shipped
    'nostd-chk': ('chk', []),
    'nostd-rel': ('rel', []),
}


class CheckError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(('CARGO_PROFILE', 'CARGO_BUILD', 'RUSTFLAGS', 'CARGO_ENCODED', 'RUSTC_W', 'MIRIFLAGS', 'CARGO_TARGET')):
            del e[k]
    e.update(RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', LC_ALL='C')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    return e


def repo_stamp():
    """Content hash of everything a build of /repo's library reads."""
    h = hashlib.sha256()
    files = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ('.git', 'target'))
        files += [os.path.join(d, f) for f in fs if f.endswith('.rs') or f == 'Cargo.toml' or '/src/' in d + '/']
    for f in sorted(files):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()


def locked(name):
    os.makedirs(TARGET, exist_ok=True)
    f = open(os.path.join(TARGET, name + '.lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def cargo(args, cwd, e=None, timeout=800):
    r = subprocess.run(['cargo'] + args, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
    return r.returncode, r.stdout


BACK_ENDS = ('words', 'compress_portable', 'compress8_portable', 'force_portable', 'force_portable_blake2sp', 'compress8_avx2', 'compress_sse41',
             'compress4_transposed_sse41', 'compress8_transposed_all_avx2', 'compress8_vectorized_avx2')


def hidden():
    """The features (no_X) for back ends that a build of this tree found not to be shown; None: not looked for."""
    try:
        with open(os.path.join(TARGET, 'shown.json')) as f:
            d = json.load(f)
        return d['no'] if d['stamp'] == repo_stamp() else None
    except (OSError, ValueError):
        return None


def probe():
    """A build failed: does the tree show every back end under its signature (mc/src/bm.rs)?"""
    lock = locked('probe')
    try:
        no = hidden()
        if no is None:
            stamp = repo_stamp()
            d, td = os.path.join(HERE, 'probe'), os.path.join(TARGET, 'probe')
            cargo(['clean', '--offline', '-p', 'blake2s_simd', '--target-dir', td], d)
            every = ['no_' + x for x in BACK_ENDS]
            ok = lambda l: cargo(['check', '--offline', '--target-dir', td, '--features', ','.join(l)], d)[0] == 0
            no = []
            if ok(every):
                no = [x for x in every if not ok([y for y in every if y != x and not (y == 'no_words' and x == 'no_compress8_vectorized_avx2')])]
            with open(os.path.join(TARGET, 'shown.json'), 'w') as f:
                json.dump({'stamp': stamp, 'no': no}, f)
        return no
    finally:
        lock.close()


def cargo_build(args, feats, cwd, e=None):
    """cargo build; without the back ends that this tree does not show, if it is they that do not compile."""
    fl = lambda no: ['--features', ','.join(feats + no)] if feats + no else []
    known = hidden()
    rc, out = cargo(args + fl(known or []), cwd, e)
    if rc and known is None:
        no = probe()
        if no:
            rc, out = cargo(args + fl(no), cwd, e)
    return rc, out


def build(variant):
    """Build mc against /repo's working tree; returns the binary's path."""
    prof, feats = VARIANTS[variant]
    td = os.path.join(TARGET, variant)
    lock = locked(variant)
    try:
        stamp, sf = repo_stamp(), os.path.join(td, 'repo.stamp')
        old = open(sf).read() if os.path.exists(sf) else None
        base = ['--offline', '--profile', prof, '--target-dir', td]
        if old is not None and old != stamp:
            # Never trust modification times for the code under test.
            cargo(['clean', '--offline', '-p', 'blake2s_simd', '--profile', prof, '--target-dir', td], os.path.join(HERE, 'mc'))
            os.unlink(sf)
        rc, out = cargo_build(['build'] + base, list(feats), os.path.join(HERE, 'mc'))
        if rc:
            raise CheckError('build of %s failed:\n%s' % (variant, out[-6000:]))
        with open(sf, 'w') as f:
            f.write(stamp)
    finally:
        lock.close()
    return os.path.join(td, prof, 'mc')


def hashlib_vectors():
    """Vectors for the reference model from an independent implementation (CPython's hashlib)."""
    L = []
    hx = lambda b: b.hex() or '-'
    x = 1
    def num(n):
        nonlocal x
        x = (x * 6364136223846793005 + 1442695040888963407) % 2**64
        return (x >> 33) % n
    def add(msg, out=32, fanout=1, depth=1, leaf=0, noff=0, nd=0, inner=0, last=False, key=b'', salt=b'', pers=b''):
        d = hashlib.blake2s(msg, digest_size=out, key=key, salt=salt, person=pers, fanout=fanout, depth=depth, leaf_size=leaf,
                            node_offset=noff, node_depth=nd, inner_size=inner, last_node=last).digest()
        L.append(' '.join(map(str, ['s', out, fanout, depth, leaf, noff, nd, inner, int(last), hx(key), hx(salt), hx(pers), hx(msg), d.hex()])))
    for n in list(range(0, 300)) + [511, 512, 513, 1000, 4096, 5000]:
        add(bytes((i * 31 + n) % 256 for i in range(n)))
    for k in range(33):
        for n in (0, 1, 64, 65, 200):
            add(bytes(range(n % 251)), key=bytes(range(k)), out=1 + (k + n) % 32)
    for i in range(600):
        rb = lambda m: bytes(num(256) for _ in range(num(m + 1)))
        add(rb(260), out=1 + num(32), fanout=num(256), depth=1 + num(255), leaf=num(2**31) * 2 + num(2), noff=(num(2**24) << 24) + num(2**24),
            nd=num(256), inner=num(33), last=bool(num(2)), key=rb(32), salt=rb(8), pers=rb(8))
    # BLAKE2sp, digest length 32, no key: leaves and root through hashlib's tree parameters.
    for n in list(range(0, 1700, 61)) + [64, 448, 449, 512, 513, 960, 961, 1024, 1025]:
        m = bytes((i * i + n) % 253 for i in range(n))
        r = hashlib.blake2s(digest_size=32, fanout=8, depth=2, node_offset=0, node_depth=1, inner_size=32, last_node=True)
        for i in range(8):
            h = hashlib.blake2s(digest_size=32, fanout=8, depth=2, node_offset=i, node_depth=0, inner_size=32, last_node=i == 7)
            for j in range(64 * i, n, 512):
                h.update(m[j:j + 64])
            r.update(h.digest())
        L.append('p 32 - %s %s' % (hx(m), r.hexdigest()))
    return '\n'.join(L) + '\n'


def refcheck(binary):
    """The reference model must agree with hashlib, the official vectors and a Python transcription."""
    total = 0
    tmp = os.path.join(TARGET, 'vectors-%d.txt' % os.getpid())
    with open(tmp, 'w') as f:
        f.write(hashlib_vectors())
    try:
        for v in (tmp, os.path.join(HERE, 'mc', 'vectors_sp.txt')):
            r = subprocess.run([binary, 'refcheck', v], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env(), timeout=120)
            w = r.stdout.split()
            if r.returncode or len(w) != 3 or w[0] != 'refcheck':
                raise CheckError('reference model check failed: %s %s' % (r.stdout, r.stderr[-2000:]))
            total += int(w[1])
    finally:
        os.unlink(tmp)
    return total


class Result:
    """What one property's check covered, over all stages."""
    def __init__(self, pid):
        self.pid, self.states, self.transitions, self.traces, self.outcomes = pid, 0, 0, 0, 0
        self.samples, self.stages, self.viol, self.notes, self.assumptions = [], [], [], [], []
        self.limited = []
        self.extra = {}

    def add(self, stage, d):
        for k in ('states', 'transitions', 'traces', 'outcomes'):
            setattr(self, k, getattr(self, k) + d.get(k, 0))
        self.samples += ['[%s] %s' % (stage, s) for s in d.get('samples', [])[:6]]
        self.stages.append({'stage': stage, **{k: d[k] for k in ('states', 'transitions', 'traces', 'outcomes', 'seconds', 'notes') if k in d}})
        for v in d.get('violations', []):
            self.viol.append(dict(v, stage=stage))


SPARE = 90  # seconds that a stage which is asked to stop may still take


def run_mc(res, variant, binary, pid=None, timeout=840, extra=(), stage=None, argv=None, environ={}):
    """One exploration in its own process."""
    pid = pid or res.pid
    stage = stage or variant
    out = os.path.join(TARGET, 'out-%s-%s-%d.json' % (pid, stage.replace('/', '_'), os.getpid()))
    if os.path.exists(out):
        os.unlink(out)
    if timeout <= SPARE:
        res.limited.append('%s: not run, out of time' % stage)
        return
    environ = dict(environ, MC_UNTIL=str(int(time.time() + timeout - SPARE)))
    try:
        r = subprocess.run(argv(out) if argv else [binary, 'run', pid, TIER, out, *extra], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(env(), **environ), timeout=timeout, errors='replace')
    except subprocess.TimeoutExpired:
        raise CheckError('stage %s did not finish in %d s' % (stage, timeout))
    d = None
    if os.path.exists(out):
        try:
            d = json.load(open(out))
        finally:
            os.unlink(out)
    if r.returncode in (0, 1) and d is not None and (r.returncode == 1) == bool(d['violations']):
        res.add(stage, d)
        if d.get('notes', {}).get('out of time'):
            res.limited.append('%s: out of time before the end of the case list' % stage)
        return
    for l in r.stdout.splitlines():
        if l.startswith(('CRASH ', 'HARNESS-CRASH ')):
            w = l.split()
            case = [int(x) for x in w[2].split('=')[1].split(',') if x]
            ok = l.startswith('CRASH ')
            if not ok:
                # A crash outside a call is the machinery's own, unless the case alone shows it inside a call.
                rr = subprocess.run([binary, 'replay', pid, ','.join(map(str, case))], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env(), timeout=120, errors='replace')
                ok = rr.returncode == 1 or '\nCRASH ' in '\n' + rr.stdout
            if ok:
                res.add(stage, {'violations': [{'case': case, 'msg': 'the code under test ended with ' + w[1]}]})
                return
    raise CheckError('stage %s ended with %s\n%s\n%s' % (stage, r.returncode, r.stdout[-2000:], r.stderr[-2000:]))


def generic(*variants):
    def f(res, deadline):
        first = True
        for v in variants:
            b = build(v)
            if first:
                res.extra['reference_vectors_checked'] = refcheck(b)
                first = False
            run_mc(res, v, b, timeout=deadline - time.time())
    return f


CHECKS = {}
for _p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C14', 'C15', 'C16', 'C18'):
    CHECKS[_p] = generic('std-chk', 'std-rel', 'nostd-chk')


def c12(res, deadline):
    """Two builds side by side: the portable one is slow and has few jobs."""
    import threading
    bs = {v: build(v) for v in ('std-rel', 'nostd-rel')}
    res.extra['reference_vectors_checked'] = refcheck(bs['std-rel'])
    errs = []

    def go(v):
        try:
            run_mc(res, v, bs[v], timeout=deadline - time.time())
        except Exception as e:
            errs.append(e)
    ts = [threading.Thread(target=go, args=(v,)) for v in bs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs and not res.viol:
        raise errs[0]


CHECKS['C12'] = c12


# ---- other machines: mm natively (for the tape and the case list), as 32-bit x86, and under Miri ----

def mm_dir():
    return os.path.join(HERE, 'mm')


def forget(td, stamp):
    """Never trust modification times for the code under test: drop its build products when its content changed."""
    sf = os.path.join(td, 'repo.stamp')
    old = open(sf).read() if os.path.exists(sf) else None
    if old is not None and old != stamp:
        os.unlink(sf)
        for d, ds, fs in os.walk(td):
            for x in list(ds):
                if os.path.basename(d) == '.fingerprint' and (x.startswith('blake2s_simd-') or x.startswith('mm-')):
                    shutil.rmtree(os.path.join(d, x))
                    ds.remove(x)
    return sf


# Other ways to compile the same code: features, profile, settings.
V3 = {'RUSTFLAGS': '-C target-cpu=x86-64-v3'}
SMALL = {'CARGO_PROFILE_RELEASE_OPT_LEVEL': 's', 'CARGO_PROFILE_RELEASE_LTO': 'fat', 'CARGO_PROFILE_RELEASE_CODEGEN_UNITS': '1', 'CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS': 'false'}
PLAINEST = {'CARGO_PROFILE_DEV_OPT_LEVEL': '0'}
# name -> features, profile, settings, the extensions of the least CPU that the build is for (None: runs as it is on this machine's CPU)
V2 = {'ssse3', 'sse41', 'sse42', 'popcnt'}
BUILDS = {
    'unoptimized-std': ('std', 'dev', PLAINEST, None), 'unoptimized-nostd': ('cpuid', 'dev', PLAINEST, None),
    'small-std': ('std', 'release', SMALL, None),
    'avx2-std': ('std,cpuid', 'release', V3, V2 | {'avx', 'avx2', 'bmi1', 'bmi2', 'fma', 'f16c', 'movbe', 'abm'}),
    'avx2-nostd': ('cpuid', 'release', V3, V2 | {'avx', 'avx2', 'bmi1', 'bmi2', 'fma', 'f16c', 'movbe', 'abm'}),
    'avx-nostd': ('cpuid', 'release', {'RUSTFLAGS': '-C target-feature=+avx'}, V2 | {'avx'}),
    'sse41-std': ('std,cpuid', 'release', {'RUSTFLAGS': '-C target-feature=+sse4.1'}, {'ssse3', 'sse41'}),
    'sse41-nostd': ('cpuid', 'release', {'RUSTFLAGS': '-C target-feature=+sse4.1'}, {'ssse3', 'sse41'}),
    'ssse3-nostd': ('cpuid', 'release', {'RUSTFLAGS': '-C target-feature=+ssse3'}, {'ssse3'}),
}


def mm_build(kind):
    """kind: host, native32, cpu-std, cpu-nostd, or one of BUILDS."""
    td = os.path.join(TARGET, 'mm-' + kind)
    lock = locked('mm-' + kind)
    try:
        stamp = repo_stamp()
        sf = forget(td, stamp)
        e = env()
        out = os.path.join(td, 'release', 'mm')
        if kind == 'native32':
            e['RUSTUP_TOOLCHAIN'] = 'nightly'
            e['RUSTFLAGS'] = '-C relocation-model=static -C linker=gcc -C link-arg=-m32 -C link-arg=-nostartfiles -C link-arg=-nostdlib -C link-arg=-static'
            args = ['build', '-Zbuild-std=core,alloc,compiler_builtins', '-Zbuild-std-features=compiler-builtins-mem', '--target', 'i686-unknown-linux-gnu']
            feats = 'native32'
            out = os.path.join(td, 'i686-unknown-linux-gnu', 'release', 'mm')
        else:
            feats, profile, more = BUILDS[kind][:3] if kind in BUILDS else ({'host': 'std', 'cpu-std': 'std,cpuid', 'cpu-nostd': 'cpuid'}[kind], 'release', {})
            e.update(more)
            args = ['build']
            if profile == 'dev':
                args.append('--profile=dev')
                out = os.path.join(td, 'debug', 'mm')
        rc, o = cargo_build(args + ['--offline'] + ([] if '--profile=dev' in args else ['--release']) + ['--target-dir', td], feats.split(','), mm_dir(), e)
        if rc:
            raise CheckError('build of mm (%s) failed:\n%s' % (kind, o[-6000:]))
        os.makedirs(td, exist_ok=True)
        with open(sf, 'w') as f:
            f.write(stamp)
    finally:
        lock.close()
    return out


def sysroot(target):
    d = os.path.join(TARGET, 'miri', 'sysroot-' + target)
    lock = locked('miri-' + target)
    try:
        if not os.path.exists(os.path.join(d, '.ok')):
            e = env()
            e.update(RUSTUP_TOOLCHAIN='nightly', MIRI_SYSROOT=d)
            rc, o = cargo(['miri', 'setup', '--target', target], mm_dir(), e)
            if rc:
                raise CheckError('miri setup for %s failed:\n%s' % (target, o[-3000:]))
            open(os.path.join(d, '.ok'), 'w').close()
    finally:
        lock.close()
    return d


def parse_mm(res, stage, out, err, rc, shard):
    """Returns (states, compared) or records a violation."""
    last, done, fails = None, None, []
    for l in out.splitlines():
        if l.startswith('CASE '):
            last = json.loads(l[5:])
        elif l.startswith('DONE '):
            done = [int(x) for x in l.split()[1:]]
        elif l.startswith('FAIL '):
            fails.append({'case': last, 'msg': 'case %s: %s' % (last, l[5:])})
        elif l.startswith('PANIC '):
            fails.append({'case': last, 'msg': 'case %s panicked: %s' % (last, l[6:])})
    if not fails and rc not in (0, 125):
        i = err.find('Undefined Behavior')
        p = err.find('panicked at')
        if last is None:
            raise CheckError('stage %s ended with %s\n%s\n%s' % (stage, rc, out[-1000:], err[-3000:]))
        if i >= 0:
            fails.append({'case': last, 'msg': 'case %s: %s' % (last, err[i:i + 800])})
        elif p >= 0:
            fails.append({'case': last, 'msg': 'case %s %s' % (last, err[p:p + 400])})
        elif 'unsupported operation' in err:
            res.limited.append('%s: the interpreter does not support an operation of case %s' % (stage, last))
        elif rc < 0:
            fails.append({'case': last, 'msg': 'case %s ended with signal %d' % (last, -rc)})
        elif rc == 124:
            fails.append({'case': last, 'msg': 'case %s does not end' % last})
        else:
            raise CheckError('stage %s ended with %s\n%s\n%s' % (stage, rc, out[-1000:], err[-3000:]))
    if rc == 125:
        res.limited.append('%s: out of time in shard %d, after case %s' % (stage, shard, last))
    if done is None and not fails and not res.limited:
        raise CheckError('stage %s: no result' % stage)
    res.viol += [dict(f, stage=stage) for f in fails]
    return (done[0], done[1]) if done else (0, 0)


def pool(jobs, n=None):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(n or NCPU) as ex:
        return [f.result() for f in [ex.submit(*j) for j in jobs]]


def run_one(argv, e, cwd, timeout, quiet=200):
    """(code, stdout, stderr). Code 124: nothing was printed for `quiet` seconds (a case that does not end); 125: out of time."""
    import selectors
    p = subprocess.Popen(argv, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, start_new_session=True)
    out, end, last, code = {p.stdout: [], p.stderr: []}, time.time() + timeout, time.time(), None
    sel = selectors.DefaultSelector()
    for f in out:
        sel.register(f, selectors.EVENT_READ)
    while sel.get_map():
        now = time.time()
        if now > end or now > last + quiet:
            code = 124 if now > last + quiet else 125
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            break
        for k, _ in sel.select(min(end - now, last + quiet - now, 5)):
            b = os.read(k.fileobj.fileno(), 1 << 16)
            if b:
                out[k.fileobj].append(b)
                last = time.time()
            else:
                sel.unregister(k.fileobj)
    sel.close()
    rc = p.wait()
    for f in out:
        f.close()
    o, er = (b''.join(out[f]).decode('utf8', 'replace') for f in out)
    return rc if code is None else code, o, er


BORROWS = '-Zmiri-disable-isolation -Zmiri-tree-borrows'
PLAIN = '-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmir-opt-level=3'


def miri_env(target, flags, rustflags=''):
    e = env()
    e.update(RUSTUP_TOOLCHAIN='nightly', MIRI_SYSROOT=sysroot(target), MIRIFLAGS=flags)
    if rustflags:
        e['RUSTFLAGS'] = rustflags
    return e


def miri_argv(target, feats):
    feats = ','.join([x for x in feats.split(',') if x] + (hidden() or []))
    return ['cargo', 'miri', 'run', '--offline', '--target', target, '--target-dir', os.path.join(TARGET, 'miri', 'build-' + target)] + (['--features', feats] if feats else []) + ['--']


def miri(res, target, flags, feats='', rustflags='', deadline=0):
    """The suite under Miri, sharded; expected values from a native run's tape."""
    t0 = time.time()
    stage = 'miri-' + target.split('-')[0]
    host = mm_build('host')
    e = miri_env(target, flags, rustflags)
    level = '1' if TIER == 'thorough' else '0'
    td = os.path.join(TARGET, 'miri', 'build-' + target)
    lock = locked('miri-build-' + target)
    tapes = []
    try:
        stamp = repo_stamp()
        sf = forget(td, stamp)
        n = 8 if TIER == 'quick' else 32
        def tape(i):
            f = os.path.join(TARGET, 'tape-%s-%d-%d' % (target, os.getpid(), i))
            tapes.append(f)
            return (f,) + run_one([host, level, str(i), str(n), 'record', f], env(), HERE, min(300, max(5, deadline - time.time())))
        fs, nv = [], len(res.viol)
        for i, (f, rc, o, er) in enumerate(pool([(tape, i) for i in range(n)])):
            # The tape is only complete when every case passed natively; a failing one is a violation already.
            parse_mm(res, 'native-x86_64', o, er, rc, i)
            fs.append(f)
            if rc == 125:
                return
        if len(res.viol) > nv:
            return
        # Compile once (no shard has this number), then all shards.
        rc, o, er = run_one(miri_argv(target, feats) + [level, '1', '1', '999999'], e, mm_dir(), 400, 400)
        if rc or 'DONE 0' not in o:
            raise CheckError('miri build for %s failed: %s\n%s\n%s' % (target, rc, o[-1000:], er[-4000:]))
        with open(sf, 'w') as f:
            f.write(stamp)
        rs = pool([(run_one, miri_argv(target, feats) + [level, str(i), str(n), 'play', fs[i]], e, mm_dir(), max(5, deadline - time.time()), 400 if TIER == 'quick' else 3000) for i in range(n)])
        s = c = 0
        for i, (rc, o, er) in enumerate(rs):
            a, b = parse_mm(res, stage, o, er, rc, i)
            s, c = s + a, c + b
        res.add(stage, {'states': s, 'transitions': c, 'traces': c, 'outcomes': 0, 'seconds': round(time.time() - t0, 1), 'violations': [], 'notes': {'target': target, 'miri_flags': flags, 'shards': n}})
    finally:
        for f in tapes:
            if os.path.exists(f):
                os.unlink(f)
        lock.close()


def native32(res, deadline):
    t0 = time.time()
    b = mm_build('native32')
    level = '3' if TIER == 'thorough' else '2'
    n = NCPU
    rs = pool([(run_one, [b, level, str(i), str(n)], env(), HERE, max(5, deadline - time.time()), 400) for i in range(n)])
    s = c = 0
    for i, (rc, o, er) in enumerate(rs):
        x, y = parse_mm(res, 'native-i686', o, er, rc, i)
        s, c = s + x, c + y
    res.add('native-i686', {'states': s, 'transitions': c, 'traces': c, 'outcomes': 0, 'seconds': round(time.time() - t0, 1), 'violations': []})


def c19(res, deadline):
    b = build('std-rel')
    res.extra['reference_vectors_checked'] = refcheck(b)
    native32(res, deadline - 120)
    ts = [('s390x-unknown-linux-gnu', '', ''), ('powerpc-unknown-linux-gnu', '', ''), ('i686-unknown-linux-gnu', 'std', '-Ctarget-feature=+avx2')]
    if TIER == 'thorough':
        ts += [('i686-unknown-linux-gnu', '', ''), ('aarch64-unknown-linux-gnu', '', '')]
    for t, feats, flags in ts:
        if not res.viol:
            miri(res, t, PLAIN, feats, flags, deadline=deadline)


CHECKS['C19'] = c19


def c13(res, deadline):
    generic('std-chk', 'std-rel', 'nostd-chk')(res, deadline)
    if not res.viol:
        miri(res, 'x86_64-unknown-linux-gnu', BORROWS, 'std', '-Ctarget-feature=+avx2', deadline)


CHECKS['C13'] = c13


# ---- C17 ----

def c17(res, deadline):
    generic('std-chk', 'std-rel', 'nostd-chk')(res, deadline)
    if res.viol:
        return
    for v in ('std-rel', 'nostd-rel'):
        b, before = build(v), (res.states, res.transitions, res.traces)
        r = Result(res.pid)

        def shard(i):
            x = Result(res.pid)
            run_mc(x, v, b, timeout=deadline - time.time(), stage='%s/steps-%d' % (v, i), argv=lambda out: [b, 'steps', TIER, out, str(i), str(NCPU)])
            return x
        for x in pool([(shard, i) for i in range(NCPU)]):
            for k in ('states', 'transitions', 'traces'):
                setattr(res, k, getattr(res, k) + getattr(x, k))
            res.samples += [s.split('] ', 1)[0] + '] ' + s.split('] ', 1)[1] for s in x.samples]
            res.stages += x.stages
            res.viol += x.viol
            res.limited += x.limited
        if res.viol:
            return
        # More than one preemption, at accesses to memory that one thread writes and the other accesses.
        tab = os.path.join(TARGET, 'accesses-%s-%d' % (v, os.getpid()))
        try:
            address_table(b, tab, races=True)

            def race(i):
                x = Result(res.pid)
                run_mc(x, v, b, timeout=deadline - time.time(), stage='%s/races-%d' % (v, i), argv=lambda out: [b, 'races', TIER, out, str(i), str(NCPU), tab])
                return x
            for x in pool([(race, i) for i in range(NCPU)]):
                for k in ('states', 'transitions', 'traces'):
                    setattr(res, k, getattr(res, k) + getattr(x, k))
                res.samples += x.samples
                res.stages += x.stages
                res.viol += x.viol
                res.limited += x.limited
                if any('out of time' in k and n for s in x.stages for k, n in s.get('notes', {}).items()):
                    res.limited.append('%s: not all schedules with switches at shared memory' % v)
        finally:
            if os.path.exists(tab):
                os.unlink(tab)
        if res.viol:
            return


CHECKS['C17'] = c17


# ---- C20: memory operands of every instruction ----
GPR = {r: i for i, r in enumerate('rax rcx rdx rbx rsp rbp rsi rdi r8 r9 r10 r11 r12 r13 r14 r15'.split())}


READERS = ('cmp', 'test', 'bt ', 'btl', 'btq', 'call', 'jmp', 'push', 'mul', 'imul', 'div', 'idiv', 'ucomi', 'comi', 'vptest', 'ptest', 'prefetch', 'lods', 'scas')


def address_table(binary, out, races=False):
    """For mc's tracer: where each instruction of the program and of the C library finds its memory operands."""
    import re
    mem = re.compile(r'(%[efgs]s:)?(-?0x[0-9a-f]+)?\((%\w+)?(?:,(%\w+)(?:,(\d))?)?\)')
    r = subprocess.run(['ldd', binary], stdout=subprocess.PIPE, text=True)
    libs = [l.split('=> ')[1].split(' ')[0] for l in r.stdout.splitlines() if 'libc.so' in l and '=> /' in l]
    n = 0
    with open(out, 'w') as f:
        for path in [binary] + libs:
            f.write('O %s\n' % ('-' if path == binary else path))
            r = subprocess.run(['objdump', '-d', '-w', '--no-show-raw-insn', path], stdout=subprocess.PIPE, text=True, check=True)
            for l in r.stdout.splitlines():
                a, t, rest = l.partition(':\t')
                if not t or '(' not in rest or 'nop' in rest or 'lea' in rest:
                    continue
                rest, _, note = rest.partition('#')
                rest = rest.strip()
                ops = list(mem.finditer(rest))
                for m in ops:
                    seg, disp, base, idx, scale = m.groups()
                    base, idx = base or '', idx or ''
                    b, x = GPR.get(base[1:], 16), GPR.get(idx[1:], 16)
                    if seg in ('%fs:', '%gs:'):
                        continue
                    if not races:
                        if base != '%rip' and not b == x == 16:
                            f.write('%d %d %d %d %d\n' % (int(a, 16), b, x, int(scale or 1), int(disp or '0', 16)))
                            n += 1
                        continue
                    # The last operand is the one that may be written.
                    w = rest.split('(', 1)[0].split()
                    name = [y for y in w if y not in ('lock', 'rep', 'repz', 'repnz', 'repe', 'repne', 'notrack', 'data16', 'bnd')][0]
                    how = int(m.end() == len(rest) and not name.startswith(READERS)) | (2 if w[0].startswith('rep') else 0)
                    if base == '%rip':
                        f.write('%d 17 16 1 %d %d\n' % (int(a, 16), int(note.split()[0], 16), how))
                    elif b == x == 16:
                        continue
                    else:
                        f.write('%d %d %d %d %d %d\n' % (int(a, 16), b, x, int(scale or 1), int(disp or '0', 16), how))
                    n += 1
    if n < 1000:
        raise CheckError('no memory operands found')
    return n


def c20(res, deadline):
    first = True
    for v in ('std-rel', 'nostd-rel'):
        b = build(v)
        if first:
            res.extra['reference_vectors_checked'] = refcheck(b)
            first = False
        tab = os.path.join(TARGET, 'addresses-%s-%d' % (v, os.getpid()))
        try:
            res.extra['memory operands known, ' + v] = address_table(b, tab)
            run_mc(res, v, b, timeout=deadline - time.time(), environ={'MC_ADDRESSES': tab})
        finally:
            if os.path.exists(tab):
                os.unlink(tab)


CHECKS['C20'] = c20


# ---- C11: other CPUs ----
SSSE3 = {'pshufb', 'palignr', 'pabsb', 'pabsw', 'pabsd', 'phaddw', 'phaddd', 'phaddsw', 'phsubw', 'phsubd', 'phsubsw', 'psignb', 'psignw', 'psignd', 'pmulhrsw', 'pmaddubsw'}
SSE41 = {'mpsadbw', 'phminposuw', 'pmuldq', 'pmulld', 'dpps', 'dppd', 'blendps', 'blendpd', 'blendvps', 'blendvpd', 'pblendvb', 'pblendw', 'pminsb', 'pmaxsb', 'pminuw', 'pmaxuw',
         'pminud', 'pmaxud', 'pminsd', 'pmaxsd', 'roundps', 'roundss', 'roundpd', 'roundsd', 'insertps', 'pinsrb', 'pinsrd', 'pinsrq', 'extractps', 'pextrb', 'pextrd', 'pextrq',
         'pmovsxbw', 'pmovzxbw', 'pmovsxbd', 'pmovzxbd', 'pmovsxbq', 'pmovzxbq', 'pmovsxwd', 'pmovzxwd', 'pmovsxwq', 'pmovzxwq', 'pmovsxdq', 'pmovzxdq', 'ptest', 'pcmpeqq', 'packusdw', 'movntdqa'}
SSE42 = {'pcmpestri', 'pcmpestrm', 'pcmpistri', 'pcmpistrm', 'pcmpgtq', 'crc32', 'crc32b', 'crc32w', 'crc32l', 'crc32q'}
OTHER = {'andn': 'bmi1', 'bextr': 'bmi1', 'blsi': 'bmi1', 'blsr': 'bmi1', 'blsmsk': 'bmi1', 'bzhi': 'bmi2', 'mulx': 'bmi2', 'pdep': 'bmi2', 'pext': 'bmi2', 'rorx': 'bmi2', 'sarx': 'bmi2',
         'shlx': 'bmi2', 'shrx': 'bmi2', 'popcnt': 'popcnt', 'lzcnt': 'abm', 'movbe': 'movbe', 'adcx': 'adx', 'adox': 'adx', 'pclmulqdq': 'clmul', 'vcvtph2ps': 'f16c', 'vcvtps2ph': 'f16c',
         'extrq': 'amd', 'insertq': 'amd', 'movntsd': 'amd', 'movntss': 'amd'}
AVX2_ONLY = ('vpbroadcast', 'vbroadcasti128', 'vinserti128', 'vextracti128', 'vperm2i128', 'vpermd', 'vpermq', 'vpermps', 'vpermpd', 'vpsllv', 'vpsrlv', 'vpsrav', 'vpgather', 'vgather', 'vpmaskmov', 'vpblendd')


def extension(m, ops):
    """The instruction's extension, '' for the baseline of x86-64."""
    # objdump writes suffixes in places (popcntl, andnq).
    for x in (m, m[:-1]):
        if x in OTHER and not (m.startswith('vcvt') and ('%zmm' in ops or '%k' in ops)):
            return OTHER[x]
    if m.startswith(('sha1', 'sha256')):
        return 'sha'
    if m.startswith('aes'):
        return 'aes'
    if m.startswith(('vprot', 'vpsha', 'vpshl', 'vpcom', 'vpmacs', 'vpmadcs', 'vphadd', 'vfrcz', 'vpperm', 'vpcmov', 'vfmaddsubps4')) and not m.startswith(('vpshld', 'vpshlb2', 'vphaddw', 'vphaddd', 'vphaddsw')):
        return 'amd'
    if m in SSSE3:
        return 'ssse3'
    if m in SSE42:
        return 'sse42'
    if m in SSE41 or m.startswith('pextrw') and '(' in ops:
        return 'sse41'
    if m.startswith('v') and not m.startswith(('verr', 'verw', 'vm', 'vzero')) or m.startswith('vm') and '%' in ops and 'mm' in ops or m.startswith('vzero'):
        if '%zmm' in ops or '%k' in ops or '{1to' in ops or any('%%xmm%d' % i in ops or '%%ymm%d' % i in ops for i in range(16, 32)) or m.startswith(('vgf2', 'vaes', 'vpclmul', 'vpro', 'vpternlog', 'vpdp', 'vpmadd52')):
            return 'new'
        if m.startswith(('vfm', 'vfnm')):
            return 'fma'
        if m.startswith(AVX2_ONLY):
            return 'avx2'
        if '%ymm' in ops and (m.startswith('vp') and not m.startswith(('vperm2f128', 'vpermil', 'vptest')) or m in ('vmovntdqa', 'vmpsadbw')):
            return 'avx2'
        if m in ('vbroadcastss', 'vbroadcastsd') and '(' not in ops:
            return 'avx2'
        return 'avx'
    return ''


def patched(binary, out, have):
    """Copy of the program whose cpuid instructions are ud2 and whose instructions of extensions outside `have` trap."""
    import struct
    img = bytearray(open(binary, 'rb').read())
    assert img[:5] == b'\x7fELF\x02'
    shoff, = struct.unpack_from('<Q', img, 0x28)
    shsize, shnum = struct.unpack_from('<HH', img, 0x3a)
    secs = []
    for i in range(shnum):
        _, typ, flags, addr, off, size = struct.unpack_from('<IIQQQQ', img, shoff + i * shsize)
        if typ == 1 and flags & 4:
            secs.append((addr, off, size))
    r = subprocess.run(['objdump', '-d', '-w', '--no-show-raw-insn', binary], stdout=subprocess.PIPE, text=True, check=True)
    orig = bytes(img)
    n = cp = 0
    for l in r.stdout.splitlines():
        a, t, rest = l.partition(':\t')
        if not t:
            continue
        w = rest.split(None, 1)
        try:
            addr = int(a, 16)
        except ValueError:
            continue
        while len(w) > 1 and w[0] in ('rep', 'repz', 'repnz', 'lock', 'data16', 'bnd', 'notrack', 'cs', '{vex}', '{evex}', '{vex3}'):
            w = w[1].split(None, 1)
        if not w:
            continue
        for (s, o, z) in secs:
            if s <= addr < s + z:
                f = o + addr - s
                break
        else:
            continue
        if w[0] == 'cpuid':
            if orig[f - 7:f] != b'\x0f\x1f\x80\x11\x22\x33\x44':
                img[f:f + 2] = b'\x0f\x0b'
                cp += 1
        elif extension(w[0], w[1] if len(w) > 1 else '') not in have:
            img[f] = 0xCC
            n += 1
    with open(out, 'wb') as fh:
        fh.write(img)
    os.chmod(out, 0o755)
    return n, cp


# Where cpuid reports an extension: index into MM_CPU's masks (leaf 1 ecx, leaf 7 ebx, leaf 7 ecx, leaf 0x80000001 ecx), bits.
REPORTED = {'ssse3': (0, (9,)), 'sse41': (0, (19,)), 'sse42': (0, (20,)), 'avx': (0, (28,)), 'fma': (0, (12,)), 'f16c': (0, (29,)), 'popcnt': (0, (23,)), 'movbe': (0, (22,)),
            'aes': (0, (25,)), 'clmul': (0, (1,)), 'avx2': (1, (5,)), 'bmi1': (1, (3,)), 'bmi2': (1, (8,)), 'adx': (1, (19,)), 'sha': (1, (29,)), 'abm': (3, (5,)),
            'amd': (3, (6, 11, 16, 21))}
NEW = {1: (16, 17, 21, 26, 27, 28, 30, 31), 2: tuple(range(32))}  # AVX-512 and everything in leaf 7 ecx
CHAIN = ['ssse3', 'sse41', 'avx', 'avx2']
SCALAR = ['popcnt', 'movbe', 'aes', 'clmul', 'bmi1', 'bmi2', 'adx', 'sha', 'abm']
OLD = ['ssse3', 'sse41', 'sse42']
# name -> extensions the CPU has ('' the baseline)
CPUS = {
    'everything': set(REPORTED) | {'new'},
    'AVX2 but nothing newer': set(OLD + ['avx', 'avx2']),
    'AVX2 and the rest up to AVX-512': set(REPORTED),
    'no AVX2': set(OLD + ['avx']),
    'no AVX2, with FMA, F16C, BMI and the rest': set(REPORTED) - {'avx2'},
    'AVX without OS support': set(OLD + ['osxsave']),
    'no AVX': set(OLD),
    'no AVX, with BMI, SHA, AES and the rest': set(OLD + SCALAR + ['amd']),
    'no SSE4.2': {'ssse3', 'sse41'},
    'no SSE4.1': {'ssse3'},
    'no SSE4.1, with BMI, SHA, AES and the rest': set(['ssse3'] + SCALAR),
    'no SSSE3': set(),
    'no SSSE3, with POPCNT, LZCNT, SSE4a': {'popcnt', 'abm', 'amd'},
}


def cpuid_masks(have):
    m = [2**32 - 1] * 4
    if 'new' in have:
        return m
    for x, (i, bs) in REPORTED.items():
        if x not in have and not (x == 'avx' and 'osxsave' in have):
            for b in bs:
                m[i] &= ~(1 << b)
    for i, bs in NEW.items():
        for b in bs:
            m[i] &= ~(1 << b)
    if 'osxsave' in have:  # AVX and AVX2 reported, but not enabled by the operating system
        m[0] &= ~(1 << 27)
        m[1] |= 1 << 5
    return m


def c11(res, deadline):
    b = build('std-rel')
    res.extra['reference_vectors_checked'] = refcheck(b)
    level = '3' if TIER == 'thorough' else '4'
    d = os.path.join(TARGET, 'c11-%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    configs = []
    try:
        for kind in ('cpu-std', 'cpu-nostd'):
            b = mm_build(kind)
            if TIER == 'quick':
                shards = 2
            else:
                shards = 8
            jobs = []
            for name, have in CPUS.items():
                p = os.path.join(d, '%s-%s' % (kind, re.sub('[^A-Za-z0-9]+', '_', name)))
                n, cp = patched(b, p, have | {''})
                mask, want = cpuid_masks(have), None if 'new' in have else ''.join('1' if x in have else '0' for x in CHAIN)
                jobs += [(name, p, mask, want, i, n, cp) for i in range(shards)]
            e0 = env()
            rs = pool([(run_one, [j[1], level, str(j[4]), str(shards)], dict(e0, MM_CPU=','.join(map(str, j[2]))), HERE, max(5, deadline - time.time())) for j in jobs])
            for (name, p, mask, want, i, n, cp), (rc, o, er) in zip(jobs, rs):
                stage = '%s/%s' % (kind, name)
                seen = o.split('\n', 1)[0]
                if not seen.startswith('FEATURES '):
                    raise CheckError('stage %s did not start: %s %s %s' % (stage, rc, o[-500:], er[-500:]))
                if want and seen.split()[1] != want:
                    if seen.split()[1] < want:
                        res.limited.append('%s: this machine lacks an extension (%s)' % (stage, seen))
                    else:
                        raise CheckError('stage %s: masking failed: %s' % (stage, seen))
                s, c = parse_mm(res, stage, o, er, rc, i)
                if res.viol and rc == -5:
                    res.viol[-1]['msg'] += ': executed an instruction that this CPU lacks'
                res.add(stage, {'states': s, 'transitions': c, 'traces': c, 'outcomes': 0, 'violations': []})
                if i == 0:
                    configs.append('%s, %s: %d instructions of missing extensions trapped, %d cpuid instructions answered, sees %s' % (kind, name, n, cp, seen))
    finally:
        shutil.rmtree(d)
    res.extra['configurations'] = configs
    if res.viol:
        return
    # The same case list compiled in other ways, on this machine's CPU.
    kinds = list(BUILDS)
    if not {'avx2', 'bmi2', 'fma', 'movbe', 'f16c', 'abm'} <= set(next((l for l in open('/proc/cpuinfo') if l.startswith('flags')), '').split()):
        kinds = [k for k in kinds if not k.startswith('avx2')]
        res.limited.append('builds for AVX2 cannot run on this machine')
    bins = pool([(mm_build, k) for k in kinds])
    n = 4 if TIER == 'quick' else 16
    d = os.path.join(TARGET, 'c11b-%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    try:
        jobs = []
        for k, b in zip(kinds, bins):
            have, e = BUILDS[k][3], env()
            if have is not None:
                p = os.path.join(d, k)
                trapped, cp = patched(b, p, have | {''})
                e['MM_CPU'] = ','.join(map(str, cpuid_masks(have)))
                b = p
                configs.append('build %s: on the least CPU that it is for, %d instructions of missing extensions trapped' % (k, trapped))
            jobs += [(k, b, i, e) for i in range(n)]
        rs = pool([(run_one, [b, level, str(i), str(n)], e, HERE, max(5, deadline - time.time())) for k, b, i, e in jobs])
    finally:
        shutil.rmtree(d)
    for (k, b, i, e), (rc, o, er) in zip(jobs, rs):
        s, c = parse_mm(res, 'build ' + k, o, er, rc, i)
        if res.viol and rc == -5:
            res.viol[-1]['msg'] += ': executed an instruction that the CPU this build is for lacks'
        res.add('build ' + k, {'states': s, 'transitions': c, 'traces': c, 'outcomes': 0, 'violations': []})


CHECKS['C11'] = c11


def known_findings(pid):
    """Lines 'finding: property=<id> match=<text> <description>' of the committed file; fixed ones suppress nothing."""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s match=' % pid):
                m, _, desc = l.split(' match=', 1)[1].partition(' ')
                out.append((m, desc.strip()))
    return out


def check(pid):
    t0 = time.time()
    res = Result(pid)
    limit = 870 if TIER == 'quick' else int(os.environ.get('VERIF_LIMIT', '7200'))
    CHECKS[pid](res, t0 + limit)
    found, new = {}, []
    kf = known_findings(pid)
    for v in res.viol:
        key = '%s:%s' % (v['stage'], ','.join(map(str, v.get('case', []))))
        for m, desc in kf:
            if m == key:
                found[m] = desc
                break
        else:
            new.append(v)
    for m, desc in found.items():
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, desc, m))
    rc = 0
    if new:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        for i, v in enumerate(new[:5]):
            name = '%s-%s.json' % (pid, hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:12])
            path = os.path.join(HERE, 'replays', name)
            with open(path, 'w') as f:
                json.dump({'property': pid, 'tier': TIER, 'replay': 'python3 /verif/run.py replay %s' % path, **v}, f, indent=1)
            print('%s [%s] %s' % (pid, v['stage'], v['msg'][:600]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    cov = {'states': res.states, 'transitions': res.transitions, 'traces_validated_against_impl': res.traces,
           'distinct_outcomes': res.outcomes, 'samples': res.samples[:24] or ['none'], 'stages': res.stages, 'exhaustive': not res.limited,
           'rule': RULES.get(pid, ''), **res.extra}
    if hidden():
        cov['back_ends_not_shown'] = hidden()
    if res.limited:
        cov['limited'] = res.limited
    ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'model_checking', 'coverage': cov,
          'assumptions': res.assumptions + ASSUME, 'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', '.%s.%d' % (pid, os.getpid()))
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, 'evidence', pid + '.json'))
    print('%s %s: %d states, %d transitions, %d executions compared, %d distinct outcomes, %.1f s: %s' % (
        pid, TIER, res.states, res.transitions, res.traces, res.outcomes, time.time() - t0, 'VIOLATED' if rc else 'held'))
    return rc


ASSUME = ['states are cases or reached object states, transitions are calls into the real code built from /repo, every one compared with the reference model mc/src/refm.rs',
          'the reference model is itself compared with CPython hashlib, the official BLAKE2sp vectors and a Python transcription in every run']
RULES = {
    'C01': 'case list: (interface, length, key length and kind, content kind, digest length) blocks that are crossed exhaustively inside the stated bounds',
    'C02': 'case list: whole domains of every parameter, all single bits and bit pairs of wide ones, all pairs of class values, setter orders',
    'C03': 'breadth-first search over concrete object states with duplicate elimination; every operation of the alphabet from every state',
    'C04': 'all setter call sequences over the alphabet to the depth bound; complete domains of every setter argument',
    'C05': 'case list: (interface, length, key length and kind, content kind, digest length) blocks that are crossed exhaustively inside the stated bounds',
    'C06': 'breadth-first search over concrete object states to the depth bound; all two-chunk splits',
    'C07': 'all lane shapes of the stated alphabets and all operation sequences to the depth bound',
    'C08': 'all lane length vectors and parameter placements of the stated alphabets',
    'C09': 'all block counts, parameters and illegal length vectors of the stated alphabets',
    'C10': 'every back end on every single-bit chaining value, block and count, all flag vectors, every lane',
    'C11': 'every CPU class x build; for each the whole native case list of mm, with missing instructions trapping',
    'C12': 'every interface taken to a counter wrap, then every continuation of one or two calls within the bound',
    'C13': 'every (operation, placement, alignment, length, overlap) of the stated bounds; then the case list of mm under Miri',
    'C14': 'all lengths, all single-byte differences with all xor values, all pairs of positions, all length pairs',
    'C15': 'all difference patterns of the stated shapes per length and impl; the instruction addresses of each comparison are compared',
    'C16': 'all key lengths, content pairs and histories of the stated alphabets',
    'C17': 'all merges of three instances\' operation sequences; all single preemption points (after every instruction) of every operation, cold and warm; all schedules with switches at two (three) accesses to shared memory',
    'C18': 'breadth-first search over concrete object states; every operation of the alphabet from every state',
    'C20': 'every content of the stated alphabets, per operation and length; the traces (instruction and memory operand addresses) are compared with those for zeros',
    'C19': 'the case list of mm under Miri for each foreign target, and natively as a 32-bit program including inputs beyond 4 GiB',
}


def replay(path):
    d = json.load(open(path))
    stage = d['stage'].split('/')[0]
    print(d['msg'])
    case = ','.join(map(str, d.get('case') or []))
    if stage == 'native-i686':
        return subprocess.run([mm_build('native32'), '3', '0', '1'] + case.split(','), env=env()).returncode
    if stage == 'native-x86_64':
        return subprocess.run([mm_build('host'), '3', '0', '1', case], env=env()).returncode
    if stage.startswith('miri-'):
        t = stage[5:] + '-unknown-linux-gnu'
        host = t.startswith('x86_64')
        e = miri_env(t, BORROWS if host else PLAIN, '-Ctarget-feature=+avx2' if host else '')
        return subprocess.run(miri_argv(t, 'std' if host else '') + ['1', '0', '1', case], env=e, cwd=mm_dir()).returncode
    if stage not in VARIANTS or '/' in d['stage']:
        print('replay by running the check: python3 /verif/run.py ' + d['property'])
        return 0
    b = build(stage)
    return subprocess.run([b, 'replay', d['property'], ','.join(map(str, d['case']))], env=env()).returncode


def setup():
    for v in VARIANTS:
        build(v)
    pool([(sysroot, t) for t in ('s390x-unknown-linux-gnu', 'powerpc-unknown-linux-gnu', 'i686-unknown-linux-gnu', 'x86_64-unknown-linux-gnu')])
    mm_build('host')
    mm_build('native32')
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    try:
        if sys.argv[1] == 'setup':
            return setup()
        if sys.argv[1] == 'replay':
            return replay(sys.argv[2])
        return check(sys.argv[1])
    except CheckError as e:
        print('ERROR: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
