#!/usr/bin/env python3
"""Driver of every check: build libu from /repo's working tree under sanitizers, run the
property's harness over its cases on all cores, attribute and report what the monitors saw.

  run.py PROPERTY quick|thorough        run a check
  run.py --replay FILE                  re-run one recorded violation
  run.py --build-all                    compile everything (setup)
"""
import sys, os, json, threading, time, subprocess, hashlib, glob, re, shutil, tempfile, signal
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('REPO', '/repo')
H = os.path.join(V, 'harness')
B = os.path.join(V, 'build')
NPROC = 8
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402

SAN = ['-fsanitize=address,undefined', '-fno-sanitize=function,pointer-overflow,nonnull-attribute', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
VARIANTS = {
    'asan': (['clang'], ['clang++'], SAN + ['-O1', '-g1']),
    'tsan': (['clang'], ['clang++'], ['-fsanitize=thread', '-O1', '-g1']),
    'plain': (['gcc'], ['g++'], ['-O1', '-g']),
}
ABANDONED = 1000
LIBSKIP = {'facility.c'}
ENV = dict(os.environ, LC_ALL='C', TZ='UTC')
for k in ('ASAN_OPTIONS', 'UBSAN_OPTIONS', 'TSAN_OPTIONS', 'CFLAGS', 'LD_PRELOAD'):
    ENV.pop(k, None)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


_hdr = None


def headers_digest():
    global _hdr
    if _hdr is None:
        fs = sorted(glob.glob(REPO + '/include/**/*.h', recursive=True) + glob.glob(REPO + '/srcs/**/*.h', recursive=True)
                    + glob.glob(H + '/conf/**/*.h', recursive=True) + glob.glob(H + '/*.h'))
        _hdr = digest(*[f.encode() + open(f, 'rb').read() for f in fs])
    return _hdr


def missing_digest():
    return digest(*[f.encode() + open(f, 'rb').read() for f in sorted(glob.glob(REPO + '/srcs/missing/*.c'))])


def inc():
    d = B + '/inc/u'
    os.makedirs(d, exist_ok=True)
    for n, t in (('toolbox', REPO + '/include/toolbox'), ('missing', REPO + '/include/missing'), ('libu_conf.h', H + '/conf/u/libu_conf.h')):
        p = d + '/' + n
        if os.path.islink(p) and os.readlink(p) == t:
            continue
        if os.path.lexists(p):
            os.remove(p)
        os.symlink(t, p)
    return ['-D_GNU_SOURCE', '-DHAVE_CONF_H', '-I' + REPO + '/include', '-I' + B + '/inc', '-I' + H]


class BuildError(Exception):
    pass


def compile1(cc, flags, src, key):
    o = f'{B}/obj/{key}.o'
    if not os.path.exists(o):
        t = f'{o}.{os.getpid()}.{threading.get_ident()}.tmp'
        r = sh(cc + flags + ['-c', src, '-o', t])
        if r.returncode:
            raise BuildError(f'{src}:\n' + r.stdout.decode(errors='replace')[-4000:])
        os.rename(t, o)
    else:
        os.utime(o)
    return o


def build(harness, variant, cflags=(), ldflags=(), libflags=()):
    """harness: name of harness/<name>.cc; returns path of the executable"""
    cc, cxx, fl = VARIANTS[variant]
    os.makedirs(B + '/obj', exist_ok=True)
    os.makedirs(B + '/bin', exist_ok=True)
    I = inc()
    jobs = []
    for s in sorted(glob.glob(REPO + '/srcs/toolbox/*.c')):
        if os.path.basename(s) in LIBSKIP:
            continue
        f = fl + I + ['-w', '-I' + REPO + '/srcs'] + list(libflags)
        jobs.append((cc, f, s, digest(open(s, 'rb').read(), headers_digest(), variant, f, s)))
    nlib = len(jobs)
    src = f'{H}/{harness}.cc'
    f = fl + I + ['-std=gnu++17', '-w'] + list(cflags)
    jobs.append((cxx, f, src, digest(open(src, 'rb').read(), headers_digest(), variant, f)))
    for src in sorted(glob.glob(f'{H}/{harness}.d/*.c')):   # more of the library's sources, wrapped
        f = fl + I + ['-w', '-I' + REPO + '/srcs'] + list(libflags)
        jobs.append((cc, f, src, digest(open(src, 'rb').read(), headers_digest(), missing_digest(), variant, f)))
    with ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(lambda j: compile1(*j), reversed(jobs)))
    exe = f'{B}/bin/{harness}-{variant}-{digest(objs, ldflags)}'
    if not os.path.exists(exe):
        t = f'{exe}.{os.getpid()}.{threading.get_ident()}.tmp'
        r = sh(cxx + fl + objs + list(ldflags) + ['-o', t, '-lm', '-lpthread'])
        if r.returncode:
            raise BuildError(r.stdout.decode(errors='replace')[-4000:])
        os.rename(t, exe)
    return exe, nlib


def prune():
    """drop old cached objects"""
    for d in ('obj', 'bin'):
        fs = sorted(glob.glob(f'{B}/{d}/*'), key=os.path.getmtime)
        keep = 600 if d == 'obj' else 80
        for f in fs[:-keep]:
            try:
                os.remove(f)
            except OSError:
                pass


def crash_key(rc, out):
    """classify an abnormal end of a harness process; independent of names in the code under test"""
    m = re.search(r'^VIOL key=(\S+)', out, re.M)
    if m:
        return m.group(1)
    if 'HANG cpu limit' in out or rc == 76:
        return 'hang'
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', out)
    if m:
        return 'asan:' + m.group(1)
    m = re.search(r'WARNING: ThreadSanitizer: ([\w -]+?) \(', out)
    if m:
        return 'tsan:' + m.group(1).replace(' ', '-')
    m = re.search(r'runtime error: (.*)', out)
    if m:
        t = re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(1))
        return 'ubsan:' + '-'.join(t.split()[:6])
    if rc == 79 or '==ERROR' in out or 'uninitialised' in out:
        m = re.search(r'==\d+== (Conditional jump|Use of uninit|Invalid \w+|Syscall param)', out)
        return 'memcheck:' + (m.group(1).replace(' ', '-') if m else 'error')
    if rc < 0:
        return 'signal:' + signal.Signals(-rc).name
    return f'exit:{rc}'


class Leg:
    def __init__(self, spec, tier):
        self.spec = spec
        self.harness = spec['harness']
        self.variant = spec.get('variant', 'asan')
        self.cases = spec[tier]
        self.memcheck = self.variant == 'plain' and spec.get('valgrind', True)
        self.args = list(spec.get('args', [])) + (['--thorough'] if tier == 'thorough' else [])
        self.shards = spec.get('shards', NPROC)
        self.env = spec.get('env', {})
        self.stall = spec.get('stall', 240)

    def prepare(self):
        self.exe, self.nlib = build(self.harness, self.variant, self.spec.get('cflags', ()), self.spec.get('ldflags', ()), self.spec.get('libflags', ()))

    def cmd(self, extra):
        c = [self.exe] + extra + self.args
        if self.memcheck:
            c = ['valgrind', '-q', '--error-exitcode=79', '--exit-on-first-error=yes', '--trace-children=no',
                 '--num-callers=16'] + c + ['--memcheck']
        return c


def load_findings():
    fs = {}
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) probe=(\S+) key=(\S+) (.*)', l.strip())
            if m:
                fs.setdefault((m.group(1), m.group(2)), []).append((m.group(3), m.group(4)))
    return fs


def run_proc(cmd, env, scratch, prog=None, stall=240, abandon=None):
    """run one harness process; kill it (with its children) if its progress stalls"""
    out = tempfile.TemporaryFile(dir=scratch)
    p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env, cwd=scratch, start_new_session=True)
    last, t0 = None, time.time()
    start = t0
    hung = False
    while True:
        try:
            rc = p.wait(timeout=0.02 if time.time() - start < 2 else 0.25)
            break
        except subprocess.TimeoutExpired:
            pass
        cur = None
        if prog:
            try:
                cur = open(prog, 'rb').read(64)
            except OSError:
                pass
        if cur != last:
            last, t0 = cur, time.time()
        given_up = abandon and abandon()
        if given_up or time.time() - t0 > stall:
            hung = not given_up
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            rc = p.wait()
            break
    try:
        os.killpg(p.pid, signal.SIGKILL)   # stragglers
    except OSError:
        pass
    out.seek(0, 2)
    n = out.tell()
    out.seek(max(0, n - 60000))
    txt = out.read().decode(errors='replace')
    out.close()
    if rc == -9 and not hung and abandon and abandon():
        rc = ABANDONED
    if hung:
        txt += '\nHANG cpu limit (no progress for %ds)\n' % stall
        rc = 76
    return rc, txt


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.cfg = CHECKS[prop]
        self.t0 = time.time()
        self.ev = 0
        self.sigs = set()
        self.cov = {}
        self.samples = []
        self.viol = []
        self.known = []
        self.probes_ok = []
        self.scratch = tempfile.mkdtemp(prefix=f'verif-{prop}-')
        os.chmod(self.scratch, 0o755)
        self.findings = load_findings()
        self.first_viol = None

    def legs(self):
        return [Leg(s, self.tier) for s in self.cfg['legs'] if s.get(self.tier)]

    def env(self, leg):
        e = dict(ENV, H_SCRATCH=self.scratch)
        e.update(leg.env)
        return e

    def abandon(self):
        """once something is violated the rest gets a short grace period"""
        return self.first_viol and time.time() - self.first_viol > 15

    def record(self, leg, kind, which, key, out):
        self.first_viol = self.first_viol or time.time()
        self.viol.append(dict(property=self.prop, leg=leg.spec.get('name', leg.variant), harness=leg.harness, kind=kind, which=which,
                              key=key, seed=SEED, tier=self.tier, cmd=leg.cmd([]), output=out[-6000:]))

    def collect(self, leg, f):
        done = False
        try:
            for l in open(f, errors='replace'):
                t, _, r = l.rstrip('\n').partition(' ')
                if t == 'E':
                    self.ev += int(r)
                elif t == 'C':
                    n, _, v = r.rpartition(' ')
                    self.cov[n] = self.cov.get(n, 0) + int(v)
                elif t == 'S':
                    if len(self.samples) < 6:
                        self.samples.append(r)
                elif t == 'G':
                    self.sigs.add((leg.harness, r))
                elif t == 'END':
                    done = True
        except OSError:
            pass
        return done

    def shard(self, leg, i):
        n = leg.cases
        a, b = n * i // leg.shards, n * (i + 1) // leg.shards
        if a == b:
            return
        tag = f'{self.scratch}/{leg.harness}-{leg.variant}-{i}'
        cmd = leg.cmd(['--seed', str(SEED), '--from', str(a), '--to', str(b), '--out', tag + '.out', '--progress', tag + '.prog'])
        rc, out = run_proc(cmd, self.env(leg), self.scratch, tag + '.prog', leg.stall, self.abandon)
        if rc == ABANDONED:
            return
        if rc == 0 and self.collect(leg, tag + '.out'):
            return
        if rc == 70:
            raise BuildError('harness could not set up: ' + out[-2000:])
        try:
            case = int(open(tag + '.prog', 'rb').read(64).split(b'\n')[0])
        except (OSError, ValueError):
            case = a
        self.record(leg, 'case', case, crash_key(rc, out), out)

    def probe(self, leg, name):
        rc, out = run_proc(leg.cmd(['--seed', str(SEED), '--probe', name]), self.env(leg), self.scratch, None, leg.stall, self.abandon)
        if rc == ABANDONED:
            return
        if rc == 0 and 'PROBE-OK' in out:
            self.probes_ok.append(name)
            return
        if rc == 70:
            raise BuildError('harness could not set up: ' + out[-2000:])
        key = crash_key(rc, out)
        for k, what in self.findings.get((self.prop, name), []):
            if k == key:
                self.known.append(f'{name} [{key}] {what}')
                return
        self.record(leg, 'probe', name, key, out)

    def run(self):
        legs = self.legs()
        # let slow, narrow legs start first
        for l in legs:
            l.prepare()
        with ThreadPoolExecutor(NPROC) as ex:
            fs = []
            for l in legs:
                if not l.memcheck and l.variant == 'asan' and l.spec.get('probes', True):
                    names = sh([l.exe, '--list']).stdout.decode().split()
                    fs += [ex.submit(self.probe, l, n) for n in names]
            for l in sorted(legs, key=lambda l: not l.memcheck):
                fs += [ex.submit(self.shard, l, i) for i in range(l.shards)]
            for f in fs:
                f.result()
        return self.finish(legs)

    def finish(self, legs):
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(V + '/evidence', exist_ok=True)
        os.makedirs(V + '/replays', exist_ok=True)
        seen, lines = set(), []
        for v in self.viol:
            k = (v['harness'], v['key'])
            if k in seen and len(seen) > 0:
                continue
            seen.add(k)
            p = f"{V}/replays/{self.prop}-{v['leg']}-{v['kind']}-{v['which']}.json"
            json.dump(v, open(p, 'w'), indent=1)
            m = re.search(r'^VIOL .*|ERROR: AddressSanitizer.*|runtime error: .*|WARNING: ThreadSan.*|==\d+== \w.*', v['output'], re.M)
            lines.append(f"VIOLATION property={self.prop} replay={p}\n  {v['kind']} {v['which']} key={v['key']} {(m.group(0) if m else v['output'][-300:])[:500]}")
        cov = dict(evaluations=self.ev + len(self.probes_ok), distinct_nontrivial=len(self.sigs), rule=self.cfg['rule'],
                   samples=self.samples or ['(no case completed)'], monitored_events=self.cov,
                   directed_probes_passed=sorted(self.probes_ok), known_findings_observed=sorted(self.known),
                   legs=[dict(variant=l.variant + ('+valgrind' if l.memcheck else ''), cases=l.cases, library_sources=l.nlib) for l in legs])
        json.dump(dict(property=self.prop, tier=self.tier, seed=SEED, level=self.cfg.get('level', 'exploration'), coverage=cov,
                       wall_s=round(time.time() - self.t0, 2), assumptions=self.cfg.get('assumptions', []), violations=len(self.viol)),
                  open(f'{V}/evidence/{self.prop}.json', 'w'), indent=1)
        for k in sorted(self.known):
            print(f'KNOWN-FINDING: property={self.prop} {k}')
        for l in lines:
            print(l)
        print(f'{self.prop} {self.tier}: {self.ev} cases, {len(self.sigs)} distinct, {len(self.probes_ok)} probes ok, '
              f'{len(self.viol)} violation(s), {time.time() - self.t0:.1f}s')
        return 1 if self.viol else 0


def replay(path):
    v = json.load(open(path))
    leg = [Leg(s, v['tier']) for s in CHECKS[v['property']]['legs'] if s.get('name', s.get('variant', 'asan')) == v['leg'] and s['harness'] == v['harness']][0]
    leg.prepare()
    s = tempfile.mkdtemp(prefix='verif-replay-')
    os.chmod(s, 0o755)
    arg = ['--probe', v['which']] if v['kind'] == 'probe' else ['--case', str(v['which'])]
    rc, out = run_proc(leg.cmd(['--seed', str(v['seed'])] + arg), dict(ENV, H_SCRATCH=s, **leg.env), s, None, leg.stall)
    shutil.rmtree(s, ignore_errors=True)
    print(out)
    if rc:
        print(f"VIOLATION property={v['property']} replay={path}")
    return 1 if rc else 0


def main():
    if sys.argv[1:2] == ['--replay']:
        return replay(sys.argv[2])
    if sys.argv[1:2] == ['--build-all']:
        # the library's variants first, then the harnesses side by side
        legs = {(s['harness'], s.get('variant', 'asan'), tuple(s.get('cflags', ())), tuple(s.get('ldflags', ())), tuple(s.get('libflags', ()))) for c in CHECKS.values() for s in c['legs']}
        first = {(l[1], l[4]): l for l in legs}
        for l in first.values():
            build(*l)
        with ThreadPoolExecutor(NPROC) as ex:
            for f in [ex.submit(build, *l) for l in legs]:
                f.result()
        return 0
    prop, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    try:
        rc = Check(prop, tier).run()
    except BuildError as e:
        print(f'{prop}: cannot build or set up: {e}')
        return 3
    prune()
    return rc


if __name__ == '__main__':
    sys.exit(main())
