"""Shared machinery: builds of /repo's current tree, probe execution, verdicts, evidence."""
import hashlib, json, os, random, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PPOCR_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
HARNESS = os.path.join(VERIF, 'harness')
NCPU = os.cpu_count() or 4

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')


class HarnessError(Exception):
    """The check itself could not run: neither 'held' nor 'violated'."""


# ------------------------------------------------------------------------------- build
FLAVOURS = {
    # address + undefined behaviour sanitizers, bounds-checked standard library; reports are fatal
    'san': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
            '-fno-sanitize=vptr', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-DNDEBUG'],
    # data race detector
    'tsan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread', '-DNDEBUG'],
    # same optimisation level as shipped
    'rel': ['-O2', '-g1', '-DNDEBUG'],
}
BASE = ['-std=c++17', '-fno-rtti', '-w', '-I' + os.path.join(REPO, 'src'), '-I' + HARNESS]

# sources of the tree that are not part of any target (they do not compile)
STALE = ('read_definitions_file_and_normalize.cpp', 'unique_sort_definition.cpp')


def repo_sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src', 'ppocr')):
        for f in fs:
            if f.endswith('.cpp') and f not in STALE:
                out.append(os.path.join(d, f))
    return sorted(out)


def _tree_hash(extra):
    h = hashlib.sha256()
    files = []
    for top in ('src', 'main'):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            files += [os.path.join(d, f) for f in fs]
    files += [os.path.join(HARNESS, f) for f in os.listdir(HARNESS)]
    for f in sorted(files):
        h.update(f.encode()); h.update(b'\0')
        with open(f, 'rb') as fd:
            h.update(hashlib.sha256(fd.read()).digest())
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]


def _compile(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, ' '.join(cmd), p.stdout


def build(targets, flavour='san'):
    """targets: {name: (main source, [extra link flags])}. Returns {name: path}.

    Every library source of the current tree is compiled; a source that does not compile is
    fatal only if a target cannot be linked without it."""
    flags = FLAVOURS[flavour]
    th = _tree_hash((flavour, flags, BASE))
    top = os.path.join(BUILD, flavour + '-' + th)
    os.makedirs(os.path.join(top, 'o'), exist_ok=True)
    for old in os.listdir(BUILD):
        if old.startswith(flavour + '-') and old != flavour + '-' + th:
            shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
    libs, jobs = [], []
    for s in repo_sources():
        o = os.path.join(top, 'o', os.path.relpath(s, REPO).replace('/', '_') + '.o')
        libs.append(o)
        if not os.path.exists(o):
            jobs.append((o, ['g++'] + BASE + flags + ['-c', s, '-o', o + '.tmp']))
    mains = {}
    for name, (src, extra) in targets.items():
        o = os.path.join(top, 'o', 'main_' + name + '.o')
        mains[name] = o
        if not os.path.exists(o):
            jobs.insert(0, (o, ['g++'] + BASE + flags + ['-c', src, '-o', o + '.tmp']))

    def one(j):
        rc, cmd, out = _compile(j[1])
        if rc == 0:
            os.rename(j[0] + '.tmp', j[0])
            return None
        return (j[0], cmd, out)

    with ThreadPoolExecutor(NCPU) as ex:
        fails = [f for f in ex.map(one, jobs) if f]
    ar = os.path.join(top, 'libppocr.a')
    have = [o for o in libs if os.path.exists(o)]
    if not os.path.exists(ar) or jobs:
        if os.path.exists(ar):
            os.remove(ar)
        rc, cmd, out = _compile(['ar', 'rcs', ar] + have)
        if rc:
            raise HarnessError('archive: ' + out)
    res = {}

    def link(name):
        exe = os.path.join(top, name)
        if not os.path.exists(exe):
            if not os.path.exists(mains[name]):
                return name, next((f[1] + '\n' + f[2] for f in fails if f[0] == mains[name]), '?')
            rc, cmd, out = _compile(['g++'] + flags + [mains[name], ar, '-o', exe + '.tmp'] + targets[name][1])
            if rc:
                return name, out
            os.rename(exe + '.tmp', exe)
        res[name] = exe
        return name, None
    with ThreadPoolExecutor(NCPU) as ex:
        bad = [b for b in ex.map(link, targets) if b[1]]
    if bad:
        raise HarnessError('build of %s failed:\n%s\n%s' % (bad[0][0], bad[0][1][-3000:],
                           '\n'.join(f[1] + '\n' + f[2][-1500:] for f in fails[:2])))
    return res


def probe_target(name, *link):
    return {name: (os.path.join(HARNESS, name + '.cpp'), list(link))}


def tool_target(name):
    return {name: (os.path.join(REPO, 'main', name + '.cpp'), [])}


# ------------------------------------------------------------------------------- running
def san_env(fill=None, rss_mb=3000, extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('ASAN_', 'UBSAN_', 'LSAN_', 'TSAN_', 'MALLOC_'))}
    a = ['abort_on_error=0', 'exitcode=97', 'detect_leaks=0', 'hard_rss_limit_mb=%d' % rss_mb,
         'detect_stack_use_after_return=1', 'strict_string_checks=0', 'allocator_may_return_null=0',
         'print_summary=1', 'handle_abort=0']
    if fill is not None:
        a += ['max_malloc_fill_size=268435456', 'malloc_fill_byte=%d' % fill,
              'max_free_fill_size=268435456', 'free_fill_byte=%d' % (fill ^ 0x55)]
    e['ASAN_OPTIONS'] = ':'.join(a)
    e['TSAN_OPTIONS'] = 'halt_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=4'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
    e['LC_ALL'] = 'C'
    e.update(extra or {})
    return e


def _limits(cpu, fsize=1 << 30, as_bytes=None):
    def f():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if as_bytes:
            resource.setrlimit(resource.RLIMIT_AS, (as_bytes, as_bytes))
    return f


class Run:
    def __init__(self, rc, out, err, timed_out=False):
        self.rc, self.out, self.err, self.timed_out = rc, out, err, timed_out

    @property
    def sanitizer(self):
        m = re.search(rb'(ERROR: AddressSanitizer:[^\n]*|runtime error:[^\n]*|hard rss limit exhausted[^\n]*|'
                      rb'AddressSanitizer:[^\n]*DEADLYSIGNAL[^\n]*)', self.err)
        return m.group(1).decode('latin1') if m else None

    @property
    def fault(self):
        """Why this run is not an orderly one, or None (any plain exit code is orderly)."""
        if self.timed_out:
            return 'wall clock watchdog'
        if self.sanitizer:
            return self.sanitizer
        if self.rc in (-24, -9):
            return 'cpu budget exhausted' if self.rc == -24 else 'killed'
        if self.rc < 0:
            return 'signal %d' % -self.rc
        return None


def run(cmd, stdin=b'', cpu=60, wall=None, env=None, cwd=None, as_bytes=None, fsize=1 << 30):
    try:
        p = subprocess.run(cmd, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env=env if env is not None else san_env(), cwd=cwd,
                           timeout=wall or cpu * 8 + 60, preexec_fn=_limits(cpu, fsize, as_bytes))
        return Run(p.returncode, p.stdout, p.stderr)
    except subprocess.TimeoutExpired as e:
        return Run(-9, e.stdout or b'', e.stderr or b'', True)


class Case:
    __slots__ = ('lines', 'fault', 'detail')

    def __init__(self, lines=None, fault=None, detail=''):
        self.lines, self.fault, self.detail = lines or [], fault, detail


def _parse(out):
    cases, cur, ended = [], None, False
    for l in out.decode('latin1').split('\n'):
        if l == '@end':
            ended = True
        elif l.startswith('@'):
            cur = []
            cases.append(cur)
        elif cur is not None:
            cur.append(l)
    for c in cases:
        if c and c[-1] == '':
            c.pop()
    return cases, ended


def run_cases(exe, lines, cpu=120, fill=None, max_faults=6, rss_mb=3000, env=None, cwd=None, hung=None):
    """Runs the probe over the case lines; restarts after a crashing case. Returns [Case]."""
    res, i, faults = [], 0, 0
    hung = hung if hung is not None else []
    while i < len(lines):
        chunk = lines[i:]
        r = run([exe], ('\n'.join(chunk) + '\n').encode('latin1'), cpu=cpu,
                env=san_env(fill, rss_mb, env), cwd=cwd)
        got, ended = _parse(r.out)
        if hung and r.rc in (-24, -9) and not r.sanitizer:      # one case that never ends is enough
            res += [Case(g) for g in got[:-1]] + [Case(None, 'not run') for _ in lines[i + max(0, len(got) - 1):]]
            break
        if ended and r.rc == 0 and len(got) == len(chunk):
            res += [Case(g) for g in got]
            break
        if r.rc == 3 and not r.fault:
            raise HarnessError('probe: ' + r.err.decode('latin1')[-500:])
        if not got:
            raise HarnessError('probe %s did not start: rc=%d %s' % (exe, r.rc, r.err.decode('latin1')[-2000:]))
        if r.timed_out or r.rc in (-24, -9) and not r.sanitizer:
            # budget of the whole batch: decide on the suspect case alone, twice
            solo = None
            for _ in range(2):
                solo = run([exe], (chunk[len(got) - 1] + '\n').encode('latin1'), cpu=30,
                           env=san_env(fill, rss_mb, env), cwd=cwd)
                g2, e2 = _parse(solo.out)
                if e2 and solo.rc == 0:
                    break
            else:
                if solo.timed_out:
                    raise HarnessError('watchdog twice on one case: inconclusive')
                r = solo
                got = got[:-1] + g2[:1]
                res += [Case(g) for g in got[:-1]]
                res.append(Case(got[-1], r.fault or 'exit %d' % r.rc, r.err.decode('latin1')[-4000:]))
                i += len(got)
                hung.append(1)
                res += [Case(None, 'not run') for _ in lines[i:]]
                break
            res += [Case(g) for g in got[:-1]] + [Case(g2[0])]
            i += len(got)
            continue
        res += [Case(g) for g in got[:-1]]
        res.append(Case(got[-1], r.fault or 'exit %d' % r.rc, r.err.decode('latin1')[-4000:]))
        i += len(got)
        faults += 1
        if faults >= max_faults:
            res += [Case(None, 'not run') for _ in lines[i:]]
            break
    return res


def run_cases_parallel(exe, lines, fills=(0x78, 0x2d), shards=4, **kw):
    """Runs every case once per heap fill pattern (a read of uninitialised memory shows as a
    difference), sharded. Returns [[Case per fill]] in case order."""
    n = len(lines)
    shards = max(1, min(shards, n // 50 or 1))
    parts = [(f, k) for f in fills for k in range(shards)]
    out = {f: [None] * n for f in fills}
    hung = []

    def go(p):
        f, k = p
        idx = list(range(k, n, shards))
        return f, idx, run_cases(exe, [lines[i] for i in idx], fill=f, hung=hung, **kw)
    with ThreadPoolExecutor(NCPU) as ex:
        for f, idx, cs in ex.map(go, parts):
            for i, c in zip(idx, cs):
                out[f][i] = c
    return [[out[f][i] for f in fills] for i in range(n)]


# ------------------------------------------------------------------------------- verdicts
class Check:
    def __init__(self, prop, rule):
        self.prop, self.rule = prop, rule
        self.t0 = time.time()
        self.seed, self.tier = SEED, TIER
        self.rng = random.Random('%s/%d' % (prop, SEED))
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counts = {}
        self.violations = {}      # key -> (what, replay text)
        self.inconclusive = []
        self.assumptions = []
        self.known = load_known(prop)
        self.thorough = TIER == 'thorough'
        self.scratch = tempfile.mkdtemp(prefix='ppv-%s-' % prop)

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def eval(self, key=None, nontrivial=True):
        self.evaluations += 1
        if nontrivial and key is not None:
            self.distinct.add(hashlib.md5(repr(key).encode('utf8', 'surrogateescape')).digest()[:8])

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s if len(str(s)) < 600 else str(s)[:600] + '...')

    def violation(self, key, what, replay):
        if key not in self.violations:
            self.violations[key] = (what, replay)

    def need(self, cond, what):
        """A run that observed too little is inconclusive, not a pass."""
        if not cond:
            self.inconclusive.append(what)

    def finish(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        new = []
        for key, (what, replay) in self.violations.items():
            if key in self.known:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, self.known[key]))
            else:
                new.append((key, what, replay))
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct),
                   rule=self.rule, samples=self.samples or ['(none)'])
        cov.update(self.counts)
        ev = dict(property=self.prop, tier='thorough' if self.thorough else 'quick', seed=self.seed,
                  level='exploration', coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(new))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s seed=%d: evaluations=%d distinct=%d %s wall=%.1fs' % (
            self.prop, ev['tier'], self.seed, self.evaluations, len(self.distinct),
            ' '.join('%s=%s' % kv for kv in self.counts.items()), time.time() - self.t0))
        if new:
            d = os.path.join(VERIF, '.build', 'replay')
            os.makedirs(d, exist_ok=True)
            for n, (key, what, replay) in enumerate(new[:20]):
                path = os.path.join(d, '%s-%d.txt' % (self.prop, n))
                with open(path, 'w', errors='surrogateescape') as f:
                    f.write('property: %s\nkey: %s\nwhat: %s\nseed: %d tier: %s\n\n%s\n' % (
                        self.prop, key, what, self.seed, self.tier, replay))
                print('  %s: %s' % (key, what[:400]))
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        if self.inconclusive:
            print('INCONCLUSIVE %s: %s' % (self.prop, '; '.join(self.inconclusive)))
            return 2
        return 0


def load_known(prop):
    """known_findings.txt: 'finding: property=<id> key=<key> <text>'; 'fixed:' lines suppress nothing."""
    res = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def fault_key(fault, detail=''):
    """Stable identity of a sanitizer report: kind and innermost frame of the tree's own sources."""
    kind = re.sub(r'0x[0-9a-f]+|\d+', 'N', fault)[:80]
    m = re.search(r'/src/ppocr/([\w/.]+):\d+', detail) or re.search(r'/main/([\w/.]+):\d+', detail)
    return re.sub(r'\s+', '_', kind) + ('@' + m.group(1) if m else '')


def judge(chk, lines, results, oracle, label='case', key=None, nontrivial=None):
    """Common monitor: no sanitizer report, no dependence on heap contents, and the oracle."""
    for line, per_fill in zip(lines, results):
        bad = False
        for c in per_fill:
            if c.fault == 'not run':
                bad = True
            elif c.fault:
                bad = True
                chk.violation('fault:' + fault_key(c.fault, c.detail), '%s: %s' % (label, c.fault),
                              'case: %s\n\n%s' % (line, c.detail))
        if bad:
            continue
        if any(c.lines != per_fill[0].lines for c in per_fill[1:]):
            a, b = per_fill[0].lines, per_fill[1].lines
            d = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
            chk.violation('uninitialised', '%s: result depends on uninitialised memory (observation %d)' % (label, d),
                          'case: %s\n%s\n%s' % (line, a[d:d + 1], b[d:d + 1]))
            continue
        chk.eval(key(line) if key else line, nontrivial(line) if nontrivial else True)
        try:
            oracle(line, per_fill[0].lines)
        except (IndexError, ValueError) as e:      # observations that are not what a case reports
            chk.violation('shape', '%s: unexpected observations (%s: %s)' % (label, type(e).__name__, e),
                          'case: %s\n%s' % (line, '\n'.join(per_fill[0].lines)[:8000]))
