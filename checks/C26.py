from ppv import *
from tools import *
import toolcases, errno

# what a valid run may print on standard error
NOISE = re.compile(rb'^(\d[\d.e+-]*s|Glyphs: \d+)?$')


def message(err):
    return any(l and not NOISE.match(l) for l in err.split(b'\n'))


name_of = os.path.basename


def preload(chk):
    so = os.path.join(chk.scratch, 'badread.so')
    rc, cmd, out = __import__('ppv')._compile(['gcc', '-shared', '-fPIC', '-O1', os.path.join(HARNESS, 'badread.c'), '-o', so, '-ldl'])
    if rc:
        raise HarnessError('badread.c: ' + out)
    return so


def main():
    chk = Check('C26', 'runs of every tool with each of its input files in turn failing to be read from a chosen byte on (every byte of small files; '
                'block borders, ends and random places of larger ones), with each error, for ever or for a while, and read in small pieces '
                'or through a pipe; non-trivial = a run with a read that failed')
    exe = tools(*toolcases.NAMES)
    so = preload(chk)
    r = chk.rng

    def trie(w):
        return run([exe['make_trie_dictionary'], w], env=san_env()).out
    cases = []
    for n in range(chk.scale(6, 10)):
        cases += toolcases.make(r, os.path.join(chk.scratch, 'd%d' % n), n % 3, trie)
    full = run_many([([exe[c.tool]] + c.argv, b'', None) for c in cases])
    jobs = []
    errs = [errno.EIO, errno.EIO, errno.ESTALE, errno.EBADF, errno.EISDIR, errno.ENOMEM]
    for c, (res,) in zip(cases, full):
        c.res = res
        if res.fault or res.rc:
            chk.violation('failed:' + c.tool, '%s fails on a valid run: %s' % (c.tool, res.fault or res.rc), '%s\n%s' % (c.argv, res.err.decode('latin1')[-2000:]))
            continue
        for k in c.files:
            f = c.argv[k]
            if c.argv.count(f) > 1 and c.argv.index(f) != k:
                continue
            size = os.path.getsize(f)
            b = open(f, 'rb').read()
            at = {0, 1, size // 2, size - 1, size} | {x for x in (4095, 4096, 8190, 8191, 8192, 16382, 65536) if x <= size}
            for q in range(12):                     # places between two items, and at the beginning and end of one
                at.add(r.randrange(size + 1))
                p = r.randrange(size + 1)
                for e in (b.find(b'\n', p), b.find(b' ', p)):
                    if e >= 0:
                        at |= {e, e + 1}
            if chk.thorough:
                at |= set(range(size + 1)) if size < 400 else set(r.randrange(size + 1) for _ in range(40))
            else:
                at = set(r.sample(sorted(at), min(len(at), 7))) | {size, 0, max(0, size - 1)}
            for a in sorted(at):
                e = r.choice(errs)
                jobs.append((c, k, 'every read from byte %d on fails with %s' % (a, errno.errorcode[e]), dict(RAT=a, RERR=e, RCHUNK=r.choice([0, 0, 0, 1000, 4096]))))
            a = r.choice(sorted(at))
            jobs.append((c, k, 'one read at byte %d fails with EIO' % a, dict(RAT=a, RERR=errno.EIO, RTIMES=1)))
            a = r.choice(sorted(at))
            jobs.append((c, k, 'three reads at byte %d are interrupted' % a, dict(RAT=a, RERR=errno.EINTR, RTIMES=3)))
            for ch in ([1, 7, 4096] if size < 20000 else [511, 4096]):
                jobs.append((c, k, 'read in pieces of %d bytes' % ch, dict(RAT=-1, RCHUNK=ch)))
            if name_of(f) not in ('i', 'bi', 'oi'):                       # images are read from regular files
                jobs.append((c, k, 'read through a pipe', None))

    def one(j):
        n, (c, k, what, plan) = j
        argv = [exe[c.tool]] + c.argv
        if plan is None:
            argv[k + 1] = '/dev/stdin'
            p = subprocess.Popen(['cat', c.argv[k]], stdout=subprocess.PIPE)
            try:
                x = subprocess.run(argv, stdin=p.stdout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=san_env(), timeout=300)
                res = Run(x.returncode, x.stdout, x.stderr)
            except subprocess.TimeoutExpired:
                res = Run(-9, b'', b'', True)
            p.stdout.close()
            p.wait()
            return res, 0, 0
        log = os.path.join(chk.scratch, 'log%d' % n)
        env = san_env(extra={k: str(v) for k, v in plan.items()})
        env['ASAN_OPTIONS'] += ':verify_asan_link_order=0'
        env.update(LD_PRELOAD=so, RFILE=c.argv[k], RLOG=log)
        for _ in range(2):
            res = run(argv, b'', env=env)
            if not (res.timed_out or res.rc in (-24, -9)):
                break
        try:
            reads, fails = map(int, open(log).read().split())
        except FileNotFoundError:
            reads = fails = 0
        return res, reads, fails
    with ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(one, enumerate(jobs)))
    for (c, k, what, plan), (x, reads, fails) in zip(jobs, rs):
        name = os.path.basename(c.argv[k])
        rp = '%s %s\n%s: %s (%d reads, %d failed)\nexit %d\nstderr: %s' % (c.tool, ' '.join(c.argv), c.argv[k], what, reads, fails, x.rc, x.err.decode('latin1')[-1500:])
        if tool_fault(chk, c.tool, x, rp):
            continue
        chk.count('reads_observed', reads)
        chk.count('reads_failed', fails)
        intr = plan is not None and plan.get('RERR') == errno.EINTR
        chk.eval((c.tool, name, what, rp), fails > 0)
        if plan is not None and not reads:
            chk.count('files_not_read')
            if x.rc == 0:
                chk.violation('unread:' + c.tool, '%s succeeds without reading its input %s' % (c.tool, name), rp)
            continue
        if fails and not intr:
            chk.count('runs_that_must_fail')
            if x.rc == 0:
                chk.violation('success:%s' % c.tool, '%s reports success although its input %s could not be read (%s)' % (c.tool, name, what), rp)
            elif not message(x.err):
                chk.violation('silent:' + c.tool, '%s fails without a message (%s)' % (c.tool, what), rp)
            else:
                chk.sample('%s, %s: %s: exit %d, %s' % (c.tool, name, what, x.rc, x.err.decode('latin1').strip().split('\n')[-1][-80:]))
        elif fails and x.rc:            # an interrupted read may be reported instead of repeated
            chk.count('interruptions_reported')
            if not message(x.err):
                chk.violation('silent:' + c.tool, '%s fails without a message (%s)' % (c.tool, what), rp)
        else:
            chk.count('interruptions_repeated' if fails else 'reads_in_pieces')
            if x.rc:
                chk.violation('failed:' + c.tool, '%s fails although its input can be read (%s)' % (c.tool, what), rp)
            elif x.out != c.res.out:
                chk.violation('differs:' + c.tool, '%s gives another output when its input is read differently (%s)' % (c.tool, what),
                              rp + '\nexpected %d bytes: %r\ngot %d bytes: %r' % (len(c.res.out), c.res.out[:1500], len(x.out), x.out[:1500]))
    chk.need(chk.counts.get('runs_that_must_fail', 0) > 100 or chk.violations, 'too few read errors')
    return chk.finish()
