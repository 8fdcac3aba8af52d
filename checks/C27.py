from ppv import *
from tools import *
from C26 import message
import toolcases, struct


def main():
    chk = Check('C27', 'runs of every tool in which a chosen memory request fails (every one of small runs, sampled ones of larger runs; that one only, '
                'some, or all from there on; any size or large ones only), or the address space is limited; '
                'non-trivial = a run in which a request failed')
    exe = tools(*toolcases.NAMES, flavour='rel')
    so = os.path.join(chk.scratch, 'badalloc.so')
    rc, cmd, out = __import__('ppv')._compile(['gcc', '-shared', '-fPIC', '-O1', os.path.join(HARNESS, 'badalloc.c'), '-o', so])
    if rc:
        raise HarnessError('badalloc.c: ' + out)
    r = chk.rng

    def trie(w):
        return run([exe['make_trie_dictionary'], w], env=san_env()).out

    def go(n, c, plan, limit=None):
        log = os.path.join(chk.scratch, 'log%s' % n)
        open(log, 'wb').write(bytes(16))
        env = san_env(extra={k: str(v) for k, v in plan.items()})
        env.update(LD_PRELOAD=so, ALOG=log)
        for _ in range(2):
            res = run([exe[c.tool]] + c.argv, b'', env=env, as_bytes=limit)
            if not (res.timed_out or res.rc in (-24, -9)):
                break
        counts = struct.unpack('qq', open(log, 'rb').read())
        os.remove(log)
        return res, counts
    cases = []
    for n in range(chk.scale(4, 12)):
        cases += toolcases.make(r, os.path.join(chk.scratch, 'd%d' % n), n % 3, trie)
    jobs, alone = [], {}
    with ThreadPoolExecutor(NCPU) as ex:
        full = list(ex.map(lambda x: go('f%d' % x[0], x[1], {}), enumerate(cases)))
        large = list(ex.map(lambda x: go('l%d' % x[0], x[1], {'ABIG': 3000}), enumerate(cases)))
    for c, (res, (N, _)), (_, (L, _)) in zip(cases, full, large):
        c.res = res
        chk.count('requests_counted', N)
        if res.fault or res.rc or not N:
            chk.violation('failed:' + c.tool, '%s fails on a valid run: %s' % (c.tool, res.fault or res.rc), '%s\n%s' % (c.argv, res.err.decode('latin1')[-2000:]))
            continue
        at = {1, 2, 3, N, N - 1, N // 2} | {r.randrange(N) + 1 for _ in range(20)}
        if not chk.thorough:
            at = set(r.sample(sorted(at), min(12, len(at))))
            if N < (500 if c.tool == 'ocr2_extract_text' else 60):
                at = set(range(1, N + 1))
            else:                       # what is asked for once everything is loaded
                at |= set(r.sample(range(max(1, N - 200), N + 1), min(N, 15)))
        elif N < 1500:
            at = set(range(1, N + 1))
        for a in sorted(at):
            jobs.append((c, 'request %d of %d fails' % (a, N), dict(AFAIL=a, AMORE=1), None))
            if r.random() < .4:
                jobs.append((c, 'requests from %d of %d on fail' % (a, N), dict(AFAIL=a), None))
            if r.random() < .1:
                m = r.choice([2, 3, 10])
                jobs.append((c, '%d requests from %d of %d on fail' % (m, a, N), dict(AFAIL=a, AMORE=m), None))
        for a in sorted(r.sample(range(1, L + 1), min(L, 40 if chk.thorough else 8))):
            jobs.append((c, 'request %d of %d of 3000 bytes or more fails' % (a, L), dict(AFAIL=a, AMORE=1, ABIG=3000), None))
    with ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(lambda x: go(x[0], x[1][0], x[1][2], x[1][3]), enumerate(jobs)))
    for (c, what, plan, limit), (x, (N, fails)) in zip(jobs, rs):
        rp = '%s %s\n%s (%d requests, %d failed)\nexit %d\nstderr: %s' % (c.tool, ' '.join(c.argv), what, N, fails, x.rc, x.err.decode('latin1')[-1500:])
        chk.eval((c.tool, c.argv[0], what), fails > 0)
        chk.count('requests_failed', fails)
        if x.timed_out or x.rc in (-24, -9):
            chk.violation('hang:' + c.tool, '%s does not end when %s' % (c.tool, what), rp)
        elif x.rc == 0:
            chk.count('runs_unaffected')
            exp = c.res.out
            if c.tool == 'make_trie_dictionary' and message(x.err):     # the builder reports and leaves out a file it cannot open
                left = tuple(a for a in c.argv if a.encode() + b': Cannot allocate memory' not in x.err)
                chk.count('files_left_out', len(c.argv) - len(left))
                if left not in alone:
                    alone[left] = run([exe[c.tool], *left], env=san_env()).out if left else b''
                exp = alone[left]
            if x.out != exp:
                chk.violation('wrong:' + c.tool, '%s reports success with another output although memory ran out (%s)' % (c.tool, what),
                              rp + '\nexpected %d bytes: %r\ngot %d bytes: %r' % (len(c.res.out), c.res.out[:1500], len(x.out), x.out[:1500]))
        elif not fails:
            chk.violation('failed:' + c.tool, '%s fails although nothing was refused' % c.tool, rp)
        elif x.rc < 0 and x.rc != -6 or x.rc == -6 and b'terminate called' not in x.err:
            chk.violation('fault:%s:%d' % (c.tool, x.rc), '%s ends by signal %d when memory runs out (%s)' % (c.tool, -x.rc, what), rp)
        elif not message(x.err):
            chk.violation('silent:' + c.tool, '%s fails without a message when memory runs out (%s)' % (c.tool, what), rp)
        else:
            chk.count('runs_ended_visibly')
            chk.sample('%s: %s: exit %d, %s' % (c.tool, what, x.rc, x.err.decode('latin1').strip().split('\n')[-1][-80:]))
    chk.need(chk.counts.get('runs_ended_visibly', 0) > 200 or chk.violations, 'too few runs that ran out of memory')
    return chk.finish()
