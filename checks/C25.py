from ppv import *
from tools import *
from wordgen import wordlist
from C08 import line_image
import models, gen, dbgen, signal

NAMES = ['write_glyphs', 'show_glyphs', 'normalize_glyphs', 'write_datas', 'make_trie_dictionary', 'ocr2_extract_text']


def go(argv, out, limit=None, xfsz=True, plan=None, preload=None, pipe=None, cpu=60):
    """runs a tool with its standard output as described -> Run (output not captured)"""
    def pre():
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        if xfsz:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            signal.signal(signal.SIGPIPE, signal.SIG_IGN)
        if out is None and pipe is None:
            os.close(1)
    env = san_env()
    if plan:
        env.update(LD_PRELOAD=preload, PLAN=plan)
    for _ in range(2):
        rd = wr = None
        if pipe is not None:                    # a reader that leaves at once
            rd, wr = os.pipe()
            os.close(rd)
        f = wr if wr is not None else open(out, 'wb') if out else None
        try:
            p = subprocess.run(argv, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.PIPE, env=env, preexec_fn=pre, timeout=cpu * 8)
            r = Run(p.returncode, b'', p.stderr)
        except subprocess.TimeoutExpired as e:
            r = Run(-9, b'', e.stderr or b'', True)
        finally:
            if wr is not None:
                os.close(wr)
            elif f:
                f.close()
        if not (r.timed_out or r.rc in (-24, -9)):
            break
    return r


def main():
    chk = Check('C25', 'runs of every tool with outputs of a few bytes to some hundred kilobytes, written to a full device, a closed output, '
                'a pipe without reader, a file limited to chosen numbers of bytes, and through a planned sequence of partial, '
                'interrupted and failing writes; non-trivial = a run whose output cannot be completely written')
    exe = tools(*NAMES)
    rel = tools(*NAMES, flavour='rel')
    pre = os.path.join(chk.scratch, 'badwrite.so')
    rc, cmd, out = __import__('ppv')._compile(['gcc', '-shared', '-fPIC', '-O1', os.path.join(HARNESS, 'badwrite.c'), '-o', pre, '-ldl'])
    if rc:
        raise HarnessError('badwrite.c: ' + out)
    r = chk.rng
    cases = []
    for n in range(chk.scale(5, 200)):
        d = os.path.join(chk.scratch, 'd%d' % n)
        os.mkdir(d)

        def put(name, b):
            p = os.path.join(d, name)
            open(p, 'wb').write(b if isinstance(b, bytes) else b.encode())
            return p
        big = n % 3                     # 0: small, 1: some blocks, 2: large
        img = gen.text_line(r, [40, 1200, 3000][big], 12, [2, 150, 500][big])
        while len(models.boxes(img)) < 2:
            img = line_image(r)
        db = [dbgen.synth_db(r, 3), dbgen.real_db(r, 120), dbgen.synth_db(r, 40)][big]
        seen = {}
        for i, v in db:
            seen.setdefault(i, []).extend(v)
        db = [(i, sorted(set(v))) for i, v in seen.items()]
        ws = [['a', 'bc'], wordlist(r)[0] + ['x' * 900], [''.join(r.choice('abcdefgh') for _ in range(7)) for _ in range(3000)]][big]
        i, t = put('i', pnm_of(img, r.choice('46'), r)), put('t', ' '.join(r.choice(WORDS) for _ in models.boxes(img)))
        g, f = put('g', dbgen.text(db)), put('f', models.datas_text([dbgen.features(q) for q, _ in db]))
        w = put('w', '\n'.join(ws) + '\n')
        cases += [('write_glyphs', [i, t, 'f']), ('write_glyphs', [i, t, 'f', i, t, 'g']), ('show_glyphs', [i]), ('normalize_glyphs', [g]),
                  ('write_datas', [g]), ('make_trie_dictionary', [w]), ('ocr2_extract_text', [g, f, i])]
    full = run_many([([exe[t]] + a, b'', None) for t, a in cases])
    jobs = []
    for k, ((t, a), (res,)) in enumerate(zip(cases, full)):
        if res.fault or res.rc:
            chk.violation('failed:' + t, '%s fails on a valid run: %s' % (t, res.fault or res.rc), '%s\n%s' % (a, res.err.decode('latin1')[-2000:]))
            continue
        L = len(res.out)
        chk.count('bytes_of_output', L)
        if not L:
            continue
        lim = {0, 1, L - 1, L, L + 1, L // 2, r.randrange(L), r.randrange(L), 4095, 4096, 4097, 8192, 65536, L // 4096 * 4096}
        if not chk.thorough:
            lim = set(r.sample(sorted(lim), 7)) | {L - 1, L}
        for l in sorted(lim):
            jobs.append((k, 'file limited to %d bytes' % l, dict(limit=l), l < L))
        jobs.append((k, 'file limited to %d bytes, default signals' % (L // 2), dict(limit=L // 2, xfsz=False), True))
        jobs.append((k, 'full device', dict(out='/dev/full'), True))
        jobs.append((k, 'closed output', dict(out=None), True))
        jobs.append((k, 'pipe without reader', dict(pipe=1), True))
        jobs.append((k, 'pipe without reader, default signals', dict(pipe=1, xfsz=False), True))
        plans = ['ho', 's', 'h', 'so', 'shso', 'ooh', 'n', 'e', 'no', 'on', 'eo', 'oe', 'ono', 'hno', 'sn', 'oono', 'io', 'iiiiiih', 'oio', 'ihihio', 'oooono', 'ooooooooeo',
                 ''.join(r.choice('ooohs') for _ in range(6)) + r.choice('no') + 'o']
        for p in plans if chk.thorough else r.sample(plans, 9):
            jobs.append((k, 'writes planned %s' % p, dict(plan=p), None))

    def one(j):
        n, (k, what, how, _) = j
        t, a = cases[k]
        how = dict(how)
        out = how.pop('out', os.path.join(chk.scratch, 'o%d' % n))
        x = go([(rel if how.get('plan') else exe)[t]] + a, out, preload=pre, **how)
        got = None
        if out and out.startswith(chk.scratch) and 'pipe' not in how:
            got = open(out, 'rb').read()
            os.remove(out)
        return x, got
    with ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(one, enumerate(jobs)))
    for (k, what, how, lost), (x, got) in zip(jobs, rs):
        t, a = cases[k]
        exp = full[k][0].out
        rp = '%s %s\nstandard output: %s\nexit %d, %s of %d bytes written\nstderr: %s' % (
            t, ' '.join(a), what, x.rc, len(got) if got is not None else '?', len(exp), x.err.decode('latin1')[-800:])
        visible = x.rc in (-int(signal.SIGXFSZ), -int(signal.SIGPIPE)) and how.get('xfsz') is False
        if not visible and tool_fault(chk, t, x, rp):
            continue
        if t == 'ocr2_extract_text' or got is None:
            same = got is None or got == exp
        else:
            same = got == exp
        if lost is None:                 # planned writes: what reached the file decides
            lost = not same
        chk.eval((t, k, what), lost)
        chk.count('outputs_lost' if lost else 'outputs_written')
        if lost and x.rc == 0:
            chk.violation('success:' + t, '%s reports success although its output was not written (%s)' % (t, what), rp)
        elif lost and not visible and not re.sub(rb'\d[\d.e+-]*s\n|Glyphs: \d+\n', b'', x.err).strip():
            chk.violation('silent:' + t, '%s fails without a message (%s)' % (t, what), rp)
        elif not lost and (x.rc or not same):
            chk.violation('failed:' + t, '%s fails (exit %d) although its output can be written (%s)' % (t, x.rc, what), rp)
        elif lost:
            chk.sample('%s, %s: exit %d, %s of %d bytes' % (t, what, x.rc, len(got) if got is not None else '?', len(exp)))
    chk.need(chk.counts.get('outputs_lost', 0) > 100 or chk.violations, 'too few lost outputs')
    return chk.finish()
