from ppv import *
from tools import *
from C22 import compose
import models, dbgen


def main():
    chk = Check('C28', 'groups of threads, each with its own recognition state, that decode, segment, recognise, filter, assemble, replace, learn, extract features '
                'and build and ask dictionaries in their own random order with random pauses, sharing one loaded database, word line table, '
                'dictionary, rule list and pictures; under a race detector and under address checking; non-trivial = a group whose stages overlapped')
    exes = {'tsan': build(probe_target('probe_threads'), 'tsan')['probe_threads'], 'san': build(probe_target('probe_threads'))['probe_threads']}
    r = chk.rng
    jobs = []
    for n in range(chk.scale(8, 600)):
        d = os.path.join(chk.scratch, 'd%d' % n)
        os.mkdir(d)
        db = dbgen.real_db(r, r.choice([20, 60, 150])) if n % 2 else dbgen.synth_db(r, r.choice([3, 8, 20]))
        by = {}
        for i, v in db:
            by.setdefault(i, (i, v))
        db = list(by.values())
        ws = sorted({w for _, v in db for w, _ in v})

        def put(f, t):
            open(os.path.join(d, f), 'wb').write(t if isinstance(t, bytes) else t.encode())
            return os.path.join(d, f)
        words = sorted({''.join(r.choice(ws) for _ in range(r.choice([1, 2, 3]))) for _ in range(r.choice([1, 20, 200]))})
        args = [put('g', dbgen.text(db)), put('d', models.datas_text([dbgen.features(i) for i, _ in db])),
                put('l', ''.join('%s %d %d %d %d\n' % ((w,) + tuple(r.randrange(6) for _ in range(4))) for w in ws if len(w.encode()) <= 8)),
                put('w', ''.join(w + '\n' for w in words)), put('r', ''.join('%s %s\n' % (r.choice(ws), r.choice(ws)) for _ in range(4)))]
        images = [put('i%d' % k, pnm_of(compose(r, db, r.choice([3, 6, 12])), r.choice('146'), r)) for k in range(r.choice([3, 5]))]
        for fl in ('tsan', 'san'):
            jobs.append((fl, [exes[fl], str(r.randrange(1 << 20)), str(r.choice([2, 3, 4, 8])), str(chk.scale(2, 4))] + args + images))

    def one(j):
        for _ in range(2):
            x = run(j[1], b'', cpu=200, env=san_env())
            if not (x.timed_out or x.rc in (-24, -9)):
                break
        return x
    with ThreadPoolExecutor(3) as ex:
        rs = list(ex.map(one, jobs))
    pairs = 0
    for (fl, argv), x in zip(jobs, rs):
        err = x.err.decode('latin1')
        rp = '%s\n%s' % (' '.join(argv), '\n'.join('%s: %s' % (a, open(a, 'rb').read().hex()[:8000]) for a in argv[4:]))
        m = re.search(r'done (\d+) stages (\d+) overlaps (\d+) pairs (\d+) chars (\d+)', x.out.decode('latin1'))
        race = re.search(r'WARNING: ThreadSanitizer: ([^\n]*?) \(pid=\d+\)', err)
        if race:
            chk.violation('race:' + fault_key(race.group(1), err), 'threads with their own state: ' + race.group(1), rp + '\n\n' + err[:6000])
            chk.eval((fl, rp), True)
        elif x.timed_out:
            raise HarnessError('watchdog twice: ' + rp[:300])
        elif x.fault or not m:
            if not x.fault and (x.rc == 66 or 'FATAL: ThreadSanitizer' in err):
                raise HarnessError('race detector: ' + err[-500:])
            chk.violation('fault:' + fault_key(x.fault or 'exit', err), 'threads with their own state: %s' % (x.fault or 'exit %d' % x.rc), rp + '\n\n' + err[-6000:])
            chk.eval((fl, rp), True)
        elif b'DIFFERS' in x.out:
            chk.violation('differs', 'a thread gets another result than alone', rp + '\n\n' + x.out.decode('latin1')[:6000])
            chk.eval((fl, rp), True)
        else:
            done, stages, overlaps, p, chars = map(int, m.groups())
            chk.eval((fl, rp), overlaps > 0)
            pairs = max(pairs, p)
            for k, v in (('tasks', done), ('stages_observed', stages), ('overlapping_stage_pairs', overlaps), (fl + '_groups', 1)):
                chk.count(k, v)
            chk.sample('%s: %s threads: %s' % (fl, argv[2], m.group(0)))
    chk.counts['distinct_kinds_of_overlap'] = pairs
    chk.need(chk.counts.get('overlapping_stage_pairs', 0) > 1000 or chk.violations, 'the threads hardly overlapped')
    return chk.finish()
