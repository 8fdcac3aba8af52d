from ppv import *
from tools import *
from C22 import compose
import models, dbgen


def main():
    chk = Check('C31', 'decoding, loading of every kind of file (valid, truncated, mutated, missing, of another kind), recognition, learning and spelling, '
                'each with its memory and descriptors counted, as it is and with each (sampled: every n-th) memory request refused, and recognition state '
                'used again after that; non-trivial = a group in which operations ended by an exception')
    exe = build(probe_target('probe_leaks'), 'rel')['probe_leaks']
    trie = tools('make_trie_dictionary', flavour='rel')['make_trie_dictionary']
    r = chk.rng
    jobs = []
    for n in range(chk.scale(60, 400)):
        d = os.path.join(chk.scratch, 'd%d' % n)
        os.mkdir(d)
        db = dbgen.real_db(r, r.choice([10, 30, 60])) if n % 2 else dbgen.synth_db(r, r.choice([1, 3, 8, 20]))
        by = {}
        for i, v in db:
            by.setdefault(i, (i, v))
        db = list(by.values())
        ws = sorted({w for _, v in db for w, _ in v})

        def put(f, t, d=d):
            open(os.path.join(d, f), 'wb').write(t if isinstance(t, bytes) else t.encode())
            return os.path.join(d, f)
        words = sorted({''.join(r.choice(ws) for _ in range(r.choice([1, 2, 3]))) for _ in range(r.choice([1, 20, 100]))})
        args = [put('g', dbgen.text(db)), put('d', models.datas_text([dbgen.features(i) for i, _ in db])),
                put('l', ''.join('%s %d %d %d %d\n' % ((w,) + tuple(r.randrange(6) for _ in range(4))) for w in ws if len(w.encode()) <= 8)),
                put('w', ''.join(w + '\n' for w in words)), put('r', ''.join('%s %s\n' % (r.choice(ws), r.choice(ws)) for _ in range(4)))]
        images = [put('i' + k, pnm_of(compose(r, db, r.choice([1, 3, 6])), k, r)) for k in ('1', '4', '6')[:r.choice([1, 2, 3])]]
        t = put('t', run([trie, args[3]], env=san_env()).out)
        others = [os.path.join(d, 'none'), d]
        for f in args + images + [t]:
            others.append(f)
            b = open(f, 'rb').read()
            for k in range(2):
                c = bytearray(b[:r.randrange(len(b) + 1)] if r.random() < .6 else b)
                if c and r.random() < .5:
                    # no digits inserted: the sizes stay small
                    c[r.randrange(len(c))] = r.choice(b'\0 \n-x\xffzP0')
                others.append(put('%s.bad%d' % (os.path.basename(f), k), bytes(c)))
        jobs.append([exe] + args + images + ['--'] + others)

    def one(j):
        for _ in range(2):
            x = run(j, b'', cpu=120, env=san_env(extra={'LIMIT': str(chk.scale(150, 2000))}))
            if not (x.timed_out or x.rc in (-24, -9)):
                break
        return x
    with ThreadPoolExecutor(NCPU) as ex:
        rs = list(ex.map(one, jobs))
    for j, x in zip(jobs, rs):
        out = x.out.decode('latin1')
        rp = '%s\n%s' % (' '.join(j), '\n'.join('%s: %s' % (a, open(a, 'rb').read().hex()[:6000]) for a in j[1:] if os.path.isfile(a)))
        rp += '\n\nexit %d\n%s\n%s' % (x.rc, out[:4000], x.err.decode('latin1')[-2000:])
        m = re.search(r'ops (\d+) exceptions (\d+) refused (\d+) reused (\d+) requests (\d+)', out)
        for l in out.split('\n'):
            b = re.match(r'BAD (\S+) (\S+)(.*)', l)
            if b:
                chk.violation('%s:%s' % b.group(1, 2), (b.group(2) + b.group(3))[:300], rp)
        if x.timed_out:
            raise HarnessError('watchdog twice: ' + rp[:300])
        if x.fault or not m:
            chk.violation('fault:' + fault_key(x.fault or 'exit', x.err.decode('latin1')), 'operations with refused memory: %s' % (x.fault or 'exit %d' % x.rc), rp)
            chk.eval(rp)
            continue
        ops, exc, ref, reu, req = map(int, m.groups())
        chk.eval(rp, exc > 0)
        for k, v in (('operations_accounted', ops), ('ended_by_exception', exc), ('requests_refused', ref), ('states_used_again', reu), ('requests_seen', req)):
            chk.count(k, v)
        chk.sample(m.group(0))
    chk.need(chk.counts.get('requests_refused', 0) > 5000 or chk.violations, 'too few requests refused')
    return chk.finish()
