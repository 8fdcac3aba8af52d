from ppv import *
import models, gen


def main():
    chk = Check('C06', 'sequences of 2..7 bitmaps (repeats, a bitmap next to its quarter turn, its transpose, its negative, '
                'same pixels in another shape, growing and shrinking sizes) through one bulk table and one shared extractor '
                'state in three orders, against a fresh extractor per bitmap; non-trivial = at least two different bitmaps')
    exe = build(probe_target('probe_features'))['probe_features']
    r = chk.rng
    seqs = []
    for _ in range(chk.scale(1000, 120000)):
        n = r.randint(2, 7)
        s = [gen.image(r, *r.choice([(3, 3), (8, 8), (16, 16), (30, 30)]))]
        while len(s) < n:
            k = r.randrange(8)
            a = r.choice(s)
            if k == 0:
                s.append(a)
            elif k == 1:
                s.append(models.rot(a))
            elif k == 2:
                s.append((a[0], a[1], a[2].translate({120: 45, 45: 120})))
            elif k == 3:
                s.append((a[1], a[0], a[2]))
            elif k == 4:
                q = list(a[2]); j = r.randrange(len(q)); q[j] = 'x' if q[j] == '-' else '-'
                s.append((a[0], a[1], ''.join(q)))
            elif k == 5:
                s.append((a[0], a[1], r.choice('x-') * len(a[2])))
            else:
                s.append(gen.image(r, *r.choice([(2, 2), (4, 4), (12, 12), (34, 34)])))
        seqs.append(s)
    for n in (70, 260):                        # a long sequence, and larger bitmaps of one size
        seqs.append([gen.image(r, 9, 9) for _ in range(n)])
    for w, h in ((64, 64), (20, 30), (17, 257), (260, 16), (128, 9)):
        a, b = gen.noise(r, w, h, .5), gen.noise(r, w, h, .8)
        seqs.append([a, b, a, gen.noise(r, h, w, .6), b, models.rot(a)])
    alone = {}
    for s in seqs:
        for i in s:
            alone.setdefault('f %d %d %s' % i, None)
    al = list(alone)
    for l, c in zip(al, run_cases_parallel(exe, al)):
        f = next((q for q in c if q.fault), None)
        if f and f.fault != 'not run':
            chk.violation('fault:' + fault_key(f.fault, f.detail), 'alone: ' + f.fault, 'case: %s\n%s' % (l, f.detail))
        alone[l] = c[0].lines[0] if c[0].lines else None
    lines = ['seq %d %s' % (len(s), ' '.join('%d %d %s' % i for i in s)) for s in seqs]
    which = dict(zip(lines, seqs))

    def oracle(line, obs):
        s = which[line]
        n = len(s)
        solo = [alone['f %d %d %s' % i] for i in s]
        if None in solo:
            return
        if any(l.startswith('exc') for l in obs):
            chk.violation('exception', 'extraction failed', 'case: %s\n%s' % (line, obs))
            return
        p = 0

        def take(k):
            nonlocal p
            p += k
            return obs[p - k:p]
        stages = [('size', take(1), ['size %d' % n]), ('bulk table', take(n), solo), ('shared state', take(n), solo),
                  ('shared state, features in reverse', take(n), solo), ('shared state, bitmaps in reverse', take(n), solo[::-1])]
        take(2); take(n)      # the saved and reloaded table is C10's subject
        m = take(1)
        e = ''.join('1' if solo[i] == solo[j] else '0' for i in range(n) for j in range(n))
        stages.append(('row equality', m, [e]))
        chk.count('extractions_compared', 4 * n)
        chk.count('row_pairs_compared', n * n)
        chk.count('equal_rows_of_distinct_positions', e.count('1') - n)
        for name, got, exp in stages:
            if got != exp:
                d = next(i for i in range(max(len(got), len(exp))) if got[i:i + 1] != exp[i:i + 1])
                chk.violation(name.replace(' ', '_'), '%s: bitmap %d of %d differs from the same bitmap alone' % (name, d, n),
                              'case: %s\nalone: %s\nthere: %s' % (line, exp[d:d + 1], got[d:d + 1]))
        chk.sample('sizes %s' % [i[:2] for i in s])
    judge(chk, lines, run_cases_parallel(exe, lines), oracle, 'sequence', nontrivial=lambda l: len(set(which[l])) > 1)
    chk.need(chk.counts.get('equal_rows_of_distinct_positions', 0) > 50 or chk.violations, 'no repeats compared')
    return chk.finish()
