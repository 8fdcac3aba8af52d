from ppv import *
import models, gen
DS = (0, 1, 5, 10, 20, 50, 51, 75, 99, 100)
COUNT = {'hbar': 2, 'hbar90': 2, 'alternations': 101, 'zone': 101, 'proportionality_zone': 101}


def random_row(r, base=None):
    """a row of a stored table: any values a table may hold, tuples often close to a previous row"""
    d = {}
    for n in models.ALL:
        if n == 'alternations':
            v = [(r.randrange(2), r.randrange(0, 4)) for _ in range(7)]
        elif n == 'zone':
            v = [r.randrange(0, 3) for _ in range(7)]
        elif n == 'proportionality_zone':
            k = r.choice([0, 1, 2, 2, 3, 3, 5, 9])
            v = sorted(r.choice([0, 0, 1, 2, 33, 50, 100, r.randrange(0, 101)]) for _ in range(k))
        elif n.startswith('hbar'):
            v = r.randrange(0, 4)
        else:
            m = models.RANGE[n]
            v = r.choice([0, m, m // 2, r.randrange(0, m + 1)])
        if base and r.random() < .6:
            v = base[n]
            if n in ('alternations', 'zone') and r.random() < .8:
                v = list(v)
                for _ in range(r.randint(1, 5)):
                    j = r.randrange(7)
                    v[j] = (v[j][0] ^ 1, v[j][1]) if n == 'alternations' and r.random() < .5 else \
                        (v[j][0], v[j][1] + 1) if n == 'alternations' else v[j] + 1
            elif n == 'proportionality_zone' and v and r.random() < .7:
                v = sorted(max(0, x + r.choice([-3, -1, 0, 1, 7])) for x in v)
            elif n in models.SIMPLE:
                v = min(models.RANGE[n], max(0, v + r.choice([-20, -11, -10, -9, -1, 0, 1, 9, 10, 11, 20, 21])))
        d[n] = v
    if r.random() < .03:          # values wider than a byte, long lists
        d['proportionality_zone'] = sorted(r.randrange(101) for _ in range(r.choice([15, 16, 17, 64, 255, 256, 257, 300])))
        d['alternations'] = [(r.randrange(2), r.choice([255, 256, 257, 65536, 300])) for _ in range(7)]
        d['zone'] = [r.choice([255, 256, 257, 65535, 65536, 300]) for _ in range(7)]
        d['hbar'], d['hbar90'] = r.choice([255, 256, 257, 300]), r.choice([0, 256, 65536])
    return d


def main():
    chk = Check('C07', 'all pairs inside groups of rows: rows extracted from bitmaps and rows of stored tables (extreme, equal, '
                'near, zero-filled and different-length values), with ten distances; every number pair 0..200 of one feature '
                'of each range in thorough; non-trivial = pair of different values')
    exe = build(probe_target('probe_features'))['probe_features']
    r = chk.rng
    groups = {}
    for _ in range(chk.scale(250, 15000)):
        n = r.randint(2, 6)
        if r.random() < .4:
            imgs = [gen.image(r, 16, 16) for _ in range(n)]
            if r.random() < .3:
                imgs[1] = imgs[0]
            groups['sim %d %s' % (n, ' '.join('%d %d %s' % i for i in imgs))] = [models.features(i) for i in imgs]
        else:
            rows = []
            for _ in range(n):
                rows.append(random_row(r, r.choice(rows) if rows and r.random() < .7 else None))
            groups['simt %s' % models.datas_text(rows).encode().hex()] = rows
    # every difference of numbers
    ladder = [0, 1, 2, 9, 10, 11, 33, 49, 50, 51, 89, 90, 91, 99, 100, 101, 150, 179, 180, 181, 199, 200]
    for k in range(0, len(ladder), 6):
        for m in range(0, len(ladder), 6):
            rows = []
            for v in ladder[k:k + 6] + ladder[m:m + 6]:
                d = random_row(r)
                for n in models.SIMPLE:
                    d[n] = min(v, models.RANGE[n])
                rows.append(d)
            groups['simt %s' % models.datas_text(rows).encode().hex()] = rows
    lines = list(groups)

    def oracle(line, obs):
        rows = groups[line]
        n = len(rows)
        if obs and obs[0].startswith('exc'):
            chk.violation('exception', 'similarity failed', 'case: %s\n%s' % (line, obs))
            return
        cur, k = None, 0
        for l in obs:
            t = l.split()
            if t[0] in models.ALL:
                cur, k = t[0], 0
                c = COUNT.get(cur, models.RANGE[cur] + 1)
                if int(t[1]) != c:
                    chk.violation(cur + ':count', 'number of possible values of %s is %s instead of %d' % (cur, t[1], c), line)
                continue
            i, j = divmod(k, n)
            k += 1
            a, b = rows[i][cur], rows[j][cur]
            # both calls give the similarity of the pair; its two orders may round differently
            want = {round(models.similarity(cur, a, b) / 100, 6), round(models.similarity(cur, b, a) / 100, 6)}
            for v in t[:2]:
                v = float(v)
                if not 0 <= v <= 1 or round(v, 6) not in want:
                    chk.violation(cur, 'similarity of %s values %s and %s is %g instead of %s' % (cur, a, b, v, sorted(want)), 'case: ' + line)
                elif a == b and v != 1:
                    chk.violation(cur + ':self', 'similarity of %s with itself is %g (%s)' % (cur, v, a), 'case: ' + line)
            chk.count('scores_checked', 2)
            chk.count('scores_of_identical_values', a == b)
            for d, bit in zip(DS, t[2]):
                if cur.startswith('hbar'):
                    e = {a == b}
                elif cur in models.SIMPLE:
                    e = {abs(a - b) > d}
                else:
                    e = {models.similarity(cur, a, b) >= d, models.similarity(cur, b, a) >= d}
                chk.count('distance_tests')
                if (bit == '1') not in e:
                    chk.violation(cur + ':distance', 'distance test of %s values %s and %s at %d is %s' % (cur, a, b, d, bit), 'case: ' + line)
        if 'simt' in line:
            chk.count('stored_rows', n)
        chk.sample('%s: %s' % (line[:30], [rw['proportionality_zone'] for rw in rows]))
    judge(chk, lines, run_cases_parallel(exe, lines), oracle, 'similarity',
          nontrivial=lambda l: any(x != groups[l][0] for x in groups[l]))
    return chk.finish()
