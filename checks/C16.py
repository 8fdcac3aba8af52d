from ppv import *
from dbgen import hexs
import models, gen, dbgen, ocrmodel
from ocrmodel import groups, explain


def near(r, f):
    """a stored row close to the given features: on or just beyond the borders of the accepted range on a
    few of them, with other bars, alternations and background now and then"""
    f = dict(f)
    for n in r.sample(models.SIMPLE, r.choice([0, 0, 1, 1, 2, 3, 20])):
        lim = models.RANGE[n]
        d = r.choice([1, 1, 2, lim // 10 - 1, lim // 10, lim // 10, lim // 10 + 1, 5])
        v = f[n] + r.choice([-1, 1]) * d
        f[n] = min(max(v, 0), lim)
    k = r.random()
    if k < .2:
        f[r.choice(['hbar', 'hbar90'])] += r.choice([0, 1])
    if k > .6:
        a = [tuple(x) for x in f['alternations']]
        for i in r.sample(range(7), r.choice([1, 1, 2, 3, 4, 5])):
            a[i] = (a[i][0], a[i][1] + 1) if r.random() < .6 else (1 - a[i][0], a[i][1])
        f['alternations'] = a
    if r.random() < .5:
        z = list(f['zone'])
        for i in r.sample(range(7), r.choice([1, 2, 3, 3, 4, 5])):
            z[i] = z[i] + 1 if i > 1 else 1 - z[i]
        f['zone'] = z
    if r.random() < .5:
        pz = list(f['proportionality_zone'])
        k = r.random()
        if k < .3:
            pz = pz + [r.randint(0, 50)]
        elif k < .4:
            pz = pz[1:]
        else:
            pz = [min(100, max(0, x + r.choice([0, 0, 3, 40, 97, -30, -97]))) for x in pz]
        f['proportionality_zone'] = pz
    return f


def main():
    chk = Check('C16', 'databases of shipped glyphs of confusable words and of synthetic families asked for stored, damaged and unrelated '
                'bitmaps, and stored tables placed on and around every border of the accepted ranges of a bitmap; candidates '
                'compared with an exhaustive search; non-trivial = at least one glyph in range')
    exe = build(probe_target('probe_ocr'))['probe_ocr']
    r = chk.rng
    lines, want = [], {}

    def add(db, feats, queries):
        line = 'rec %s %s %d %s' % (hexs(dbgen.text(db)), hexs(models.datas_text(feats)), len(queries), ' '.join('%d %d %s' % q for q in queries))
        want[line] = (db, feats, queries)
        lines.append(line)
    add([], [], [(2, 2, 'x--x')])
    for n_ in range(chk.scale(140, 10000)):
        db = r.sample(dbgen.shipped(), 700) if n_ % 45 == 0 else dbgen.synth_db(r, 400) if n_ % 45 == 1 else dbgen.real_db(r, r.choice([3, 20, 80, 200])) if r.random() < .6 else dbgen.synth_db(r, r.choice([1, 4, 12, 40]))
        r.shuffle(db)
        if r.random() < .5:       # the database without some of the bitmaps asked for
            cut = r.sample(db, min(len(db) - 1, 6))
            out = [i for i, _ in cut]
            db = [g for g in db if g not in cut] or db[:1]
        else:
            out = []
        qs = out + [g[0] for g in r.sample(db, min(len(db), 4))] + [dbgen.flip(r, r.choice(db)[0], r.choice([1, 1, 2, 4])) for _ in range(5)]
        qs += [gen.image(r, 14, 14)]
        if r.random() < .1:
            db = db + [(db[0][0], [])]
        add(db, [dbgen.features(i) for i, _ in db], qs)
    for n_ in range(chk.scale(3000, 160000)):
        q = r.choice([gen.image(r, 14, 14), r.choice(dbgen.shipped())[0], r.choice(dbgen.shipped())[0]])
        f = dbgen.features(q)
        if n_ % 250 == 0:           # hundreds of stored rows in range, hundreds of labels
            many = r.choice([70, 260, 300])
            lists = [[('w%d' % k, 'f0')] for k in range(many)] if n_ % 500 else [[(r.choice('abc'), 'f%d' % k) for k in range(270)], [('a', 'f0')], [('b', 'f1')]]
            db = [((1, 1, 'x'), r.choice(lists)) for k in range(many)]
            add(db, [near(r, f) if r.random() < .5 else dict(f, density=f['density'] + r.choice([0, 1, 2])) for _ in db], [q])
        lists = [[(r.choice('abc'), 'f%d' % r.randrange(3)) for _ in range(r.choice([1, 1, 1, 2, 3]))] for _ in range(r.choice([1, 2, 4, 8]))]
        if n_ % 8 == 0:             # long lists of words differing late, or in their length only
            a = [(r.choice('abc'), 'f%d' % r.randrange(3)) for _ in range(r.choice([4, 5, 6, 9, 17]))]
            for _ in range(r.randint(1, 4)):
                b, k = list(a), r.randrange(len(a))
                b[k] = (r.choice('abcd'), b[k][1])
                lists.append(r.choice([b, a, a[:k + 1], a + b[:1], a[:-1] + b[-1:]]))
        db, feats = [], []
        base = [near(r, f) for _ in range(2)]
        for _ in range(r.choice([1, 2, 3, 6, 12])):
            v = r.choice(lists)
            if r.random() < .4:
                v = [(w, 'g%d' % r.randrange(3)) for w, _ in v]
            db.append(((1, 1, 'x'), v))
            feats.append(near(r, r.choice([f, f, base[0], base[1]])))
        add(db, feats, [q])

    # every value of every indexed feature, with rows on both sides of both borders
    first, pool = models.SIMPLE[0], {}
    for n_ in range(4000):
        p, q = r.random(), r.random()
        w, h = r.choice([(12, 12), (11, 8), (20, 9)])
        s = ''.join('x' if r.random() < (p if x >= w // 2 else q) else '-' for y in range(h) for x in range(w))
        if 'x' in s:
            v = models.f_dvgravity2(models.rot((w, h, s)))
            pool.setdefault(v, (w, h, s))
        if len(pool) >= 101:
            break
    for v, q in sorted(pool.items()):
        f = dbgen.features(q)
        assert f[first] == v
        rows = [dict(f, **{first: x}) for x in sorted({max(0, min(100, v + d)) for d in (-100, -12, -11, -10, -9, -1, 0, 1, 9, 10, 11, 12, 100)})]
        for k in range(3):
            some = rows if k else r.sample(rows, r.randint(1, len(rows)))
            off = lambda: (r.choice([0, 1]), 0, 1)[k] * (-1 if f['density'] > 50 else 1)
            add([((1, 1, 'x'), [('w%d' % j, 'f0')]) for j in range(len(some))], [dict(g, density=g['density'] + off()) for g in r.sample(some, len(some))], [q])
    chk.count('values_of_the_indexed_feature', len(pool))

    def oracle(line, obs):
        db, feats, qs = want[line]
        rp = 'case: %s\ndatabase words: %s' % (line[:60000], [v for _, v in db][:50])
        names = dbgen.font_names(db, obs[:1])
        obs = obs[1:]
        if names is None or len(obs) != len(qs):
            chk.violation('shape', 'unexpected observations %s' % obs[:2], rp)
            return
        for q, o in zip(qs, obs):
            got = dbgen.parse(o, names)
            stage, gs = groups(db, feats, dbgen.features(q))
            chk.eval((line, q), bool(gs) or stage != 'none')
            chk.count('queries_' + stage)
            chk.count('candidates', len(got))
            if stage == 'refined' and gs and min(g[0] for g in gs) < gs[0][0] * .5:
                chk.count('cut_at_half_of_best')
            why = explain(stage, gs, got)
            if why:
                chk.violation('candidates:' + stage, '%s (%d glyphs, stage %s): %s' % (q, len(db), stage, why),
                              rp + '\nquery %s\nexpected groups %s\ngot %s' % (q, gs, got))
                return
            if len(gs) > 1:
                chk.sample('%d glyphs, %dx%d bitmap: %s' % (len(db), q[0], q[1], [(round(g[0], 3), g[1][:3]) for g in gs[:4]]))
    judge(chk, lines, run_cases_parallel(exe, lines), oracle, 'recognition')
    for s in ('perfect', 'refined', 'none'):
        chk.need(chk.counts.get('queries_' + s, 0) > 100 or chk.violations, 'stage %s not reached' % s)
    return chk.finish()
