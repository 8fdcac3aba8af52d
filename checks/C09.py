from ppv import *
from tools import *
import models, gen, itertools


def merged(files):
    m = {}
    for f in files:
        for img, views in f:
            m.setdefault(img, set()).update(views)
    enc = lambda v: (v[0].encode(), v[1].encode(), v[2])
    return ''.join(glyph_text(i, sorted(m[i], key=enc)) for i in sorted(m)), m


def main():
    chk = Check('C09', 'collections of glyph records from a small pool of bitmaps (0..40 records, so that runs of 1..many equal '
                'bitmaps occur at the beginning, middle and end of the order, and no duplicate at all), split over 1..4 files in '
                'two orders, then normalised again; files are learnt or already normalised ones; '
                'non-trivial = at least one bitmap occurs twice with different labels')
    exe = tools('normalize_glyphs')['normalize_glyphs']
    r = chk.rng
    colls = []
    for n in range(chk.scale(220, 10000)):
        pool = []
        for _ in range(r.choice([1, 2, 3, 5, 8, 20])):
            if pool and r.random() < .4:
                a = r.choice(pool)
                q = list(a[2]); j = r.randrange(len(q)); q[j] = 'x' if q[j] == '-' else '-'
                pool.append((a[0], a[1], ''.join(q)))
            elif pool and r.random() < .2:
                a = r.choice(pool); pool.append((a[1], a[0], a[2]))
            else:
                pool.append(gen.image(r, *r.choice([(2, 2), (4, 4), (9, 9)])))
        words, fonts = r.sample(WORDS, r.choice([1, 2, 5])), r.sample(FONTS, r.choice([1, 2, 4]))
        label = lambda: (r.choice(words), r.choice(fonts), r.choice([0xffffffff] * 5 + [0, 3, 0x80000000, 0x7fffffff, 70000]))
        recs = []
        if n % 30 == 0:               # hundreds of records, of one bitmap or of as many
            recs = [(r.choice(pool), ((r.choice(words) + str(r.randrange(400)), r.choice(fonts), 0xffffffff),)) for _ in range(700)]
        elif n % 30 == 1:
            recs = [(gen.image(r, 5, 5), (label(),)) for _ in range(700)]
        elif n % 30 == 2:             # few bitmaps with hundreds of labels each, in several files
            recs = [(r.choice(pool[:3]), ((r.choice(words) + str(r.randrange(700)), r.choice(fonts), r.choice([0xffffffff, 0, k])),)) for k in range(1200)]
        elif r.random() < .15:
            recs = [(i, (label(),)) for i in set(pool)]           # no duplicate anywhere
        else:
            for _ in range(r.choice([0, 1, 2, 3, 6, 12, 25, 40])):
                recs.append((r.choice(pool), (label(),)))
        if n % 40 == 7:               # bitmaps of more pixels than 16 bits count, differing in the last ones
            a = gen.noise(r, *r.choice([(70000, 1), (1, 66000), (257, 256), (300, 300)]), .5)
            b = (a[0], a[1], a[2][:-1] + '-x'[a[2][-1] == '-'])
            recs += [(r.choice([a, a, b]), (label(),)) for _ in range(4)]
        nf = r.choice([1, 1, 2, 3, 4]) if n % 25 else 40
        files = [[] for _ in range(nf)]
        for q in recs:
            r.choice(files).append(q)
        norm = []
        for f in range(nf):
            if r.random() < (.3 if n % 30 != 2 else .7):           # an already normalised input
                _, m = merged([files[f]])
                files[f] = [(i, tuple(sorted(v, key=lambda v: (v[0].encode(), v[1].encode(), v[2])))) for i, v in sorted(m.items())]
        colls.append(files)
    cmds, meta = [], []
    for n, files in enumerate(colls):
        paths = []
        for k, f in enumerate(files):
            p = os.path.join(chk.scratch, '%d.%d' % (n, k))
            with open(p, 'w') as fd:
                fd.write(''.join(glyph_text(*q) for q in f))
            paths.append(p)
        allp = os.path.join(chk.scratch, '%d.all' % n)
        recs = [q for f in files for q in f]
        r.shuffle(recs)
        with open(allp, 'w') as fd:
            fd.write(''.join(glyph_text(*q) for q in recs))
        exp, m = merged(files)
        npath = os.path.join(chk.scratch, '%d.norm' % n)
        with open(npath, 'w') as fd:
            fd.write(exp)
        for what, a in (('files', paths), ('files reversed', paths[::-1]), ('one shuffled file', [allp]),
                        ('normalised again', [npath]), ('normalised together with its input', [npath] + paths)):
            if what == 'files reversed' and len(paths) == 1:
                continue
            cmds.append(([exe] + a, b'', None))
            meta.append((n, what, exp, m, a))
    for (n, what, exp, m, a), (res,) in zip(meta, run_many(cmds)):
        dup = any(len(v) > 1 for v in m.values())
        chk.eval((what, exp), dup)
        chk.count('runs_' + what.replace(' ', '_'))
        chk.count('bitmaps_with_several_labels', sum(len(v) > 1 for v in m.values()))
        replay = 'inputs:\n%s\nexpected:\n%s\nexit %d, got:\n%s\n%s' % ('\n--\n'.join(open(p).read() for p in a), exp, res.rc,
                                                                     res.out.decode('latin1'), res.err.decode('latin1')[-1500:])
        if tool_fault(chk, 'normalize_glyphs', res, replay):
            continue
        if res.rc:
            chk.violation('failed', 'normalising %s failed (exit %d)' % (what, res.rc), replay)
        elif res.out.decode('utf8', 'replace') != exp:
            got = res.out.decode('utf8', 'replace')
            chk.violation('merge', 'normalising %s gives %d lines instead of %d' % (what, got.count('\n'), exp.count('\n')), replay)
        elif dup:
            chk.sample(exp[:200])
    return chk.finish()
