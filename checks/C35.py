from ppv import *

LETTERS = ['a', 'b', 'é', '!', 'ab', 'ffi']


def views_text(db):
    """a glyph file whose bitmaps do not matter"""
    return b''.join(b'1 1 x\n%d\n' % len(g) + b''.join(('%s %s 1\n' % v).encode() for v in g) for g in db)


def fnum(x):
    return '%.17g' % x


def main():
    chk = Check('C35', 'tables of 0..3000 (and 70000) numbers with many and few equal ones and every distance, signed numbers; glyph tables with 0..2000 '
                'glyphs sharing words, fonts and lists in any arrangement; candidate lists with equal and close scores and shared lists; sequences of '
                'bitmaps that differ in size, in one pixel or not at all; non-trivial = at least two elements')
    exe = build(probe_target('probe_lookup'))['probe_lookup']
    r = chk.rng
    lines, want = [], {}

    def add(line, *w):
        if line not in want:
            lines.append(line)
        want[line] = w
    for k in range(chk.scale(900, 36000)):
        top = r.choice([0, 1, 3, 10, 100, 100, 100, 1000, 2 ** 31 - 1, 2 ** 32 - 1])
        n = r.choice([0, 1, 2, 3, 10, 10, 60, 255, 256, 257, 1000]) if k % 300 else 70000
        v = [r.randint(0, top) for _ in range(n)]
        if r.random() < .3 and v:
            v = [r.choice(v[:3] + [0, top]) for _ in v]
        k2 = r.random()
        if k2 < .15:
            v.sort()
        elif k2 < .3:
            v.sort(reverse=True)
        qs = []
        for _ in range(r.randint(1, 6) if n < 5000 else 2):
            x = r.choice([0, top, r.randint(0, top)] + v[:3])
            d = r.choice([0, 1, 2, top // 10, top // 10, r.randint(0, top), abs(x - r.choice(v)) if v else 0, max(0, abs(x - r.choice(v)) - 1) if v else 0])
            qs.append((x, d))
        add('range %d %s %s' % (len(qs), ' '.join('%d %d' % q for q in qs), ' '.join(map(str, v))), 'range', v, qs)
    for _ in range(chk.scale(300, 12000)):
        v = [r.randint(-5, 5) * r.choice([1, 1, 2 ** 28]) for _ in range(r.choice([0, 1, 5, 40]))]
        a, b = sorted((r.choice(v + [0, -1]), r.choice(v + [3, 2 ** 31 - 1, -2 ** 31])))
        add('signed %d %d %s' % (a, b, ' '.join(map(str, v))), 'signed', v, a, b)

    def views(r, words, fonts):
        return [(r.choice(words), r.choice(fonts)) for _ in range(r.choice([0, 1, 1, 1, 1, 2, 2, 3, 6]))]
    for k in range(chk.scale(700, 24000)):
        words = r.sample(LETTERS, r.randint(1, len(LETTERS))) + ['w%d' % i for i in range(r.choice([0, 0, 5, 300 if k % 20 == 0 else 9]))]
        fonts = ['f', 'g', 'h'][:r.randint(1, 3)]
        db = []
        for _ in range(r.choice([0, 1, 2, 3, 8, 20, 60, 300]) if k % 150 else 2000):
            x = r.random()
            if x < .4 or not db:
                g = views(r, words, fonts)
            elif x < .6:
                g = [(w, r.choice(fonts)) for w, f in r.choice(db)]           # same words, other fonts
            elif x < .7:
                g = list(r.choice(db))
                r.shuffle(g)
            elif x < .8:
                g = list(r.choice(db)) + views(r, words, fonts)[:1]
            elif x < .9:
                g = list(r.choice(db))
                if g:
                    g[r.randrange(len(g))] = (r.choice(words), r.choice(fonts))
            else:
                g = list(r.choice(db))[:-1]
            db.append(g)
        if k % 100 == 50:       # long lists that differ late
            base = [(w, 'f') for w in (words * 300)[:300]]
            for _ in range(4):
                g = list(base)
                g[r.choice([5, 255, 256, 299])] = (r.choice(words), 'f')
                db.append(g)
        add('glyphs %s' % (views_text(db).hex() or '_'), 'glyphs', db)
    for k in range(chk.scale(900, 30000)):
        n = r.choice([1, 2, 3, 5, 10, 40, 300])
        m = r.choice([0, 1, 2, n, n])
        own = r.choice([0, .5, .5, .9, 1])
        owner = [0 if own == 1 else r.choice(range(i + 1)) if r.random() < own else i for i in range(n)]
        ids = []
        for i in range(n):
            ids.append(ids[owner[i]] if owner[i] != i else i)
        db = [views(r, LETTERS, ['f', 'g']) for _ in range(n)]
        grid = r.choice([2, 4, 100, 10 ** 9])
        ps = [(i, r.choice([r.randint(0, grid) / grid, 1., .5])) for i in r.sample(range(n), min(m, n))]
        if ps and r.random() < .3:       # scores that differ in the last place only
            x = r.random()
            ps = [(i, x + r.choice([0, 0, 2 ** -50, 2 ** -45])) for i, _ in ps]
        limit = r.choice([0, .5, 1, 2] + [p for _, p in ps[:2]])
        add('prob %d %s %s %d %s %s' % (n, fnum(limit), ' '.join(map(str, ids)), len(ps), ' '.join('%d %s' % (i, fnum(p)) for i, p in ps), views_text(db).hex()),
            'prob', ids, ps, limit, db)
    for k in range(chk.scale(400, 15000)):
        imgs = []
        for _ in range(r.choice([1, 2, 5, 20, 60])):
            x = r.random()
            if not imgs or x < .35:
                w, h = r.choice([(1, 1), (2, 3), (3, 2), (6, 1), (1, 6), (8, 8), (16, 9), (200, 90)])
                im = (w, h, ''.join(r.choice('x-') for _ in range(w * h)))
            elif x < .6:
                im = r.choice(imgs)
            elif x < .85:
                w, h, p = r.choice(imgs)
                i = r.choice([0, w * h - 1, r.randrange(w * h)])
                im = (w, h, p[:i] + ('x' if p[i] == '-' else '-') + p[i + 1:])
            else:
                w, h, p = r.choice(imgs)
                im = (h, w, p)
            imgs.append(im)
        add('cache %d %s' % (len(imgs), ' '.join('%d %d %s' % i for i in imgs)), 'cache', imgs)

    def oracle(line, obs):
        w = want[line]
        obs = [o[2:] if (o + ' ')[:2] == '= ' else o for o in obs]
        rp = '%s\ngot %s' % (line[:30000], '\n'.join(obs)[:30000])

        def bad(key, what):
            chk.violation(key, what, rp)
        if w[0] == 'range':
            v, qs = w[1:]
            if len(obs) != 2 * len(qs):
                bad('shape', 'lines')
            for j, (x, d) in enumerate(qs):
                e = sorted(i for i, y in enumerate(v) if max(0, x - d) <= y <= x + d)
                chk.count('ranges')
                chk.count('glyphs_in_ranges', len(e))
                for o in obs[2 * j:2 * j + 2]:
                    if '?' in o:
                        return bad('view', 'a range disagrees with itself: %s' % o[:80])
                    g = [int(t) for t in o.split()]
                    if sorted(g) != e:
                        return bad('range', 'numbers within %d of %d: %d of %d listed' % (d, x, len(g), len(e)))
                    if any(v[a] > v[b] for a, b in zip(g, g[1:])):
                        return bad('order', 'the numbers within %d of %d are not in order' % (d, x))
        elif w[0] == 'signed':
            v, a, b = w[1:]
            g = [int(t) for t in obs[0].split()]
            if sorted(g) != [i for i, y in enumerate(v) if a <= y <= b] or any(v[p] > v[q] for p, q in zip(g, g[1:])):
                bad('range', 'numbers between %d and %d are not those listed' % (a, b))
        elif w[0] == 'glyphs':
            db = w[1]
            if obs[0] != '%d %d' % (len(db), len(db)) or len(obs) != len(db) + 1:
                return bad('size', '%d glyphs: %s' % (len(db), obs[0]))
            same = {}
            for i, g in enumerate(db):
                if g:
                    same.setdefault(g[0][0], []).append(i)
            ids = []
            for i, g in enumerate(db):
                o, own = obs[i + 1].split('|')
                ids.append(int(own))
                e = [j for j in same.get(g[0][0], []) if j != i] if g else []
                chk.count('companions', len(e))
                if sorted(map(int, o.split())) != e:
                    return bad('companions', 'glyph %d of %d has %d companions of the same first word, %d listed' % (i, len(db), len(e), len(o.split())))
            # identity: equal exactly for glyphs of equal words in equal order, one of them
            key = [tuple(x for x, _ in g) for g in db]
            seen = {}
            for i in range(len(db)):
                if not 0 <= ids[i] < len(db) or key[ids[i]] != key[i] or seen.setdefault(key[i], ids[i]) != ids[i]:
                    return bad('identity', 'glyph %d of %d has the identity of glyph %d' % (i, len(db), ids[i]))
            chk.count('identities', len(seen))
            if 2 < len(db) < 6:
                chk.sample('%s: %s' % (db, obs[1:]))
        elif w[0] == 'prob':
            ids, ps, limit, db = w[1:]
            if obs[0].startswith('?'):
                return bad('ends', 'ends of a candidate list')

            def parse(o):
                a, b = o.split(':')
                l = [(int(t.split('/')[0]), float(t.split('/')[1])) for t in b.split()]
                if a != '%d%s' % (len(l), '' if l else 'e'):
                    bad('size', 'size of a candidate list')
                return l
            if len(obs) != 7:
                return bad('shape', 'lines')
            chk.count('candidates', len(ps))
            l = parse(obs[0])
            if sorted(l) != sorted(ps) or any((ids[a[0]], -a[1]) > (ids[b[0]], -b[1]) for a, b in zip(l, l[1:])):
                return bad('sort-by-list', 'sorting %d candidates by list and score' % len(ps))
            first = []
            for x in l:
                if not first or ids[first[-1][0]] != ids[x[0]]:
                    first.append(x)
            if parse(obs[1]) != first or parse(obs[2]) != first:
                return bad('unique', 'best candidate of each list among %d' % len(ps))
            best = parse(obs[3])
            if sorted(best) != sorted(first) or any(a[1] < b[1] for a, b in zip(best, best[1:])):
                return bad('sort-by-score', 'sorting %d candidates by score' % len(first))
            e = []
            for i, p in best:
                if p < limit:
                    break
                e += ['%d.%d' % (i, k) for k in range(len(db[i]))]
            if obs[4].split() != e:
                return bad('views', 'views of the candidates from score %s on' % limit)
            if parse(obs[5]) != best or parse(obs[6]) != []:
                return bad('swap', 'exchange or clearing of candidate lists')
        else:
            imgs, e, at = w[1], [], {}
            for i, im in enumerate(imgs):
                e.append(str(at[im]) if im in at else 'new')
                at.setdefault(im, i)
            chk.count('bitmaps_looked_up', len(imgs))
            chk.count('bitmaps_found', len(imgs) - len(at))
            if obs[0].split() != e + [str(len(at))]:
                bad('cache', 'stored bitmaps are not those found again')
    judge(chk, lines, run_cases_parallel(exe, lines, shards=8), oracle, 'lookup',
          nontrivial=lambda l: len(want[l][2] if want[l][0] == 'prob' else want[l][1]) > 1)
    chk.need(chk.counts.get('glyphs_in_ranges', 0) > 10000 or chk.violations, 'too few glyphs in ranges')
    return chk.finish()
