from ppv import *
import models, gen


def main():
    chk = Check('C04', 'random images (1x1 upwards) with a random inner rectangle each; pairs of images, identical, '
                'differing in one pixel, in shape only, or random; non-trivial = more than one pixel')
    exe = build(probe_target('probe_image', '-Wl,--wrap=read'))['probe_image']
    r = chk.rng
    lines, what = [], {}
    for _ in range(chk.scale(2500, 450000)):
        i = gen.image(r, 20, 20)
        x, y = r.randrange(i[0]), r.randrange(i[1])
        w, h = r.randint(1, i[0] - x), r.randint(1, i[1] - y)
        l = 'geom %d %d %s %d %d %d %d' % (*i, x, y, w, h)
        lines.append(l)
        what[l] = ('geom', i, (x, y, w, h))
    large = [gen.noise(r, *q) for q in [(300, 200, .3), (256, 256, .5), (257, 3, .5), (3, 257, .5), (65536, 1, .5), (1, 65537, .5), (70001, 2, .1), (2, 70001, .1)]]
    for i in large:
        for _ in range(3):
            x, y = r.randrange(i[0]), r.randrange(i[1])
            b = r.choice([(x, y, r.randint(1, i[0] - x), r.randint(1, i[1] - y)), (0, 0, i[0], i[1]), (x, 0, i[0] - x, i[1]), (0, y, i[0], i[1] - y)])
            l = 'geom %d %d %s %d %d %d %d' % (*i, *b)
            lines.append(l)
            what[l] = ('geom', i, b)
        for k in {0, len(i[2]) - 1, len(i[2]) // 2, min(len(i[2]) - 1, 256), min(len(i[2]) - 1, 65536)} | {None}:
            s = list(i[2])
            if k is not None:
                s[k] = 'x' if s[k] == '-' else '-'
            b = (i[0], i[1], ''.join(s))
            l = 'cmp %d %d %s %d %d %s' % (i + b)
            lines.append(l)
            what[l] = ('cmp', i, b)
    for a, b in [((1, 256, 'x' * 256), (2, 128, 'x' * 256)), ((256, 1, 'x' * 256), (1, 256, 'x' * 256)), ((257, 1, 'x' * 257), (1, 1, 'x')),
                 ((1, 257, 'x' * 257), (1, 1, 'x')), ((65537, 1, '-' * 65537), (1, 1, '-')), ((65536, 1, '-' * 65536), (65537, 1, '-' * 65537))]:
        l = 'cmp %d %d %s %d %d %s' % (a + b)
        lines.append(l)
        what[l] = ('cmp', a, b)
    pool = [gen.image(r, 4, 4) for _ in range(60)]
    for _ in range(chk.scale(2500, 450000)):
        a = r.choice(pool) if r.random() < .5 else gen.image(r, 12, 12)
        k = r.randrange(5)
        if k == 0:
            b = a
        elif k == 1:
            s = list(a[2]); j = r.randrange(len(s)); s[j] = 'x' if s[j] == '-' else '-'
            b = (a[0], a[1], ''.join(s))
        elif k == 2:
            b = (a[1], a[0], a[2])
        elif k == 3:
            w, h = a[0] + r.choice([-1, 0, 1]), a[1] + r.choice([-1, 0, 1])
            w, h = max(1, w), max(1, h)
            b = (w, h, (a[2] + '-' * 100)[:w * h].ljust(w * h, '-'))
        else:
            b = r.choice(pool)
        l = 'cmp %d %d %s %d %d %s' % (a + b)
        lines.append(l)
        what[l] = ('cmp', a, b)

    def oracle(line, obs):
        k, a, b = what[line]
        if k == 'cmp':
            ka, kb = models.order_key(a), models.order_key(b)
            c = (ka > kb) - (ka < kb)
            e = ['%d %d %d%d%d%d%d' % (c, -c, c == 0, c == 0, c != 0, c < 0, c > 0)]
            chk.count('pairs_compared')
            chk.count('pairs_equal', c == 0)
        else:
            x, y, w, h = b
            sec = models.section(a, x, y, w, h)
            band = [any(models.rows(sec)[j][i] == 'x' for j in range(h)) for i in range(w)]
            p = lambda i: '%d %d %s' % i
            alt = sum(1 for u, v in zip(band, band[1:]) if u != v)
            e = [p(models.rot(a)), p(a), p(sec), p(a), '1111', models.show(a).encode().hex(), a[2][y * a[0] + x],
                 models.rows(a)[y], ''.join('x' if c else '-' for c in band),
                 '%d%d%d' % (any(band), all(band), not any(band)), str(alt), p(a), '11']
            chk.count('images')
            chk.sample('%dx%d cut at %s' % (a[0], a[1], b))
        if obs != e:
            d = next((i for i, (u, v) in enumerate(zip(obs + [''] * 20, e)) if u != v), len(e))
            name = 'order' if k == 'cmp' else (['rotate', 'four turns', 'section', 'clone', 'equality', 'display', 'pixel', 'row scan',
                                               'band scan', 'any/all/none', 'alternations', 'from string', 'coordinates'] + ['?'] * 9)[d]
            chk.violation(name, '%s differs for %s' % (name, line[:80]), 'case: %s\nexpected: %s\ngot: %s' % (line, e[d:d + 1], obs[d:d + 1]))
    res = run_cases_parallel(exe, lines)
    judge(chk, lines, res, oracle, 'geometry', nontrivial=lambda l: len(what[l][1][2]) > 1)
    return chk.finish()
