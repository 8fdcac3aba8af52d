from ppv import *
import models, gen, itertools


def parse(line):
    return dict(t.split('=', 1) for t in line.split())


def main():
    chk = Check('C05', 'all bitmaps of up to 9 pixels (1x1..9x1, 3x3, 4x2), random letter-like, noise and structured bitmaps, '
                'extreme aspect ratios, large bitmaps up to 700x700; non-trivial = both pixel kinds present')
    exe = build(probe_target('probe_features'))['probe_features']
    r = chk.rng
    imgs = []
    for w in range(1, 10):
        for h in range(1, 10):
            if w * h <= chk.scale(8, 12) or (w, h) == (3, 3):
                for bits in itertools.product('x-', repeat=w * h):
                    imgs.append((w, h, ''.join(bits)))
    chk.count('exhaustive_small_bitmaps', len(imgs))
    for _ in range(chk.scale(2500, 120000)):
        k = r.random()
        if k < .8:
            imgs.append(gen.image(r, 20, 20))
        elif k < .9:
            imgs.append(gen.image(r, 40, 40))
        else:
            imgs.append(gen.noise(r, r.choice([1, 2, 3, r.randint(1, 90)]), r.choice([1, 2, 3, r.randint(1, 90)]), r.random()))
    big = []
    for w, h in [(640, 650), (1, 3000), (3000, 1), (97, 801), (801, 98), (700, 640)] + ([(1500, 1400)] if chk.thorough else []):
        for k in range(3):
            s = 'x' * (w * h) if k == 0 else gen.structured(r, w, h)[2] if k == 1 else gen.noise(r, w, h, .6)[2]
            big.append((w, h, s))
    # counters beyond 7, 8 and 16 bits: bars, alternations and enclosed or open regions by the hundreds
    for w, h in [(60, 600), (600, 60), (300, 300), (17, 257), (256, 16)]:
        for f in [lambda x, y: y % 2 == 0, lambda x, y: x % 2 == 0, lambda x, y: x % 3 and y % 3, lambda x, y: y % 4 < 2, lambda x, y: (x // 2 + y // 2) % 2,
                  lambda x, y: y % 2 == 0 or x == 0, lambda x, y: x % 2 == 0 or y == h - 1, lambda x, y: x and x % 3 == 0 or y % 3 == 0]:
            big.append((w, h, ''.join('x' if f(x, y) else '-' for y in range(h) for x in range(w))))
    # sums and counts beyond 16 and 32 bits: as long as a line of text may be, and longer
    for w, h, fs in [(1, 200000, 'xrul'), (140000, 2, 'xru'), (2, 150000, 'ul'), (131075, 1, 'a'), (1, 131075, 'a'), (3, 12000, 'ar'), (12000, 3, 'ar'), (2, 40000, 'ar'), (21000, 5, 'ar'), (4, 33000, 'r')]:
        for f in fs:
            big.append((w, h, 'x' * (w * h)) if f == 'x' else (w, h, ('x-' * (w * h))[:w * h]) if f == 'a' else
                       (w, h, 'x' * (w * h * 6 // 10) + '-' * (w * h - w * h * 6 // 10)) if f == 'u' else (w, h, '-' * (w * h // 10) + 'x' * (w * h - w * h // 10)) if f == 'l' else gen.noise(r, w, h, r.choice([.2, .5, .9])))
    chk.count('large_bitmaps', len(big))
    lines = ['f %d %d %s' % i for i in imgs]
    which = dict(zip(lines, imgs))
    blines = ['f %d %d %s' % i for i in big]
    which.update(zip(blines, big))
    ranges = {}

    def oracle(line, obs):
        img = which[line]
        exp = models.features(img)
        if not obs or obs[0].startswith('exc'):
            chk.violation('exception', 'extraction failed for %dx%d' % img[:2], 'case: %s\n%s' % (line[:5000], obs))
            return
        got = parse(obs[0])
        for n in models.ALL:
            e = models.fmt_feature(n, exp[n])
            if got.get(n) != e:
                chk.violation(n, '%s is %s instead of %s for %dx%d' % (n, got.get(n), e, img[0], img[1]),
                              'bitmap:\n%s' % (models.show(img) if len(img[2]) < 4000 else line[:4000]))
            elif n in models.SIMPLE:
                lo, hi = ranges.get(n, (999, -1))
                v = int(got[n])
                ranges[n] = min(lo, v), max(hi, v)
                if not 0 <= v <= models.RANGE[n]:
                    chk.violation(n + ':range', '%s=%d out of range' % (n, v), line[:4000])
        chk.count('feature_values_compared', len(models.ALL))
        if 5 < len(img[2]) < 60:
            chk.sample('%dx%d %s -> %s' % (*img, obs[0][:300]))
    res = run_cases_parallel(exe, lines) + run_cases_parallel(exe, blines, cpu=300)
    judge(chk, lines + blines, res, oracle, 'extraction', nontrivial=lambda l: len(set(which[l][2])) == 2)
    chk.counts['observed_ranges'] = ' '.join('%s:%d..%d' % (n, *v) for n, v in sorted(ranges.items()))
    return chk.finish()
