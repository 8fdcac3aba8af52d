from ppv import *
import models, gen, itertools


def main():
    chk = Check('C03', 'all images up to 3x3, 4x2 and 2x4, then random text lines, noise, structured and border-touching images; '
                'non-trivial = at least one box')
    exe = build(probe_target('probe_image', '-Wl,--wrap=read'))['probe_image']
    r = chk.rng
    imgs = []
    for w, h in [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (3, 2), (2, 3), (3, 3), (4, 2), (2, 4), (5, 1), (1, 5), (5, 2)]:
        for bits in itertools.product('x-', repeat=w * h):
            imgs.append((w, h, ''.join(bits)))
    chk.count('exhaustive_small_images', len(imgs))
    for _ in range(chk.scale(3000, 600000)):
        k = r.random()
        if k < .6:
            imgs.append(gen.text_line(r))
        elif k < .8:
            imgs.append(gen.image(r, 30, 20))
        else:
            imgs.append(gen.noise(r, r.randint(1, 40), r.randint(1, 12), r.choice([.02, .05, .1, .2])))
    for w, h, p in [(300, 3, .3), (300, 3, .6), (2000, 5, .1), (2000, 5, .2), (5000, 1, .5), (70000, 1, .4), (3, 300, .02), (1, 70000, .001), (40, 300, .02), (300, 40, .05)]:
        imgs.append(gen.noise(r, w, h, p))
    for w, h in [(257, 2), (600, 3), (2, 257), (260, 260)]:                  # one wide or tall box
        imgs += [(w, h, 'x' * (w * h)), (w, h, ('x' * w if w > h else 'x' + '-' * (w - 1)) + '-' * (w * (h - 2)) + '-' * (w - 1) + 'x')]
    for _ in range(chk.scale(6, 900)):                                        # hundreds of characters on one line
        imgs.append(gen.text_line(r, 4000, 12, 600))
    lines = ['boxes %d %d %s' % i for i in imgs]
    which = dict(zip(lines, imgs))

    def oracle(line, obs):
        img = which[line]
        exp = models.boxes(img)
        e = []
        for b in exp:
            e += ['box %d %d %d %d' % b, '%d %d %s' % models.section(img, *b)]
        e.append('end')
        chk.count('boxes', len(exp))
        if any(b[0] + b[2] == img[0] for b in exp):
            chk.count('images_touching_right_border')
        if len(exp) > 1:
            chk.count('images_with_several_boxes')
            chk.sample('%dx%d -> %s' % (img[0], img[1], exp))
        if obs != e:
            got = [l for l in obs if l.startswith('box')]
            kind = 'outside' if 'outside' in obs else 'runaway' if 'runaway' in obs else \
                'lost_pixels' if sum(l.count('x') for l in obs if not l.startswith('box')) != img[2].count('x') else 'cut'
            chk.violation(kind, 'boxes %s instead of %s' % (got[:5], exp[:5]),
                          'image:\n%s\nexpected %s\ngot %s' % (models.show(img), exp, obs))
    res = run_cases_parallel(exe, lines)
    judge(chk, lines, res, oracle, 'segmentation', nontrivial=lambda l: 'x' in which[l][2])
    chk.need(chk.counts.get('images_with_several_boxes', 0) > 200 or chk.violations, 'too few multi-box images')
    return chk.finish()
