from ppv import *
import re

TOP = 2 ** 32 - 1


def num(r, top=TOP):
    return r.choice([0, 1, 2, 3, 4, 7, 9, 10, 255, 256, 65535, 65536, top, top - 1, r.randint(0, top), r.randint(0, 99)])


def main():
    chk = Check('C36', 'coordinates, sizes, boxes and enumerations over the whole range of their numbers, written with any blanks between them, cut, '
                'too large or no numbers at all; equal and nearly equal boxes; integers of four types; scans over rows and bands of bitmaps; '
                'views over arrays; floating point numbers of every magnitude some steps apart; non-trivial = all but the empty ones')
    exe = build(probe_target('probe_lookup'))['probe_lookup']
    r = chk.rng
    lines, want = [], {}

    def add(line, *w):
        if line not in want:
            lines.append(line)
        want[line] = w

    def blanks():
        return ''.join(r.choice(' \n\t\r') for _ in range(r.choice([1, 1, 1, 2, 5])))
    OLD = {'index': '7 9', 'bounds': '7 9', 'box': '7 9 3 4'}
    for _ in range(chk.scale(3000, 600000)):
        kind = r.choice(list(OLD))
        n = 4 if kind == 'box' else 2
        v = [num(r) for _ in range(n)]
        t = r.choice(['', '', blanks()])
        k = r.random()
        for i, x in enumerate(v):
            t += (blanks() if i else '') + str(x)
        rest = r.choice(['', '', ' ', '\n', ' rest 5', 'x', ' 1', '-'])
        if k < .6:
            add('%s %s' % (kind, (t + rest).encode().hex() or '_'), 'coord', '1 %s|%s' % (' '.join(map(str, v)), rest.split('\n')[0]))
        elif k < .75:       # something is missing
            i = r.randrange(n)
            t = blanks().join(map(str, v[:i])) + r.choice(['', ' ', 'x', ' x', ' . 5'])
            add('%s %s' % (kind, t.encode().hex() or '_'), 'coord', '0 %s|' % OLD[kind])
        elif k < .9:        # a number that does not fit
            v[r.randrange(n)] = r.choice([2 ** 32, 2 ** 32 + 1, 2 ** 64 + 3, 10 ** 30])
            add('%s %s' % (kind, blanks().join(map(str, v)).encode().hex()), 'coord', '0 %s|' % OLD[kind])
        else:
            i = r.randrange(n)
            s = [str(x) for x in v]
            s[i] = r.choice(['x', '.', '*', 'a5', '$'])
            add('%s %s' % (kind, ' '.join(s).encode().hex()), 'coord', '0 %s|' % OLD[kind])
    for _ in range(chk.scale(2000, 450000)):
        top = r.choice([2, 5, 300, 10 ** 9, TOP])
        a = [r.randint(0, top) for _ in range(4)]
        b = list(a)
        for i in range(r.choice([0, 1, 1, 1, 2, 4])):
            b[r.randrange(4)] = r.choice([r.randint(0, top), a[r.randrange(4)], max(0, a[0] - 1), min(TOP, a[1] + 1)])
        x, y, w, h = a
        ok = w > 0 and h > 0
        e = '%d %d %d %d %d %d%d11'[:-2] % (x, y, w, h, ok, a == b, a != b) + '1%d10 %d%d 00 %d %d %d %d' % (a == b, a[:2] == b[:2], a[2:] == b[2:], w, h, x, y)
        if ok:
            e += ' %d %d' % ((x + w - 1) & TOP, (y + h - 1) & TOP)
        e += ' %d %d' % (b[0] < w and b[1] < h, (w * h) & TOP if w * h <= TOP else -1)
        add('boxes ' + ' '.join(map(str, a + b)), 'boxes', e, w * h <= TOP)
    RANGE = {'i': (-2 ** 31, 2 ** 31 - 1), 'u': (0, TOP), 'c': (0, 255), 'l': (-2 ** 61, 2 ** 61)}
    for _ in range(chk.scale(2000, 450000)):
        t = r.choice(list(RANGE))
        lo, hi = RANGE[t]
        a = r.choice([lo, lo + 1, 0, 1, hi - 1, hi - 2, r.randint(lo, hi - 1), r.randint(0, 9)])
        b = r.choice([lo, hi, a, a + 1, max(lo, a - 1), 0, r.randint(lo, hi)])
        d = r.choice([0, 1, hi - a, lo - a, r.randint(lo - a, hi - a)])
        e = '%d %d %d %d %s %d %d %d %d %d %d' % (a, b, a - b, b - a, ''.join(str(int(x)) for x in (a == b, a != b, a < b, a <= b, True, b <= a, b < a)),
                                                  a + d, a, a + d, a, a + 1, a + 1)
        add('int-%s %d %d %d' % (t, a, b, d), 'exact', [e])
    for _ in range(40):
        a = r.choice([0, 1, 5, 1000, TOP - 3000])
        n = r.choice([0, 1, 2, 255, 256, 1000])
        add('span %d %d' % (a, a + n), 'exact', [' '.join(str(x) for x in range(a, a + n))])
    ENUM = {'i': (-2 ** 31, 2 ** 31 - 1), 'u': (0, TOP), 's': (-32768, 32767), 'l': (-2 ** 63, 2 ** 63 - 1)}
    for _ in range(chk.scale(800, 120000)):
        t = r.choice(list(ENUM))
        lo, hi = ENUM[t]
        v = r.choice([lo, hi, 0, 1, max(lo, -1), r.randint(lo, hi), r.randint(0, 40)])
        add('enum-%s %s' % (t, (r.choice(['', ' ', '\n']) + str(v) + r.choice(['', ' ', ' 5', 'x'])).encode().hex()), 'exact', ['1 %d %d' % (v, v)])
        add('enum-%s %s' % (t, r.choice([b'', b' ', b'x', b'. 5', str(hi + 1).encode(), str(hi * 10 + 1).encode()]).hex() or '_'), 'exact', ['0 77 77'])
    for k in range(chk.scale(1500, 225000)):
        W, H = r.choice([(1, 1), (1, 5), (5, 1), (4, 4), (9, 7), (300, 3), (3, 300)]) if k % 150 else r.choice([(70000, 2), (2, 70000)])
        p = r.choice([.003, .05, .5, .95, 0, 1])
        img = [''.join('x' if r.random() < p else '-' for _ in range(W)) for _ in range(H)]
        x, y = r.randrange(W), r.randrange(H)
        w, h = r.randint(0, W - x), r.randint(0, H - y)
        e = []
        for rows in (1, h):
            b = [any(img[y + j][x + i] == 'x' for j in range(rows)) for i in range(w)]
            alt = [i for i in range(1, w) if b[i] != b[i - 1]]
            e.append(' '.join(['%d %d %d' % (w, w, -w), ''.join(str(int(t)) for t in b)] + list(map(str, alt)) + ['%d%d%d' % (any(b), all(b), not any(b))]))
        add('scan %d %d %d %d %d %d %s' % (x, y, w, h, W, H, ''.join(img)), 'exact', e)
    for _ in range(chk.scale(300, 45000)):
        t = [r.randint(-2 ** 31, 2 ** 31 - 1) for _ in range(r.choice([1, 2, 5, 20]))]
        v = [r.randrange(len(t)) for _ in range(r.choice([0, 1, 2, 3, 20, 300]))]
        m = ' '.join(str(t[x]) for x in v)
        add('proxy %d %s %s' % (len(t), ' '.join(map(str, t)), ' '.join(map(str, v))), 'exact', [' '.join(map(str, v)), m, m])
    for _ in range(chk.scale(2000, 300000)):
        t = r.choice('df')
        lo, hi = (-900, 1000) if t == 'd' else (-90, 120)      # differences are normal numbers too
        x = r.choice([-1, 1]) * r.choice([1., 1.5, 2 - 2 ** -20, r.uniform(1, 2)]) * 2. ** r.choice([0, 1, -1, r.randint(lo, hi)])
        ulp = r.choice([1, 2, 3, 10])
        k = r.choice([-1, 1]) * r.choice([0, 1, 2 * ulp - 1, 4 * ulp + 2, 5 * ulp, 100])
        if t == 'f':
            import struct
            x = struct.unpack('f', struct.pack('f', x))[0]
        add('almost-%s %s %d %d' % (t, '%.17g' % x, k, ulp), 'almost', k, ulp)

    def oracle(line, obs):
        w = want[line]
        kind = line.split(' ')[0]
        rp = '%s\nexpected %s\ngot %s' % (line[:4000], str(w)[:4000], '\n'.join(obs)[:4000])
        obs = [o[2:] if (o + ' ')[:2] == '= ' else o for o in obs]
        if any('?' in o for o in obs):
            chk.violation(kind, '%s disagrees with itself: %s' % (kind, obs[:2]), rp)
            return
        chk.count(kind.split('-')[0])
        if w[0] == 'coord':
            # blanks before what follows may be read or not
            g, e = obs[0].split('|', 1), w[1].split('|', 1)
            if len(obs) != 1 or g[0] != e[0] or g[1].strip() != e[1].strip():
                chk.violation(kind, '%s read from %r is %s instead of %s' % (kind, bytes.fromhex(line.split()[1]) if line.split()[1] != '_' else b'', obs, w[1]), rp)
        elif w[0] == 'boxes':
            g, e = obs[0].split(), w[1].split()
            if len(obs) != 1 or (g if w[2] else g[:-1]) != (e if w[2] else e[:-1]):
                chk.violation(kind, 'boxes %s: %s instead of %s' % (line[6:], obs[0], w[1]), rp)
        elif w[0] == 'exact':
            if [o.split() for o in obs] != [o.split() for o in w[1]]:
                chk.violation(kind, '%s: %s instead of %s' % (line[:100], obs[0][:100], w[1][0][:100]), rp)
        else:
            k, ulp = w[1:]
            near = '1' if abs(k) < 2 * ulp else '0'
            if obs != [near * 3 + '1']:
                chk.violation(kind, 'numbers %d steps apart, %d allowed: %s' % (k, ulp, obs), rp)
        if len(line) < 60 and len(chk.samples) < 12:
            chk.sample('%s: %s' % (line, obs))
    judge(chk, lines, run_cases_parallel(exe, lines), oracle, 'value')
    chk.need(chk.counts.get('scan', 0) > 100 or chk.violations, 'too few scans')
    return chk.finish()
