from ppv import *
from dbgen import hexs
import dbgen, ocrmodel

WORDS = ['a', 'b', 'c', 'ab', 'é', "'", ',', '.', 'g', 'p', 'l', 'x', '-', 'rn', 'waytoolong']


def line_db(r, nglyph=None):
    words = r.sample(WORDS, r.randint(1, len(WORDS)))
    return [((1, 1, 'x'), [(r.choice(words), 'f%d' % r.randrange(4)) for _ in range(r.choice([1, 1, 2, 3]))]) for _ in range(nglyph or r.choice([1, 3, 8, 20]))]


def cand_lists(r, db, n):
    """candidate lists as references (glyph, label); mostly grouped by word as recognition leaves them"""
    out = []
    labels = [(g, k) for g, (_, v) in enumerate(db) for k in range(len(v))]
    for _ in range(n):
        m = r.choice([0, 1, 1, 1, 2, 2, 3, 5, 8]) if r.random() < .998 else r.choice([17, 40, 300])
        l = [r.choice(labels) for _ in range(m)]
        if r.random() < .8:
            order = list(dict.fromkeys(db[g][1][k][0] for g, k in l))
            l.sort(key=lambda q: order.index(db[q[0]][1][q[1]][0]))
        out.append(l)
    return out


def fmt(c):
    return ';'.join(','.join('%d.%d' % q for q in l) or '-' for l in c) or '_'


def resolve(db, c):
    return [[db[g][1][k] for g, k in l] for l in c]


def boxes_of(r, n):
    """boxes around one base line and one mean line, with accents, descenders, strays and repeated rows"""
    base, x_h = r.choice([10, 20, 100, 255, 256, 257, 1000, 65535, 65536, 4000000]), r.choice([1, 2, 5, 8])
    out, x = [], r.choice([0, 3])
    for _ in range(n):
        k = r.random()
        j = r.choice([0, 0, 0, 0, 1, -1, 2, -2])
        bottom = base + j
        if k < .15:
            bottom = base + r.randint(1, 5)
        elif k < .3:
            bottom = base - r.randint(1, min(9, base))
        h = max(1, r.choice([x_h, x_h, x_h, x_h + 1, x_h + 3, 1, r.randint(1, 9)]) + r.choice([0, 0, j]))
        top = bottom - h + 1
        if top < 0:
            top, bottom = 0, max(bottom, 0)
        w = r.randint(1, 9)
        out.append((x, top, w, bottom - top + 1))
        x += w + r.choice([0, 1, 6])
    return out


def main():
    chk = Check('C18', 'lines of 0..12 boxes (shared, scattered, single, far from the origin) with 0..8 candidate labels each, grouped or '
                'not, and line tables over all classes for every subset of the words; non-trivial = at least two boxes')
    exe = build(probe_target('probe_ocr'))['probe_ocr']
    r = chk.rng
    lines, want = [], {}

    def clusters():
        """rows counted many times, or so far apart that eight or sixteen bits hold neither counts nor distances"""
        a = r.choice([0, 5, 300])
        far = r.choice([256, 512, 65536])
        k = r.random()
        if k < .4:      # the most frequent row, and two that would be more together
            bottoms = [a] * 5 + [a + 9] * 3 + [a + 9 + far] * 3
        elif k < .7:    # counts that wrap
            m = r.choice([256, 512]) + r.randint(0, 4)
            bottoms = [a] * m + [a + 9] * r.randint(m % 256 + 1, 30) + [a + 12] * 2
        else:
            bottoms = [a + r.choice([9, far, far + 1, 0]) for k in range(40)]
        r.shuffle(bottoms)
        top = r.random() < .5
        return [(4 * k, b, 3, r.choice([1, 1, 3])) if top else (4 * k, 0 if r.random() < .2 else b, 3, 1) for k, b in enumerate(bottoms)]
    for _ in range(chk.scale(9000, 360000)):
        db = line_db(r)
        n = r.choice([0, 1, 1, 2, 3, 4, 6, 12]) if _ % 150 else r.choice([64, 130, 257, 300, 600])
        c = cand_lists(r, db, n)
        b = boxes_of(r, n)
        if _ % 90 == 40:
            b = clusters()
            c = cand_lists(r, db, len(b))
        if _ % 20000 == 77:       # more than sixteen bits count
            b = [(4 * k, 20 if k % 60 else 30, 3, 2) for k in range(66600)]
            c = cand_lists(r, db, 40) * 1665
        kinds = r.choice([[0, 1, 2, 3, 4, 5, 6, 7], [2], [1, 2, 4], [2, 2, 2, 3, 6, 1]])
        infos = {}
        for w in WORDS:
            if r.random() < .7:
                i = tuple(r.choice(kinds) for _ in range(4))
                if r.random() < .4:
                    i = i[:2] + (2, 2)
                infos[w] = i
        it = ''.join('%s %d %d %d %d\n' % (w, *i) for w, i in infos.items())
        line = 'lines %s %s %s %d %s' % (hexs(dbgen.text(db)), hexs(it), fmt(c), len(b), ' '.join('%d %d %d %d' % q for q in b))
        infos.pop('waytoolong', None)
        want[line] = (db, resolve(db, c), infos, b)
        lines.append(line)

    def oracle(line, obs):
        db, c, infos, b = want[line]
        names = dbgen.font_names(db, obs[:1])
        if names is None or obs[1:2] != [str(len(c))] or len(obs) != len(c) + 2:
            chk.violation('shape', 'unexpected observations %s' % obs[:2], line)
            return
        got = [dbgen.parse(o, names) for o in obs[2:]]
        e = [ocrmodel.filter_lines(c, infos, b, s) for s in (False, True)]
        chk.count('characters', len(c))
        chk.count('candidates_before', sum(map(len, c)))
        chk.count('candidates_dropped', sum(map(len, c)) - sum(map(len, e[0])))
        if e[0] != [list(x) for x in c]:
            chk.count('lines_changed')
        if got not in e:
            k = next(i for i in range(len(c)) if got[i] != e[0][i])
            chk.violation('filter', 'boxes %s: character %d with %s becomes %s instead of %s' % (b[:6], k, c[k], got[k], e[0][k]),
                          'case: %s\nboxes %s\ninfos %s\nbefore %s\nexpected %s\ngot %s' % (line, b, infos, c, e[0], got))
        elif len(b) > 1 and e[0] != c:
            chk.sample('boxes %s: %s -> %s' % (b[:4], [[w for w, _ in x] for x in c[:4]], [[w for w, _ in x] for x in got[:4]]))
    judge(chk, lines, run_cases_parallel(exe, lines), oracle, 'line filter', nontrivial=lambda l: len(want[l][3]) > 1)
    chk.need(chk.counts.get('candidates_dropped', 0) > 1000 or chk.violations, 'too few candidates dropped')
    return chk.finish()
