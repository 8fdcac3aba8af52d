from ppv import *
from tools import *
from C30 import line, letter
import models, gen, dbgen, toolcases

LIMIT = 8        # a fourfold input may cost so many times more (4: in proportion, 16: quadratic)


def main():
    chk = Check('C32', 'series of three inputs, each four times as large as the one before in one respect (characters, pixels of hostile pictures, glyphs, labels, '
                'words, files, table entries), to every tool; the instructions executed are counted; '
                'non-trivial = a series whose cost grew by at least 100000 instructions')
    exe = tools(*toolcases.NAMES, flavour='rel')
    r = chk.rng
    top = chk.scratch
    serial = [0]

    def put(b):
        serial[0] += 1
        p = os.path.join(top, 'f%d' % serial[0])
        open(p, 'wb').write(b if isinstance(b, bytes) else b.encode())
        return p

    def noise(w, h, p=.3):
        return w, h, ''.join('x' if r.random() < p else '-' for _ in range(w * h))

    def pattern(kind, w, h):
        f = {'full': lambda x, y: True, 'comb': lambda x, y: x % 2 == 0, 'rows': lambda x, y: y % 2 == 0, 'checker': lambda x, y: (x + y) % 2 == 0,
             'diagonal': lambda x, y: (x - y) % 7 == 0, 'sparse': lambda x, y: x % 9 == 0 and y % (h - 1) == 0, 'blank': lambda x, y: False,
             'frames': lambda x, y: min(x, y, w - 1 - x, h - 1 - y) % 2 == 0, 'teeth': lambda x, y: y == h - 1 or x % 2 == 0,
             'stairs': lambda x, y: y == x % h}[kind]
        return w, h, ''.join('x' if f(x, y) else '-' for y in range(h) for x in range(w))
    letters = list(dict.fromkeys(letter(r) for _ in range(700)))
    simple = [g for g in letters if g[0] * g[1] < 80] or letters

    def pic(i, kind='4'):
        return put(pnm_of(i, kind))

    def text(db):
        return put(dbgen.text(db))

    def table(db):
        return put(models.datas_text([dbgen.features(q) for q, _ in db]))

    def small(n):
        out = {}
        while len(out) < n:
            out[noise(r.randint(2, 7), r.randint(2, 9))] = None
        return list(out)

    def near(n):
        big, out = noise(20, 20, .5), {}
        while len(out) < n:
            out[dbgen.flip(r, big, 3)] = None
        return list(out)

    def ocr(db, pics, *more):
        return 'ocr2_extract_text', [text(db), table(db), pic(line(r, [(2, q) for q in pics]))] + list(more)

    def words(n, k=7, al='abcdefgh'):
        return [''.join(r.choice(al) for _ in range(k)) for _ in range(n)]

    def lst(ws):
        return put(''.join(w + '\n' for w in ws))

    def dictionary(n):
        return put(run([exe['make_trie_dictionary'], lst(words(n))], env=san_env()).out)
    S = []      # (name, sizes, function size -> (tool, argv))

    def series(name, first, f):
        S.append((name, [first, first * 4, first * 16], f))
    k = chk.scale(1, 4)
    # pictures
    series('picture: characters', 60 * k, lambda n: ('show_glyphs', [pic(line(r, [(r.choice([1, 3, 6]), r.choice(simple)) for _ in range(n)]))]))
    for p in ('full', 'comb', 'rows', 'checker', 'diagonal', 'sparse', 'blank', 'teeth', 'stairs'):
        series('picture: wide, ' + p, 150 * k, lambda n, p=p, kind=r.choice('46'): ('show_glyphs', [pic(pattern(p, n, 24), kind)]))
        series('picture: high, ' + p, 150 * k, lambda n, p=p, kind=r.choice('46'): ('show_glyphs', [pic(pattern(p, 24, n), kind)]))
    series('picture: ascii', 150 * k, lambda n: ('show_glyphs', [pic(pattern('diagonal', n, 24), '1')]))
    series('learning: characters', 60 * k, lambda n: ('write_glyphs', [pic(line(r, [(1, r.choice(simple)) for _ in range(n)])), put(' '.join(words(n))), 'f']))
    one = line(r, [(1, letters[0])])
    series('learning: pictures', 10, lambda n: ('write_glyphs', [a for _ in range(n) for a in (pic(one), put('w'), 'f')]))
    # glyph files
    series('normalising: distinct bitmaps', 150 * k, lambda n: ('normalize_glyphs', [text([(q, [('w', 'f')]) for q in small(n)])]))
    series('normalising: sorted bitmaps', 150 * k, lambda n: ('normalize_glyphs', [text([(q, [('w', 'f')]) for q in sorted(small(n))])]))
    series('normalising: reversed bitmaps', 150 * k, lambda n: ('normalize_glyphs', [text([(q, [('w', 'f')]) for q in sorted(small(n))[::-1]])]))
    series('normalising: equal bitmaps', 150 * k, lambda n: ('normalize_glyphs', [text([(letters[0], [('w%d' % r.randrange(n), 'f')]) for _ in range(n)])]))
    series('normalising: equal labels', 150 * k, lambda n: ('normalize_glyphs', [text([(letters[0], [('w', 'f')]) for _ in range(n)])]))
    series('normalising: files', 12, lambda n: ('normalize_glyphs', [text([(q, [('w', 'f')]) for q in small(9)]) for _ in range(n)]))
    series('features: glyphs', 25 * k, lambda n: ('write_datas', [text([(r.choice(letters), [('w', 'f')]) for _ in range(n)])]))
    for p in ('full', 'rows', 'checker', 'diagonal', 'sparse', 'frames', 'teeth', 'stairs', 'comb'):
        series('features: pixels, ' + p, 1200 * k, lambda n, p=p: ('write_datas', [text([(pattern(p, int(n ** .5), int(n ** .5)), [('w', 'f')])])]))
    series('features: pixels, noise', 1200 * k, lambda n: ('write_datas', [text([(noise(int(n ** .5), int(n ** .5), .5), [('w', 'f')])])]))
    series('features: wide', 300 * k, lambda n: ('write_datas', [text([(pattern('checker', n, 4), [('w', 'f')])])]))
    series('features: high', 300 * k, lambda n: ('write_datas', [text([(pattern('checker', 4, n), [('w', 'f')])])]))
    # word lists
    series('dictionary: words', 150 * k, lambda n: ('make_trie_dictionary', [lst(words(n))]))
    series('dictionary: sorted words', 150 * k, lambda n: ('make_trie_dictionary', [lst(sorted(words(n)))]))
    series('dictionary: reversed words', 150 * k, lambda n: ('make_trie_dictionary', [lst(sorted(words(n))[::-1])]))
    series('dictionary: equal words', 150 * k, lambda n: ('make_trie_dictionary', [lst(['word'] * n)]))
    series('dictionary: deep', 150 * k, lambda n: ('make_trie_dictionary', [lst(words(n, 14, 'ab'))]))
    series('dictionary: long words', 300 * k, lambda n: ('make_trie_dictionary', [lst(words(4, n))]))
    series('dictionary: many letters', 400 * k, lambda n: ('make_trie_dictionary', [lst([chr(0x400 + i) + chr(0x4e00 + i % 16000) for i in range(n)])]))
    series('dictionary: prefixes', 300 * k, lambda n: ('make_trie_dictionary', [lst(['a' * i for i in range(int((2 * n) ** .5))])]))
    series('dictionary: files', 12, lambda n: ('make_trie_dictionary', [lst(words(5)) for _ in range(n)]))
    # recognition
    series('reading: glyphs', 60 * k, lambda n: ocr([(q, [('w%d' % (i % 50), 'f%d' % (i % 5))]) for i, q in enumerate(small(n))], letters[:4]))
    for name, f in (('one word', lambda i: 'w'), ('few words', lambda i: 'w%d' % (i % 9)), ('as many words', lambda i: 'w%d' % i)):
        def similar(n, f=f):
            qs = near(n + 3)
            return ocr([(q, [(f(i), 'f%d' % (i % 7))]) for i, q in enumerate(qs[3:])], qs[:3])
        series('reading: similar glyphs of ' + name, 25 * k, similar)
    series('reading: labels', 250 * k, lambda n: ocr([(letters[0], [('w%d' % i, 'f%d' % (i % 50)) for i in range(n)])], letters[:1]))
    ls = [('w%d' % i, 'f') for i in range(40)]
    series('reading: line table', 250 * k, lambda n: ocr([(letters[0], ls)], letters[:2], put(''.join('w%d 1 2 3 4\n' % i for i in range(n)))))
    series('reading: dictionary', 100 * k, lambda n: ocr([(letters[0], [('a', 'f'), ('b', 'f')])], letters[:1] * 5, put('a 1 2 3 4\n'), dictionary(n)))
    db = [(q, [('w%d' % i, 'f')]) for i, q in enumerate(simple[:4])]
    for p in ('comb', 'diagonal', 'blank', 'sparse', 'stairs'):
        series('reading: wide picture, ' + p, 400 * k, lambda n, p=p: ('ocr2_extract_text', [text(db), table(db), pic(pattern(p, n, 24))]))
        series('reading: high picture, ' + p, 400 * k, lambda n, p=p: ('ocr2_extract_text', [text(db), table(db), pic(pattern(p, 24, n))]))
    some = [(q, [('%s' % c, 'f%d' % j) for j, c in enumerate('abc')]) for q in simple[:5]]
    table_of = put('a 2 2 2 2\nb 1 1 1 1\n')
    t = dictionary(200)
    series('reading: ambiguous characters', 50 * k, lambda n: ocr(some, [r.choice(simple[:5]) for _ in range(n)], table_of, t))
    # a word of four characters, each with the same three texts in every font, that no dictionary word completes
    dead = put(run([exe['make_trie_dictionary'], lst([a + b + c + d + 'z' for a in 'abc' for b in 'abc' for c in 'abc' for d in 'abc'])], env=san_env()).out)
    series('reading: texts repeated by fonts', 1, lambda n: ocr([(simple[0], [(w, 'f%d' % j) for j in range(n) for w in 'abc'])], simple[:1] * 4, table_of, dead))
    distinct = small(16 * 15 * k)
    whole = [(q, [('w%d' % (i % 60), 'f%d' % (i % 3))]) for i, q in enumerate(distinct)]
    series('reading: distinct characters', 15 * k, lambda n: ocr(whole, distinct[:n]))
    few = [(q, [('w', 'f')]) for q in distinct[:3]]
    tiny = {}
    while len(tiny) < 2400 * k:
        tiny[noise(r.randint(2, 4), r.randint(6, 9), .7)] = None
    tiny = list(tiny)
    series('reading: distinct characters, few glyphs', 150 * k, lambda n: ocr(few, tiny[:n]))
    series('reading: labels of distinct fonts', 150 * k, lambda n: ocr([(letters[0], [('w%d' % (i % 3), 'f%d' % i) for i in range(n)])], letters[:1]))
    series('reading: glyphs of distinct fonts', 60 * k, lambda n: ocr([(q, [('w%d' % (i % 50), 'f%d' % i)]) for i, q in enumerate(small(n))], letters[:4]))
    # a bitmap that occurs again is not searched for again: the size of the database does not matter then
    again = {}
    for size in (100 * k, 1600 * k):
        d = [(q, [('w%d' % (i % 60), 'f')]) for i, q in enumerate(near(size))]
        for n in (20, 120):
            again[size, n] = ocr(d, [d[0][0]] * n)
    jobs = [(name, n, f(n)) for name, ns, f in S for n in ns] + [('again', key, j) for key, j in again.items()]

    def cost(j):
        name, n, (tool, argv) = j
        for _ in range(2):
            x = run(['valgrind', '--tool=callgrind', '--callgrind-out-file=/dev/null', exe[tool]] + argv, b'', cpu=300)
            if not (x.timed_out or x.rc in (-24, -9)):
                break
        m = re.search(rb'Collected : (\d+)', x.err)
        return x, int(m.group(1)) if m else None
    with ThreadPoolExecutor(NCPU) as ex:
        rs = {(j[0], j[1]): (j, v) for j, v in zip(jobs, ex.map(cost, jobs))}

    def get(name, n):
        (_, _, (tool, argv)), (x, c) = rs[name, n]
        rp = '%s, size %s\n%s %s\nexit %d\n%s\n%s' % (name, n, tool, ' '.join(argv)[:3000], x.rc, x.out.decode('latin1')[-500:], x.err.decode('latin1')[-1500:])
        if x.timed_out or x.rc in (-24, -9):
            if x.timed_out:
                raise HarnessError('watchdog twice: ' + rp[:300])
            chk.violation('hang:' + tool, '%s: %s does not end' % (name, tool), rp)
            return None, rp
        if x.rc or c is None:
            if x.rc == 0 or b'valgrind' in x.err and b'terminate' not in x.err and x.rc > 0:
                raise HarnessError('instruction counter: ' + x.err.decode('latin1')[-500:])
            chk.violation('exit:' + tool, '%s: %s ends with %d' % (name, tool, x.rc), rp)
            return None, rp
        chk.count('runs_counted')
        chk.count('instructions_counted', c)
        return c, rp
    worst = 0
    for name, ns, f in S:
        cs = [get(name, n) for n in ns]
        if any(c is None for c, _ in cs):
            continue
        a, b, c = [x[0] for x in cs]
        chk.eval(name, c - a > 100000)
        ratio = (c - b) / max(b - a, 60000)
        if os.environ.get('SHOW'):
            print('%-45s %12d %12d %12d  %.2f' % (name, a, b, c, ratio))
        worst = max(worst, ratio)
        chk.sample('%s: %d, %d, %d instructions for %s' % (name, a, b, c, ns))
        if ratio > LIMIT:
            chk.violation('growth:' + name.replace(' ', '_'), '%s: the cost grows from %d over %d to %d instructions for sizes %s' % (name, a, b, c, ns), cs[2][1])
    vs = {key: get('again', key) for key in again}
    if all(v[0] is not None for v in vs.values()):
        lo, hi = [vs[s, 120][0] - vs[s, 20][0] for s in (100 * k, 1600 * k)]
        chk.eval('again', True)
        if os.environ.get('SHOW'):
            print('again', lo, hi)
        if hi > 4 * max(lo, 200000):
            chk.violation('again', '100 more occurrences of a bitmap cost %d instructions with a database of %d glyphs and %d with %d' % (lo, 100 * k, hi, 1600 * k), vs[1600 * k, 120][1])
    chk.counts['highest_growth_for_fourfold_input_in_percent'] = int(worst * 100)
    chk.need(chk.counts.get('runs_counted', 0) > 100 or chk.violations, 'too few runs counted')
    return chk.finish()
