from ppv import *
from tools import *
from wordgen import lst
import models, gen, dbgen, ocrmodel

TOKENS = WORDS + ['A', 'B', 'C', 'z', '2', '(', ')', 'ff', '?', ':', 'q' * 8, 'ю', 'Ω']


def letter(r):
    """a bitmap that is one character on its own and tight"""
    for _ in range(60):
        i = gen.image(r, 12, 12) if r.random() < .6 else r.choice(dbgen.shipped())[0]
        if 'x' not in i[2]:
            continue
        b = models.boxes(i)
        g = models.section(i, *max(b, key=lambda q: q[2] * q[3]))
        if models.boxes(g) == [(0, 0, g[0], g[1])]:
            return g
    return 1, 1, 'x'


def line(r, parts):
    """a picture of the (gap, bitmap) at any vertical offsets; -> picture"""
    h = max([g[1] for _, g in parts]) + r.randint(0, 4)
    rows = [''] * h
    for gap, (w, gh, s) in parts:
        top = r.randint(0, h - gh) if r.random() < .5 else h - gh
        for y in range(h):
            rows[y] += '-' * gap + (s[(y - top) * w:(y - top + 1) * w] if top <= y < top + gh else '-' * w)
    t = r.choice([0, 0, 1, 7])
    return len(rows[0]) + t, h, ''.join(x + '-' * t for x in rows)


def main():
    chk = Check('C30', 'alphabets of 1..60 bitmaps in 1..4 fonts written as pictures, learnt, normalised, described and then read again: the pictures themselves and '
                'new lines of their characters in any order, spacing, height and file kind, with and without line table and dictionary; '
                'non-trivial = a line of at least two characters')
    exe = tools('write_glyphs', 'normalize_glyphs', 'write_datas', 'make_trie_dictionary', 'ocr2_extract_text')
    r = chk.rng
    plans, cmds = [], []
    for n in range(chk.scale(140, 3000)):
        d = os.path.join(chk.scratch, 'r%d' % n)
        os.mkdir(d)

        def put(f, b, d=d):
            open(os.path.join(d, f), 'wb').write(b if isinstance(b, bytes) else b.encode())
            return os.path.join(d, f)
        # each bitmap has one word, in one or several fonts
        word = {}
        for _ in range(r.choice([1, 3, 8, 20, 20, 60])):
            word.setdefault(letter(r), r.choice(TOKENS))
        fonts = r.sample(['f', 'Arial', 'dejavu_11', 'é', '12'], r.choice([1, 1, 2, 4]))
        argv, learnt = [], []
        for k, f in enumerate(fonts):
            gs = [g for g in word if r.random() < .7 or k == 0] or list(word)[:1]
            r.shuffle(gs)
            gs += [r.choice(gs) for _ in range(r.choice([0, 0, 3]))]
            img = line(r, [(r.choice([0, 1, 3]) if not i else r.choice([1, 1, 2, 3, 5, 6]), g) for i, g in enumerate(gs)])
            argv.append([put('i%d' % k, pnm_of(img, r.choice('446'), r)), put('t%d' % k, ' '.join(word[g] for g in gs) + '\n'), f])
            learnt.append(img)
        cut = r.randint(0, len(argv))
        parts = [p for p in (argv[:cut], argv[cut:]) if p]
        plans.append((d, put, word, argv, learnt, parts))
        cmds += [([exe['write_glyphs']] + [a for t in p for a in t], b'', d) for p in parts]

    def stage(cmds, what):
        """runs the commands of a stage, which all must succeed; -> outputs or None"""
        outs = []
        for c, (res,) in zip(cmds, run_many(cmds)):
            rp = '%s\n%s\nexit %d\n%s' % (what, c[0], res.rc, res.err.decode('latin1')[-1500:])
            rp += '\n' + '\n'.join('%s: %s' % (f, open(os.path.join(c[2], f), 'rb').read().hex()[:20000]) for f in sorted(os.listdir(c[2])))
            if tool_fault(chk, what, res, rp):
                outs.append(None)
            elif res.rc:
                chk.violation('exit:' + what, '%s fails with exit %d on what it should learn' % (what, res.rc), rp)
                outs.append(None)
            else:
                outs.append(res.out)
        return outs
    glyphs = iter(stage(cmds, 'write_glyphs'))
    todo = []
    for p in plans:
        got = [next(glyphs) for _ in p[5]]
        if None not in got:
            r.shuffle(got)
            todo.append((p, [p[1]('raw%d' % k, g) for k, g in enumerate(got)]))
    norm = stage([([exe['normalize_glyphs']] + raws, b'', p[0]) for p, raws in todo], 'normalize_glyphs')
    todo = [(p, p[1]('g', o)) for (p, _), o in zip(todo, norm) if o is not None]
    data = stage([([exe['write_datas'], g], b'', p[0]) for p, g in todo], 'write_datas')
    todo = [(p, g, p[1]('d', o)) for (p, g), o in zip(todo, data) if o is not None]
    tries = []
    for p, g, f in todo:
        ws = sorted(set(p[2].values()))
        p[1]('w', ''.join('%s\n' % ''.join(r.choice(ws) for _ in range(r.randint(1, 3))) for _ in range(r.choice([0, 4, 40]))))
        p[1]('l', ''.join('%s %d %d %d %d\n' % ((w,) + tuple(r.randrange(8) for _ in range(4))) for w in ws if r.random() < .7))
        tries.append(([exe['make_trie_dictionary'], p[0] + '/w'], b'', p[0]))
    reads = []
    for (p, g, f), t in zip(todo, stage(tries, 'make_trie_dictionary')):
        if t is None:
            continue
        p[1]('t', t)
        d, put, word = p[:3]
        # characters that no other word resembles perfectly: read without ambiguity
        db = [(q, [(w, 'f')]) for q, w in word.items()]
        feats = [dbgen.features(q) for q in word]
        clear = []
        for q, w in word.items():
            st, gs = ocrmodel.groups(db, feats, dbgen.features(q))
            if {x for s in gs for x in s[1]} == {w}:
                clear.append(q)
        chk.count('characters_learnt', len(word))
        chk.count('characters_that_resemble_another', len(word) - len(clear))
        lines = [i for i in p[4] if all(models.section(i, *b) in clear for b in models.boxes(i))]
        for _ in range(5):
            if clear:
                lines.append(line(r, [(r.choice([0, 4, 5, 9]) if not i else r.choice([1, 1, 2, 3, 4, 4, 5, 5, 6, 11]), r.choice(clear))
                                      for i in range(r.choice([1, 2, 5, 12, 40]))]))
        for k, i in enumerate(lines):
            want, x = '', 0
            bx = models.boxes(i)
            for b in bx:
                want += (' ' if want and b[0] - x > 4 else '') + word[models.section(i, *b)]
                x = b[0] + b[2]
            opt = r.choice([0, 1, 2, 2])
            reads.append((([exe['ocr2_extract_text'], g, f, put('q%d' % k, pnm_of(i, r.choice('1446'), r))] + [d + '/l', d + '/t'][:opt], b'', d), i, len(bx), want))
    for ((argv, _, d), i, n, want), (res,) in zip(reads, run_many([q[0] for q in reads])):
        rp = '%s\nexpected %r\nexit %d\n%s\n%s\n' % (argv, want, res.rc, res.out.decode('utf8', 'replace')[-3000:], res.err.decode('latin1')[-1500:])
        rp += models.show(i) + '\n'.join('%s: %s' % (f, open(os.path.join(d, f), 'rb').read().hex()[:20000]) for f in ('g', 'd', 'l', 'w'))
        chk.eval(argv[3], n > 1)
        chk.count('characters_read', n)
        if tool_fault(chk, 'ocr2_extract_text', res, rp):
            continue
        m = re.search(rb' ## result: (.*)\nunrecognized_count: (\d+)\ncount: (\d+)\n', res.out, re.S)
        if res.rc or not m:
            chk.violation('exit:read', 'a line of learnt characters is not read (exit %d)' % res.rc, rp)
            continue
        got = m.group(1).decode('utf8', 'replace')
        chk.count('spaces_read', want.count(' '))
        if (got, m.group(2), int(m.group(3))) != (want, b'0', n):
            chk.violation('read', 'a line learnt as %r is read as %r (%s of %s unrecognised)' % (want, got, m.group(2), m.group(3)), rp)
        else:
            chk.sample(got)
    chk.need(chk.counts.get('characters_read', 0) > 1000 or chk.violations, 'too few characters read')
    return chk.finish()
