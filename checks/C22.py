from ppv import *
from tools import *
from wordgen import lst
import models, gen, dbgen, ocrmodel


def compose(r, db, n=None):
    """a line of stored, damaged and foreign bitmaps at any gaps and offsets"""
    parts = []
    pool = [g[0] for g in db]
    some = [r.choice(pool) for _ in range(r.randint(1, 5))]
    for _ in range(n or r.choice([0, 1, 2, 4, 8, 14])):
        k = r.random()
        i = r.choice(some) if k < .6 else r.choice(pool) if k < .85 else dbgen.flip(r, r.choice(pool), r.choice([1, 2, 4])) if k < .93 else gen.image(r, 10, 10)
        parts.append((r.choice([1, 1, 1, 2, 3, 4, 4, 5, 5, 6, 9, 0]), i))
    h = max([i[1] for _, i in parts] or [3]) + r.randint(0, 4)
    base = h - r.choice([0, 0, 1, 2])
    aligned = r.choice([1, .8, .8, .5, .2])
    rows = [''] * h
    if r.random() < .3:
        rows = ['-' * r.choice([1, 4, 5, 8])] * h
    for g, (w, gh, s) in parts:
        bottom = base if r.random() < aligned else r.randint(gh, h)
        top = min(max(0, bottom - gh), h - gh)
        for y in range(h):
            rows[y] += '-' * g + (s[(y - top) * w:(y - top + 1) * w] if top <= y < top + gh else '-' * w)
    if r.random() < .4 or not rows[0]:
        rows = [x + '-' * r.choice([1, 6]) for x in rows] if rows[0] else ['---'] * h
        n = max(map(len, rows))
        rows = [x.ljust(n, '-') for x in rows]
    return len(rows[0]), h, ''.join(rows)


def wide(r, img, n):
    """the same line with blank columns inserted at a gap, so that something begins around column n"""
    w, h, s = img
    gaps = [x for x in range(w) if all(s[y * w + x] == '-' for y in range(h))] or [0]
    x = r.choice(gaps)
    add = max(0, n - x) + r.choice([0, 0, 1, 2, 3, 6])
    return w + add, h, ''.join(s[y * w:y * w + x] + '-' * add + s[y * w + x:(y + 1) * w] for y in range(h))


def expected(db, feats, cache, img, infos, words):
    """-> (count, None or (unrecognised, text)): None when the candidates are not unique"""
    bx = models.boxes(img)
    cands, spaces, x, unique, listing = [], set(), 0, True, []
    for k, (bx_, by, bw, bh) in enumerate(bx):
        g = models.section(img, bx_, by, bw, bh)
        if g not in cache:
            st, gs = ocrmodel.groups(db, feats, dbgen.features(g))
            cache[g] = (st, gs, ocrmodel.has_ties(st, gs))
        st, gs, tie = cache[g]
        unique = unique and not tie
        cands.append(ocrmodel.candidates(st, gs))
        if g not in [x for x, _ in listing]:
            listing.append((g, None if tie else ''.join(w + ' ' for w, _ in cands[-1])))
        if bx_ - x > 4:
            spaces.add(k)
        x = bx_ + bw
    if not unique:
        return len(bx), None, cands, listing
    outs = []
    for strict in (False, True):
        c = ocrmodel.filter_lines(cands, infos, bx, strict)
        votes = {f for f in (ocrmodel.filter_font(c, f)[0] for f in {v[1] for l in c for v in l})} or {None}
        for f in votes:
            o = ocrmodel.assemble(ocrmodel.filter_font(c, f)[1], words, spaces)
            if o not in outs:
                outs.append(o)
    return len(bx), outs, cands, listing


def listed(out, listing):
    """-> None when the tool shows each distinct bitmap once, when first met, with its candidate words; or what is wrong"""
    m = re.search(r' ## go\n(.*) ## result: ', out, re.S)
    body = m.group(1) if m else ''
    for k, (g, ws) in enumerate(listing):
        pic = models.show(g)
        if not body.startswith(pic):
            return 'distinct character %d is not shown' % k
        line, _, body = body[len(pic):].partition('\n')
        if ws is not None and line != ws:
            return 'candidates %r of distinct character %d instead of %r' % (line, k, ws)
    return None if m and not body else 'more characters are shown than the line has: %r' % body[:200]


def main():
    chk = Check('C22', 'runs of the recognition tool on lines of 0..14 stored, damaged, foreign and repeated bitmaps at gaps of 0..9 columns and '
                'any vertical offsets, over shipped-glyph and synthetic databases, with and without line table and dictionary; '
                'non-trivial = at least two characters')
    exe = tools('ocr2_extract_text', 'make_trie_dictionary')
    r = chk.rng
    jobs, pre = [], []
    for n in range(chk.scale(180, 2500)):
        d = os.path.join(chk.scratch, 'r%d' % n)
        os.mkdir(d)
        db = dbgen.real_db(r, r.choice([6, 30, 80])) if r.random() < .6 else dbgen.synth_db(r, r.choice([3, 12, 30]))
        seen = {}
        for i, v in db:
            seen.setdefault(i, []).extend(v)
        db = [(i, sorted(set(v))) for i, v in seen.items() if 'x' in i[2]]
        if r.random() < .5:       # one entry per feature vector: no equal scores between different entries
            by = {}
            for i, v in db:
                by.setdefault(str(dbgen.features(i)), (i, v))
            db = list(by.values())
        if not db:
            continue
        feats = [dbgen.features(i) for i, _ in db]
        ws = sorted({w for _, v in db for w, _ in v})
        infos = {w: r.choice([(0, 0, 2, 2), (2, 2, 1, 2), (0, 0, 4, 4), (1, 1, 1, 1), tuple(r.randrange(8) for _ in range(4))]) for w in ws if len(w.encode()) <= 8 and r.random() < .6}
        words = {''.join(r.choice(ws) for _ in range(r.choice([1, 2, 2, 3, 4]))) for _ in range(r.choice([0, 5, 40]))}
        open(d + '/g', 'w').write(dbgen.text(db))
        open(d + '/d', 'w').write(models.datas_text(feats))
        open(d + '/l', 'w').write(''.join('%s %d %d %d %d\n' % (w, *i) for w, i in infos.items()))
        open(d + '/w', 'w').write(''.join(w + '\n' for w in sorted(words)))
        pre.append(([exe['make_trie_dictionary'], d + '/w'], b'', d))
        cache = {}
        for k in range(7):
            img = compose(r, db, r.choice([66, 130, 300]) if k == 6 and n % 9 == 0 else None)
            if k == 6 and n % 60 == 4:      # columns that 16 bits do not count
                img = wide(r, img, r.choice([65536, 65532]))
            open(d + '/i%d' % k, 'wb').write(pnm_of(img, r.choice('446'), r))
            opt = r.choice([0, 1, 2, 2, 2])
            argv = [exe['ocr2_extract_text'], d + '/g', d + '/d', d + '/i%d' % k] + [d + '/l', d + '/t'][:opt]
            jobs.append((argv, d, img, expected(db, feats, cache, img, infos if opt else {}, words if opt > 1 else set())))
    for c, (res,) in zip(pre, run_many(pre)):
        if res.rc:
            raise HarnessError('dictionary builder: exit %d %s' % (res.rc, res.err[-300:]))
        open(c[2] + '/t', 'wb').write(res.out)
    rs = run_many([(j[0], b'', j[1]) for j in jobs], fills=(0x78, 0x2d))
    for (argv, d, img, (n, outs, cands, listing)), two in zip(jobs, rs):
        files = '\n'.join('%s: %s' % (f, open(os.path.join(d, f), 'rb').read().hex()[:20000]) for f in ('g', 'd', 'l', 'w', os.path.basename(argv[3])))
        rp = 'argv %s\n%s\npicture:\n%s\ncandidates %s\nexpected count %d, (unrecognised, text) %s\n' % (argv, files, models.show(img), cands, n, outs)
        texts = []
        for res in two:
            rp2 = rp + 'exit %d\n%s\n%s' % (res.rc, res.out.decode('utf8', 'replace')[-3000:], res.err.decode('latin1')[-1500:])
            if tool_fault(chk, 'ocr2_extract_text', res, rp2):
                break
            m = re.search(rb' ## result: (.*)\nunrecognized_count: (\d+)\ncount: (\d+)\nunrecognized_rate: (\S+)\n$', res.out, re.S)
            if res.rc or not m:
                chk.violation('exit', 'recognition failed (exit %d) on a line of %d characters' % (res.rc, n), rp2)
                break
            text, miss, cnt, rate = m.group(1).decode('utf8', 'replace'), int(m.group(2)), int(m.group(3)), float(m.group(4))
            texts.append(text)
            bad = listed(res.out.decode('utf8', 'replace'), listing)
            if bad:
                chk.violation('listing', bad, rp2)
                break
            if cnt != n:
                chk.violation('count', '%d characters reported instead of %d' % (cnt, n), rp2)
                break
            if not abs(rate - (100. * miss / n if n else 0)) <= 1e-3 * max(1, rate):
                chk.violation('rate', 'rate %s for %d unrecognised of %d' % (rate, miss, n), rp2)
                break
            if outs is not None and (miss, text) not in outs:
                chk.violation('text', 'text %r (%d unrecognised) instead of %s' % (text, miss, outs), rp2)
                break
        else:
            if texts[0] != texts[1]:
                chk.violation('uninitialised', 'the text depends on uninitialised memory: %r, %r' % tuple(texts), rp)
        chk.eval(argv[3], n > 1)
        chk.count('characters', n)
        chk.count('candidate_lists_compared', sum(w is not None for _, w in listing))
        chk.count('texts_not_unique' if outs is None else 'texts_compared')
        if outs is not None and n > 1:
            chk.count('texts_with_space', ' ' in outs[0][1])
            chk.count('texts_with_unrecognised', outs[0][0] > 0)
            chk.sample(repr(outs[0]))
    chk.need(chk.counts.get('texts_compared', 0) > 150 or chk.violations, 'too few texts compared')
    return chk.finish()
