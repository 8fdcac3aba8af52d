from ppv import *
from tools import *
import models, gen, pnm


def main():
    chk = Check('C10', 'glyph collections (0..12 glyphs, 1x1 to 40x40, 0..4 labels each, multi-byte words, extreme line values) saved '
                'and loaded by the library, and their feature files written by the feature tool, loaded and saved by the library; '
                'stored feature tables of 0..8 arbitrary rows; non-trivial = at least one glyph or row')
    exe = build({**probe_target('probe_features'), **probe_target('probe_ocr'), **tool_target('write_datas')})
    r = chk.rng
    colls = [[]]
    for _ in range(chk.scale(220, 15000)):
        g = []
        for _ in range(r.choice([1, 1, 2, 3, 6, 12])):
            img = gen.image(r, *r.choice([(1, 1), (3, 3), (9, 9), (16, 16), (40, 40)]))
            g.append((img, tuple((r.choice(WORDS), r.choice(FONTS), r.choice([0xffffffff, 0, 1, 12, 4294967294]))
                                 for _ in range(r.choice([0, 1, 1, 1, 2, 4])))))
        colls.append(g)
    word = lambda: r.choice(['x' * 15, 'x' * 16, 'x' * 17, 'é' * 40, 'q' * 256, 'w' * 5000, 'a', 'b'])
    colls.append([(gen.image(r, 5, 5), ((r.choice(WORDS), r.choice(FONTS), 0xffffffff),)) for _ in range(600)])
    colls.append([(gen.image(r, 5, 5), tuple((word(), r.choice(FONTS), k) for k in range(n))) for n in (15, 16, 17, 300, 1, 0, 2)])
    for w, h in ((255, 3), (256, 2), (257, 2), (2, 300), (70000, 1), (1, 70000), (300, 300), (128, 128), (127, 129)):
        colls.append([(gen.noise(r, w, h, .5), ((word(), word(), 0xffffffff),)), (gen.image(r, 5, 5), (('a', 'f', 1),))])
    # -- the library's own loader and saver
    lines = ['lglyphs %s' % (''.join(glyph_text(*q) for q in g).encode().hex() or '_') for g in colls]
    which = dict(zip(lines, colls))

    def o1(line, obs):
        g = which[line]
        text = ''.join(glyph_text(*q) for q in g)
        e = ['n %d eof 1' % len(g)] + ['%d %d %s %d ' % (*i, len(v)) + ' '.join('%s/%s/%d' % (a.encode().hex(), b.encode().hex(), c) for a, b, c in v)
                                     for i, v in g] + [text.encode().hex() or '_', 'equal 1']
        obs = [l.rstrip() for l in obs]
        e = [l.rstrip() for l in e]
        chk.count('glyphs_round_tripped', len(g))
        if obs != e:
            d = next(i for i in range(max(len(obs), len(e))) if obs[i:i + 1] != e[i:i + 1])
            chk.violation('glyphs', 'glyph file of %d glyphs not preserved' % len(g), 'file:\n%s\nexpected %s\ngot %s' % (text, e[d:d + 1], obs[d:d + 1]))
        elif g:
            chk.sample(text[:150])
    judge(chk, lines, run_cases_parallel(exe['probe_ocr'], lines), o1, 'glyph file', nontrivial=lambda l: bool(which[l]))
    # -- feature files: written by the tool, loaded and saved by the library
    cmds = []
    for n, g in enumerate(colls):
        p = os.path.join(chk.scratch, 'g%d' % n)
        open(p, 'w').write(''.join(glyph_text(*q) for q in g))
        cmds.append(([exe['write_datas'], p], b'', None))
    tables = {}
    for g, (res,), c in zip(colls, run_many(cmds), cmds):
        feats = [models.features(i) for i, _ in g]
        exp = models.datas_text(feats)
        replay = 'glyph file:\n%s\nexpected:\n%s\nexit %d got:\n%s\n%s' % (open(c[0][1]).read(), exp, res.rc, res.out.decode('latin1'), res.err.decode('latin1')[-1000:])
        chk.eval(('w', exp), bool(g))
        chk.count('feature_files_written')
        if tool_fault(chk, 'write_datas', res, replay):
            continue
        if res.rc or res.out.decode('latin1') != exp:
            got = res.out.decode('latin1').split('\n')
            d = next((i for i, (a, b) in enumerate(zip(got, exp.split('\n'))) if a != b), '?')
            chk.violation('write_datas', 'feature file of %d glyphs differs at line %s' % (len(g), d), replay)
        tables['tab ' + exp.encode().hex()] = feats
    from C07 import random_row
    for _ in range(chk.scale(300, 18000)):
        rows = [random_row(r) for _ in range(r.choice([0, 1, 2, 4, 8]))]
        if rows and r.random() < .3:
            rows[0] = dict(rows[0], **{r.choice(models.SIMPLE): r.choice([4294967295, 1 << 31, 1000])})
        tables['tab ' + models.datas_text(rows).encode().hex()] = rows
    # more rows than 16 bits count
    rows = [random_row(r) for _ in range(6)]
    rows = [rows[r.randrange(6)] for _ in range(66500)]
    tables['tab ' + models.datas_text(rows).encode().hex()] = rows
    tl = list(tables)

    def o2(line, obs):
        rows = tables[line]
        e = ['eof 1 size %d' % len(rows)]
        order = [x for n in models.TWO for x in (n, n + '90')] + models.ONE
        for f in rows:
            e.append(''.join('%s=%s ' % (n, models.fmt_feature(n, f[n])) for n in order))
        e.append(line[4:])
        chk.count('feature_tables_round_tripped')
        chk.count('values_compared', len(rows) * len(order))
        if obs != e:
            d = next(i for i in range(max(len(obs), len(e))) if obs[i:i + 1] != e[i:i + 1])
            chk.violation('table', 'feature table of %d rows not preserved' % len(rows), 'table:\n%s\nexpected %s\ngot %s' % (
                bytes.fromhex(line[4:]).decode(), e[d:d + 1], obs[d:d + 1]))
    judge(chk, tl, run_cases_parallel(exe['probe_features'], tl), o2, 'feature table', nontrivial=lambda l: bool(tables[l]))
    return chk.finish()
