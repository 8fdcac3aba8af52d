from ppv import *
from dbgen import hexs
import gen, dbgen, models
from ocrmodel import groups, has_ties


def main():
    chk = Check('C17', 'every glyph of the shipped latin database recognised against that database, forwards, backwards and repeated; '
                'generated databases asked for sequences of stored and foreign bitmaps in several orders with one state, compared '
                'with a fresh state, and with their entries reordered; non-trivial = sequences of at least two bitmaps')
    exe = build(probe_target('probe_ocr'))['probe_ocr']
    rel = build(probe_target('probe_ocr'), 'rel')['probe_ocr']
    r = chk.rng
    path = os.path.join(REPO, 'resources/glyphs/normalized-glyphs-latin.txt')
    K = 8
    # the shipped database: a slice with sanitizers, everything at full speed
    # (a long list of feature values is computed once per glyph: the table is rebuilt from the bitmaps)
    own = ['own %s %d %d %d' % (path, m, k, chk.scale(K * 4, K)) for m in (0, 1, 2) for k in range(K)]
    full = ['own %s %d %d %d' % (path, m, k, K) for m in (0, 2) for k in range(K)]

    def o_own(line, obs):
        m = re.match(r'recognised (\d+) labels (\d+) bad (\d+) of (\d+)', obs[-1]) if obs else None
        if not m or int(m.group(4)) != len(dbgen.shipped()):
            chk.violation('own', 'shipped database not recognised: %s' % obs[:3], line)
            return
        chk.count('shipped_glyphs_recognised', int(m.group(1)))
        chk.count('shipped_candidates', int(m.group(2)))
        if int(m.group(3)):
            chk.violation('own', 'stored glyphs of the shipped database: %s' % obs[:4], line + '\n' + '\n'.join(obs))
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda a: run_cases(a[0], [a[1]], rss_mb=6000), [(exe, l) for l in own] + [(rel, l) for l in full]))
    judge(chk, own + full, [[c[0]] for c in res], o_own, 'shipped glyphs')

    # generated databases
    lines, want = [], {}

    def add(kind, ref, db, feats, qs):
        line = 'rec %s %s %d %s' % (hexs(dbgen.text(db)), hexs(models.datas_text(feats)), len(qs), ' '.join('%d %d %s' % q for q in qs))
        lines.append(line)
        want.setdefault(line, []).append((kind, ref, db, feats, qs))
    for n in range(chk.scale(130, 2500)):
        db = dbgen.real_db(r, r.choice([5, 40, 120])) if r.random() < .6 else dbgen.synth_db(r, r.choice([2, 6, 20, 50]))
        seen = {}
        for i, v in db:                       # as normalising leaves them: one entry per bitmap
            seen.setdefault(i, []).extend(v)
        db = [(i, sorted(set(v))) for i, v in seen.items()]
        feats = [dbgen.features(i) for i, _ in db]
        qs = [g[0] for g in r.sample(db, min(len(db), 6))]
        qs += [dbgen.flip(r, r.choice(db)[0], 2) for _ in range(2)] + [gen.image(r, 14, 14)]
        r.shuffle(qs)
        add('first', n, db, feats, qs)
        for q in qs:
            add('fresh', n, db, feats, [q])
        o2 = qs + qs[::-1] + [x for q in qs for x in (q, q)]
        add('history', n, db, feats, o2)
        o3 = list(qs) * 2
        r.shuffle(o3)
        add('history', n, db, feats, o3)
        if n % 40 == 0:
            add('history', n, db, feats, [r.choice(qs) for _ in range(400)])
        for _ in range(2):
            p = list(range(len(db)))
            r.shuffle(p)
            add('reordered', n, [db[i] for i in p], [feats[i] for i in p], qs)
    base, ties = {}, {}
    entries = []

    def collect(line, obs):
        for kind, ref, db, feats, qs in want[line]:
            names = dbgen.font_names(db, obs[:1])
            if names is None or len(obs) != len(qs) + 1:
                chk.violation('shape', 'unexpected observations %s' % obs[:2], line[:20000])
                return
            entries.append((kind, ref, db, feats, qs, [dbgen.parse(o, names) for o in obs[1:]], line))
    lines = list(dict.fromkeys(lines))
    judge(chk, lines, run_cases_parallel(exe, lines), collect, 'recognition', nontrivial=lambda l: any(len(x[4]) > 1 for x in want[l]))
    for kind, ref, db, feats, qs, got, line in entries:
        if kind == 'first':
            for q, g in zip(qs, got):
                base[ref, q] = g
    for kind, ref, db, feats, qs, got, line in entries:
        labels = {i: {w for w, _ in v} for i, v in db}
        for q, g in zip(qs, got):
            chk.count('requests_' + kind)
            rp = 'case: %s\nbitmap %s\ncandidates %s\nfirst request %s' % (line[:60000], q, g, base.get((ref, q)))
            if not labels.get(q, set()) <= {w for w, _ in g}:
                chk.violation('own', 'a stored bitmap labelled %s is recognised as %s' % (sorted(labels[q]), g[:8]), rp)
            if q in labels:
                chk.count('stored_bitmaps_recognised')
            b = base.get((ref, q))
            if b is None:
                continue
            if kind in ('fresh', 'history') and g != b:
                chk.violation('history', 'candidates depend on the requests before: %s, %s' % (g[:6], b[:6]), rp)
            if kind == 'reordered' and q in labels:
                if (ref, q) not in ties:
                    st, gs = groups(db, feats, dbgen.features(q))
                    ties[ref, q] = len(gs) > 1 and gs[0][0] - gs[1][0] < 1e-9 or not gs
                chk.count('ties' if ties[ref, q] else 'unique_best')
                if not ties[ref, q] and {w for w, _ in g} != {w for w, _ in b}:
                    chk.violation('order', 'candidates depend on the order of the database: %s, %s' % (g[:6], b[:6]), rp)
        chk.sample('%s: %d glyphs, %d requests, %s' % (kind, len(db), len(qs), [[w for w, _ in g][:4] for g in got[:4]]))
    chk.need(chk.counts.get('unique_best', 0) > 100 or chk.violations, 'too few reordered requests')
    return chk.finish()
