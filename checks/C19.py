from ppv import *
from dbgen import hexs
from C18 import line_db, cand_lists, fmt, resolve
import dbgen, ocrmodel


def main():
    chk = Check('C19', 'lines of 0..12 characters with 0..8 candidate labels each over 1..6 fonts, unanimous, dominated, tied and scattered '
                'votes; non-trivial = at least one ambiguous and one unambiguous character')
    exe = build(probe_target('probe_ocr'))['probe_ocr']
    r = chk.rng
    lines, want = [], {}
    for _ in range(chk.scale(9000, 480000)):
        nf = r.choice([1, 2, 2, 3, 6]) if _ % 100 else r.choice([17, 130, 300])
        db = [((1, 1, 'x'), [(r.choice('abcé'), 'f%d' % r.randrange(nf)) for _ in range(r.choice([1, 2, 3]))]) for _ in range(r.choice([1, 4, 12]) if nf < 10 else nf * 2)]
        c = cand_lists(r, db, r.choice([0, 1, 2, 3, 4, 5, 6, 8, 9, 12]) if _ % 50 else r.choice([65, 128, 255, 256, 257, 301, 600]))
        if _ % 300 == 120:       # counts that wrap
            labels = [(g, k) for g, (x, v) in enumerate(db) for k in range(len(v))]
            one, other = r.choice(labels), r.choice(labels)
            m = r.choice([256, 512]) if _ % 20000 != 120 else 65536
            c = [[one]] * (m + r.randint(0, 6)) + [[other]] * r.randint(1, 40) + cand_lists(r, db, 8)
            r.shuffle(c)
        if r.random() < .5:      # mostly unambiguous
            c = [l[:1] if r.random() < .5 else l for l in c]
        line = 'font %s %s' % (hexs(dbgen.text(db)), fmt(c))
        want[line] = (db, resolve(db, c))
        lines.append(line)

    def oracle(line, obs):
        db, c = want[line]
        names = dbgen.font_names(db, obs[:1])
        if names is None or len(obs) != len(c) + 2:
            chk.violation('shape', 'unexpected observations %s' % obs[:2], line)
            return
        font = None if obs[1] == '4294967295' else names.get(obs[1], '?')
        got = [dbgen.parse(o, names) for o in obs[2:]]
        ef, e = ocrmodel.filter_font(c, font)
        chk.count('characters', len(c))
        chk.count('resolved', sum(1 for a, b in zip(c, e) if a != b))
        chk.count('no_vote' if ef is None else 'lines_filtered' if e != c else 'lines_unchanged')
        rp = 'case: %s\nbefore %s\nexpected font %s %s\ngot font %s %s' % (line, c, ef, e, font, got)
        if font != ef:
            chk.violation('font', 'reported font %s instead of %s for %s' % (font, ef, c[:8]), rp)
        elif got != e:
            k = next(i for i in range(len(c)) if got[i] != e[i])
            chk.violation('filter', 'font %s: character %d of %d with %s becomes %s instead of %s' % (font, k, len(c), c[k], got[k], e[k]), rp)
        elif e != c:
            chk.sample('%s -> %s' % (c[:5], got[:5]))
    judge(chk, lines, run_cases_parallel(exe, lines), oracle, 'font filter',
          nontrivial=lambda l: any(len(x) == 1 for x in want[l][1]) and any(len(x) > 1 for x in want[l][1]))
    chk.need(chk.counts.get('resolved', 0) > 1000 or chk.violations, 'too few characters resolved')
    return chk.finish()
