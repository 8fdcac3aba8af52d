from ppv import *
from dbgen import hexs
from wordgen import word, hx, lst
from C18 import fmt, resolve
import dbgen, ocrmodel


def main():
    chk = Check('C20', 'lines of 0..14 characters: words of the dictionary spelled by ambiguous candidates, other letters, every punctuation '
                'character, unrecognised characters at any place including both ends; spaces anywhere including before the first '
                'character; dictionaries of 0..12 words; old text in the result; non-trivial = at least two characters')
    exe = build(probe_target('probe_ocr'))['probe_ocr']
    r = chk.rng
    punct = sorted(ocrmodel.PUNCT)
    others = ['"', '/', '@', '\\', '^', '_', '|', '~', '0', 'A', '!!', '..', '€', '’', "'a", '...', '-é', '(a)', '$$$$']
    lines, want = [], {}
    for _ in range(chk.scale(7000, 720000)):
        al = r.choice(['ab', 'aé', 'abc', 'lI1', 'жш', 'aé€\U0001d11e', "ab-'", "'-é."])
        words = list(dict.fromkeys(word(r, al, r.choice([1, 2, 2, 3, 4, 5])) for _ in range(r.choice([0, 1, 3, 12]))))
        db, c = [], []

        def glyph(ws):
            db.append(((1, 1, 'x'), [(w, 'f') for w in ws]))
            c.append([(len(db) - 1, k) for k in range(len(ws))])
        spaces = []
        n = r.choice([0, 1, 2, 3, 5, 8, 14]) if _ % 120 else r.choice([65, 130, 257, 300, 700])
        if _ % 400 == 170:       # counts that wrap
            c += [[]] * (r.choice([254, 255, 256, 257, 300, 520]) if _ % 20000 != 170 else 65537)
            n += len(c)
        if n > 14:
            words += [word(r, al, r.choice([17, 40, 65]))]
        while len(c) < n:
            k = r.random()
            if len(c) and r.random() < .25 or not c and r.random() < .15:
                spaces.append(len(c))
            if k < .15:
                c.append([])
            elif k < .3:
                glyph([r.choice(punct)] + ([r.choice(al)] if r.random() < .3 else []))
            elif k < .4:
                glyph([r.choice(al), r.choice(punct)])
            elif k < .5:
                glyph([r.choice(others)])
            elif k < .85 and words:
                w = r.choice(words)
                p = 0
                while p < len(w):
                    m = r.choice([1, 1, 1, 1, 2, 2, 3, 4])
                    l = [w[p:p + m]] + [word(r, al, r.choice([1, 1, 2])) for _ in range(r.choice([0, 1, 2]))]
                    if r.random() < .5:
                        r.shuffle(l)
                    if r.random() < .1:
                        l.insert(0, r.choice(punct))
                    if r.random() < .2:
                        l.insert(r.randrange(len(l)), l[-1])
                    glyph(l)
                    p += m
                    if r.random() < .07:
                        spaces.append(len(c))
            else:
                glyph([word(r, al, 1) for _ in range(r.choice([1, 2, 3]))])
        spaces = sorted({s for s in spaces if s < len(c)})
        pre = r.choice(['', 'old', 'é ?'])
        line = 'text %s %s %s %s %d %s' % (hexs(dbgen.text(db)), fmt(c), hx(pre), lst(words), len(spaces) + 1, ' '.join(map(str, spaces + [len(c)])))
        want[line] = (resolve(db, c), words, spaces)
        lines.append(line)

    def oracle(line, obs):
        c, words, spaces = want[line]
        n, t = ocrmodel.assemble(c, words, set(spaces))
        got = obs[0].split() if obs else []
        chk.count('characters', len(c))
        chk.count('unrecognised', n)
        chk.count('spaces', len([s for s in spaces if s]))
        if t != ocrmodel.assemble(c, [], set(spaces))[1]:
            chk.count('texts_decided_by_the_dictionary')
        rp = 'case: %s\ncandidates %s\ndictionary %s\nspaces %s\nexpected %d %r\ngot %s %r' % (
            line, c, words, spaces, n, t, got[:1], bytes.fromhex(got[1].replace('_', '')) if len(got) > 1 and not got[0] == 'exc' else got)
        if not obs or len(got) != 2 or got[1] != hx(t):
            chk.violation('text', 'characters %s, words %s, spaces %s: expected %r' % ([[w for w, _ in x] for x in c], words, spaces, t), rp)
        elif got[0] != str(n):
            chk.violation('count', '%s unrecognised reported instead of %d' % (got[0], n), rp)
        elif len(t) > 3:
            chk.sample('%r' % t)
    judge(chk, lines, run_cases_parallel(exe, lines), oracle, 'text assembly', nontrivial=lambda l: len(want[l][0]) > 1)
    chk.need(chk.counts.get('texts_decided_by_the_dictionary', 0) > 300 or chk.violations, 'dictionary hardly used')
    return chk.finish()
