from ppv import *
from wordgen import *
import ocrmodel


WIDE = [chr(c) for c in list(range(0x21, 0x7f)) + list(range(0xc0, 0x250)) + list(range(0x400, 0x460)) + list(range(0x4e00, 0x4e40)) + list(range(0x1d400, 0x1d420))]


def main():
    chk = Check('C14', 'dictionaries of 0..60 words over one- to four-byte alphabets, and of up to 500 words with up to 260 letters behind one beginning; 1..9 positions of 0..5 candidates of one to four '
                'letters, mixing spellable and unspellable choices, with text already in the output; non-trivial = at least two positions')
    exe = build(probe_target('probe_dict'))['probe_dict']
    r = chk.rng
    lines, want = [], {}
    for _ in range(chk.scale(900, 90000)):
        ws, al = wordlist(r, empty=False)
        if _ % 6 == 5:                             # many letters that follow the same beginnings
            al = ''.join(r.sample(WIDE, r.choice([7, 8, 9, 10, 17, 33, 70, 130, 260])))
            stems = [word(r, al) for _ in range(r.choice([1, 2, 3]))] + ['']
            ws = r.sample([s + c for s in stems for c in al], r.choice([1, 1, 2]) * len(al)) + [s + c + word(r, al, 2) for s in stems for c in r.sample(al, 3)]
        probs = []
        for _ in range(12):
            pos = []
            if ws and r.random() < .75:           # split a word of the list into candidates, with decoys around
                w = r.choice(ws)
                p = 0
                while p < len(w):
                    k = r.choice([1, 1, 1, 2, 3, 4])
                    c = [w[p:p + k]]
                    p += k
                    for _ in range(r.choice([0, 0, 1, 2, 4])):
                        c.append(word(r, al, r.choice([1, 1, 1, 2, 3])))
                    if r.random() < .06:
                        c = c[1:]
                    r.shuffle(c)
                    pos.append(c)
            else:
                pos = [[word(r, al, r.choice([1, 1, 1, 2])) for _ in range(r.choice([0, 1, 1, 2, 3, 5]))] for _ in range(r.randint(0, 5))]
            if r.random() < .1 and pos:
                pos.insert(r.randrange(len(pos) + 1), [word(r, al, 1)])
            if r.random() < .2 and pos:
                c = r.choice(pos)
                if c:
                    c += [r.choice(c)[:1], r.choice(c) + word(r, al, 1)]
            probs.append((r.choice(['', '', 'x', 'é', 'déjà ', 'déjà ' * 40 if r.random() < .1 else 'y']), pos))
        if _ % 40 == 0:                            # many positions, many candidates, long candidates
            w = word(r, al, r.choice([16, 33, 64, 128, 130, 257, 300]))
            ws = ws + [w, w[:-1]]
            probs.append(('', [[c] + [x for x in {word(r, al, 1)} - {c}] for c in w]))
            probs.append(('x' * r.choice([1, 255, 256, 257, 70000]), [[c] for c in w[:-1]] + [[word(r, al, 2)]]))
            m = len(w) // 2
            probs.append(('', [[w[:m], word(r, al, m)], [w[m:-1], w[m:]]]))
            u = word(r, al, 3)
            ws = ws + [u]
            probs.append(('', [[word(r, al, 2) for _ in range(300)] + [u[0]], [u[1:]] + [word(r, al, 1) for _ in range(300)]]))
        line = 'amb %s %d %s' % (lst(ws), len(probs), ' '.join('%s %d %s' % (hx(a), len(p), ' '.join(lst(c) for c in p)) for a, p in probs))
        want[line] = (set(ws), probs)
        lines.append(line)

    def oracle(line, obs):
        ws, probs = want[line]
        for (pre, pos), o in zip(probs, obs):
            w = ocrmodel.spell(ws, pos) if ws else None
            e = '%d %s' % (w is not None, hx(pre + (w or '')))
            chk.count('solved' if w else 'unsolvable')
            chk.eval((line, str(pos)), len(pos) > 1)
            if w and sum(1 for _ in spellings(ws, pos, 3)) > 1:
                chk.count('several_words_fit')
            if o != e:
                chk.violation('result', 'candidates %s, dictionary %s, output before %r: expected %s' % (pos, sorted(ws)[:20], pre, (w is not None, pre + (w or ''))),
                              'case: %s\npositions %s\nwords %s\nexpected %s got %s' % (line, pos, sorted(ws), e, o))
                return
            if w and len(pos) > 1:
                chk.sample('%s -> %s' % (pos, w))
        if not ws and obs[len(probs):] != ['071']:
            chk.violation('empty', 'empty dictionary: %s' % obs[len(probs):], line)
    judge(chk, lines, run_cases_parallel(exe, lines), oracle, 'disambiguation')
    chk.need(chk.counts.get('solved', 0) > 500 or chk.violations, 'too few solvable problems')
    return chk.finish()


def spellings(ws, pos, limit):
    pre = {w[:k] for w in ws for k in range(len(w) + 1)}
    seen = set()

    def go(i, p):
        if i == len(pos):
            if p in ws and p not in seen:
                seen.add(p)
                yield p
            return
        for c in pos[i]:
            if p + c in pre:
                yield from go(i + 1, p + c)
    for k, w in enumerate(go(0, '')):
        yield w
        if k >= limit:
            return
