"""Reference model of recognition. A database is a list of (image, [(word, font), ...]) with words and
fonts as text; a candidate list is a list of (word, font)."""
import models

EPS = 1e-9


def universe(feats, q):
    return [i for i, f in enumerate(feats)
            if all(abs(f[n] - q[n]) <= models.RANGE[n] // 10 for n in models.SIMPLE)]


def groups(db, feats, q):
    """-> (stage, [(score, words, set of font tuples of the best scoring glyphs)]): the groups the
    candidate list is made of, before the cut at half of the best score."""
    score = {}
    for i in universe(feats, q):
        p = 1.
        for n in models.SIMPLE:
            p *= models.similarity(n, feats[i][n], q[n]) / 100.
        score[i] = p
    if not score:
        return 'none', []
    perfect = {i: p for i, p in score.items() if p >= 1.}
    if perfect:
        return 'perfect', _group(db, perfect)
    for n in ('hbar', 'hbar90', 'alternations'):
        for i in list(score):
            s = models.similarity(n, feats[i][n], q[n])
            if s < 50:
                del score[i]
            else:
                score[i] *= s / 100.
    for i in list(score):
        if not db[i][1]:
            continue
        first = db[i][1][0][0]
        others = [j for j in range(len(db)) if j != i and db[j][1] and db[j][1][0][0] == first]
        if others and not any(models.similarity('zone', feats[j]['zone'], q['zone']) >= 50 and
                              models.similarity('proportionality_zone', feats[j]['proportionality_zone'],
                                                q['proportionality_zone']) >= 50 for j in others):
            del score[i]
    return 'refined', _group(db, score)


def _group(db, score):
    g = {}
    for i, p in score.items():
        g.setdefault(tuple(w for w, _ in db[i][1]), []).append((p, tuple(f for _, f in db[i][1])))
    out = []
    for words, l in g.items():
        best = max(p for p, _ in l)
        out.append((best, words, {f for p, f in l if p >= best - EPS}))
    out.sort(key=lambda t: -t[0])
    return out


def explain(stage, gs, got):
    """None when the candidate list `got` is one the groups allow, else a reason."""
    if not gs:
        return None if not got else 'candidates although none fits'
    lim = gs[0][0] * .5
    must = [g for g in gs if stage == 'perfect' or g[0] >= lim + EPS]
    may = [g for g in gs if stage != 'perfect' and lim - EPS <= g[0] < lim + EPS]
    got = list(got)

    def walk(pos, left):
        if not left:
            rest = got[pos:]
            if not rest:
                return True
            return any(tuple(w for w, _ in rest) == g[1] for g in may) or walk2(pos)
        top = max(g[0] for g in left)
        for k, g in enumerate(left):
            if g[0] < top - EPS:
                continue
            n = len(g[1])
            part = got[pos:pos + n]
            if tuple(w for w, _ in part) == g[1] and (not n or tuple(f for _, f in part) in g[2]):
                if walk(pos + n, left[:k] + left[k + 1:]):
                    return True
        return False

    def walk2(pos):
        words = sorted(w for w, _ in got[pos:])
        return bool(may) and words == sorted(w for g in may for w in g[1])
    if walk(0, must):
        return None
    have = [w for w, _ in got]
    want = [w for g in must for w in g[1]]
    if sorted(have) == sorted(want):
        return 'order or fonts of the candidates differ'
    miss = [w for w in want if w not in have]
    extra = [w for w in have if w not in want]
    return 'missing %r, extra %r' % (miss[:5], extra[:5])


def has_ties(stage, gs):
    """the candidate list is not unique"""
    lim = gs[0][0] * .5 if gs else 0
    s = [g for g in gs if g[0] >= lim - EPS]
    return any(abs(a[0] - b[0]) < EPS for a, b in zip(s, s[1:])) or any(len(g[2]) > 1 for g in s) or \
        any(abs(g[0] - lim) < EPS for g in s)


def candidates(stage, gs):
    """the candidate list when it is unique"""
    lim = gs[0][0] * .5 if gs else 0
    out = []
    for p, words, fonts in gs:
        if stage == 'perfect' or p >= lim:
            out += list(zip(words, next(iter(fonts))))
    return out


# ------------------------------------------------------------------ text line filter
UPPER, BELOW, ABOVE = 1, 2, 4


def contradicts(flag, y, line):
    if flag == UPPER:              # above the line, by two pixels at least
        return y + 1 >= line
    if flag == BELOW:              # on the line, to one pixel
        return abs(y - line) > 1
    if flag == ABOVE:              # under the line, by two pixels at least
        return y <= line + 1
    if flag == UPPER | BELOW:
        return y + 1 > line
    if flag == BELOW | ABOVE:
        return y < line + 1
    return False


def most_frequent(ys):
    return min(set(ys), key=lambda y: (-ys.count(y), y))


def filter_lines(cands, infos, boxes, strict=False):
    """infos: {word: (ascent, cap, mean, base)}; boxes: [(x, y, w, h)] -> new lists.
    strict: a word listed twice, not in a row, does not count as a single one for the election"""
    if not boxes:
        return [list(c) for c in cands]
    base = most_frequent([y + h - 1 for _, y, _, h in boxes])

    def cut(c, pos, which, line):
        if len({w for w, _ in c}) < 2:
            return list(c)
        return [v for v in c if not (v[0] in infos and contradicts(infos[v[0]][which], pos, line))]
    out = [cut(c, b[1] + b[3] - 1, 3, base) for c, b in zip(cands, boxes)]
    tops = []
    for c, b, before in zip(out, boxes, cands):
        ws = {w for w, _ in c}
        if strict and c and sum(1 for k, v in enumerate(before) if v[0] in ws and (not k or before[k - 1][0] != v[0])) != 1:
            continue
        if len(ws) == 1:
            i = infos.get(next(iter(ws)))
            if i and i[3] == BELOW and i[2] == BELOW:
                tops.append(b[1])
    if tops:
        mean = most_frequent(tops)
        out = [cut(c, b[1], 2, mean) for c, b in zip(out, boxes)]
    return out


# ------------------------------------------------------------------ font filter
def filter_font(cands, font=None):
    """-> (font or None, new lists); the font given wins a tie"""
    votes = {}
    for c in cands:
        if len(c) == 1:
            votes[c[0][1]] = votes.get(c[0][1], 0) + 1
    if not votes:
        return None, [list(c) for c in cands]
    top = [f for f in votes if votes[f] == max(votes.values())]
    font = font if font in top else top[0]
    if len(votes) > 1 and votes[font] < len(cands) // 2:
        return font, [list(c) for c in cands]
    return font, [list(c) if len(c) < 2 else [next((v for v in c if v[1] == font), c[0])] for c in cands]


# ------------------------------------------------------------------ text assembly
PUNCT = set("!#$%&'()*+,-.:;<=>?[]{}")


def spell(words, positions):
    """first combination in preference order that spells a word, or None"""
    prefixes = {w[:k] for w in words for k in range(len(w) + 1)}
    failed = set()

    def go(i, pre):
        if i == len(positions):
            return pre if pre in words else None
        if (i, pre) in failed:
            return None
        for c in dict.fromkeys(positions[i]):
            if pre + c in prefixes:
                r = go(i + 1, pre + c)
                if r is not None:
                    return r
        failed.add((i, pre))
        return None
    return go(0, '') if positions else None


def search_size(words, positions, distinct=True):
    """combinations a search without memory could visit: prefixes of words spelled by prefixes of the positions, each way counted"""
    prefixes = {w[:k] for w in words for k in range(len(w) + 1)}
    now, total = {'': 1}, 1
    for cs in positions:
        nxt = {}
        for pre, n in now.items():
            for c in (dict.fromkeys(cs) if distinct else cs):
                if pre + c in prefixes:
                    nxt[pre + c] = nxt.get(pre + c, 0) + n
        now = nxt
        total += sum(now.values())
    return total


def assemble(cands, words, spaces):
    """spaces: ranks of the characters preceded by a space (0 ignored) -> (count, text)"""
    out, run, miss = [], [], 0
    words = set(words) - {''}

    def flush():
        if run:
            w = spell(words, [[v[0] for v in c] for c in run])
            out.append(w if w is not None else ''.join(c[0][0] for c in run))
            run.clear()
    for k, c in enumerate(cands):
        if k and k in spaces:
            flush()
            out.append(' ')
        if not c:
            flush()
            out.append('?')
            miss += 1
        elif c[0][0] in PUNCT:
            flush()
            out.append(c[0][0])
        else:
            run.append(c)
    flush()
    return miss, ''.join(out)
