"""Recognition databases: shipped glyphs, synthetic ones, and tables built around a query."""
import os
import models, gen
from ppv import REPO

_shipped = None


def shipped():
    """[(image, [(word, font)])] of the shipped latin glyph file"""
    global _shipped
    if _shipped is None:
        _shipped = []
        t = open(os.path.join(REPO, 'resources/glyphs/normalized-glyphs-latin.txt'), encoding='utf8').read().split()
        p = 0
        while p < len(t):
            w, h, s, n = int(t[p]), int(t[p + 1]), t[p + 2], int(t[p + 3])
            p += 4
            _shipped.append(((w, h, s), [(t[p + 3 * k], t[p + 3 * k + 1]) for k in range(n)]))
            p += 3 * n
    return _shipped


_cache = {}


def features(img):
    if img not in _cache:
        _cache[img] = models.features(img)
    return _cache[img]


def text(db):
    return ''.join('%d %d %s\n%d\n' % (*img, len(v)) + ''.join('%s %s 4294967295\n' % x for x in v) for img, v in db)


def hexs(s):
    return (s if isinstance(s, bytes) else s.encode()).hex() or '_'


def flip(r, img, n):
    w, h, s = img
    s = list(s)
    for _ in range(n):
        k = r.randrange(len(s))
        s[k] = 'x' if s[k] == '-' else '-'
    return w, h, ''.join(s)


CONFUSED = ['oO0Qc', 'lI1i|', 'mnrn', 'S58s', 'B8ER', 'uvVU', 'aeo', 'ZzZ2', 'gq9', 'CGc', 'éèêe', "'`,.", 'xX%', 'fti', 'wWvV']


def real_db(r, size):
    """shipped glyphs of a few confusable words"""
    ws = set()
    for _ in range(r.randint(1, 4)):
        ws |= set(r.choice(CONFUSED))
    pool = [g for g in shipped() if any(w in ws for w, _ in g[1])]
    db = r.sample(pool, min(size, len(pool)))
    return [(i, list(v)) for i, v in db]


def synth_db(r, size):
    """families of pictures differing in a few pixels, with words and fonts shared between them"""
    db = []
    words = r.choice([['a', 'b'], ['a', 'b', 'c', 'ab'], ['é', 'e', 'è', 'l', '1'], ['x']])
    while len(db) < size:
        base = gen.image(r, *r.choice([(8, 8), (14, 14), (20, 20)]))
        for _ in range(r.randint(1, 6)):
            img = flip(r, base, r.choice([0, 1, 1, 2, 4]))
            v = sorted({(r.choice(words), 'f%d' % r.randrange(4)) for _ in range(r.choice([1, 1, 1, 2, 3]))})
            db.append((img, v))
    return db[:size]


def font_names(db, obs):
    """identity -> font of the labels of the database, from the probe's first line; None when inconsistent"""
    if not obs or not obs[0].startswith('fonts'):
        return None
    ids = obs[0].split()[1:]
    fs = [f for _, v in db for _, f in v]
    if len(ids) != len(fs):
        return None
    d = dict(zip(ids, fs))
    return d if all(d[i] == f for i, f in zip(ids, fs)) and len(set(d.values())) == len(d) else None


def parse(o, names):
    """a printed candidate list -> [(word, font)]"""
    return [(bytes.fromhex(x.split('/')[0]).decode('utf8', 'replace'), names.get(x.split('/')[1], '?')) for x in o.split()[1:]]
