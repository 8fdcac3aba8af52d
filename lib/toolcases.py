"""Valid runs of every command line tool, for the checks that disturb them."""
import os
from tools import pnm_of, WORDS
from wordgen import wordlist
from C22 import compose
import models, gen, dbgen

NAMES = ['write_glyphs', 'show_glyphs', 'normalize_glyphs', 'write_datas', 'make_trie_dictionary', 'ocr2_extract_text']


class Case:
    """tool, argv, and the positions in argv of its input files"""
    def __init__(self, tool, argv, files):
        self.tool, self.argv, self.files = tool, argv, files


def image_of(r, size):
    while True:
        img = gen.text_line(r, [40, 1200, 3000][size], 12, [3, 150, 500][size])
        if len(models.boxes(img)) >= 2:
            return img


def distinct(db):
    seen = {}
    for i, v in db:
        seen.setdefault(i, []).extend(v)
    return [(i, sorted(set(v))) for i, v in seen.items()]


def make(r, d, size, trie=None):
    """cases of one of three sizes (0: some bytes, 1: some blocks, 2: large) with their files in the directory d;
    trie: function that builds a dictionary file from a word file"""
    os.makedirs(d)

    def put(name, b):
        p = os.path.join(d, name)
        open(p, 'wb').write(b if isinstance(b, bytes) else b.encode())
        return p
    img = image_of(r, size)
    db = distinct([dbgen.synth_db(r, 3), dbgen.real_db(r, 120), dbgen.synth_db(r, 40)][size])
    ws = [['a', 'bc'], wordlist(r)[0] + ['x' * 900], [''.join(r.choice('abcdefgh') for _ in range(7)) for _ in range(3000)]][size]
    kind = r.choice('146')
    i, t = put('i', pnm_of(img, kind, r)), put('t', ' '.join(r.choice(WORDS) for _ in models.boxes(img)) + r.choice(['', '\n']))
    bi, bt = put('bi', pnm_of((9, 4, '-' * 36), kind, r)), put('bt', ' \n')         # a blank picture
    g, f = put('g', dbgen.text(db)), put('f', models.datas_text([dbgen.features(q) for q, _ in db]))
    g2 = put('g2', dbgen.text(db[::-2]))
    w = put('w', '\n'.join(ws) + r.choice(['', '\n']))
    w2 = put('w2', 'zz\nzy\n')
    l = put('l', ''.join('%s %d %d %d %d\n' % ((x,) + tuple(r.choice([2, 4, 8, 16]) for _ in range(4))) for x in sorted({x for _, v in db for x, _ in v})[:40]))
    # recognition: pictures of stored bitmaps, each with labels that line, font and dictionary tell apart, and some
    # stored twice with other labels (the same score)
    ocr = []
    for n, (q, v) in enumerate(r.sample(db, min(len(db), [3, 12, 40][size]))):
        ocr.append((q, [('%s%d' % (c, n), 'f%d' % r.randrange(3)) for c in sorted(r.sample('abcde', r.randint(1, 4)))]))
        if r.random() < .5:
            ocr.append((q, [('%s%d' % (c, n), 'g%d' % r.randrange(3)) for c in sorted(r.sample('vwxyz', r.randint(1, 4)))]))
    r.shuffle(ocr)
    og, of = put('og', dbgen.text(ocr)), put('of', models.datas_text([dbgen.features(q) for q, _ in ocr]))
    oi = put('oi', pnm_of(compose(r, ocr, [4, 15, 60][size]), kind, r))
    ow = sorted({x for _, v in ocr for x, _ in v})
    ol = put('ol', ''.join('%s %d %d %d %d\n' % (x, r.choice([1, 2, 4]), r.choice([1, 2, 4]), r.choice([1, 2, 2, 4]), r.choice([1, 2, 2, 4])) for x in ow if r.random() < .8))
    od = put('od', ''.join('%s%s\n' % (r.choice(ow), r.choice(ow)) for _ in range(30)))
    cs = [Case('write_glyphs', [i, t, 'f'], [0, 1]), Case('write_glyphs', [i, t, 'f', i, t, 'g'], [0, 1]), Case('write_glyphs', [bi, bt, 'f'], [0, 1]),
          Case('show_glyphs', [i], [0]), Case('normalize_glyphs', [g], [0]), Case('normalize_glyphs', [g2, g], [0, 1]),
          Case('write_datas', [g], [0]), Case('make_trie_dictionary', [w], [0]), Case('make_trie_dictionary', [w2, w], [0, 1]),
          Case('ocr2_extract_text', [og, of, oi, ol], [0, 1, 2, 3])]
    if trie:
        cs += [Case('ocr2_extract_text', [g, f, i, l, put('dict', trie(w))], [0, 1, 2, 3, 4]),
               Case('ocr2_extract_text', [og, of, oi, ol, put('odict', trie(od))], [0, 1, 2, 3, 4])]
    return cs
