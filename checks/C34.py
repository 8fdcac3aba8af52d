from ppv import *

EDGES = [1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff, 0xfffd, 0xfeff, 0xa0, 0x3f, 0xc0, 0xff]

MARKS = [0xfe0f, 0xfe0e, 0x200d, 0x200b, 0x301, 0x1f3fd, 0xe0101, 0x1f1eb, 0xfeff, 0x20e3, 0xfffe, 0x2028]


def char(r):
    k = r.random()
    if k < .3:
        return r.choice(EDGES if k < .2 else MARKS)
    while 1:
        c = r.choice([lambda: r.randint(1, 127), lambda: r.randint(0x80, 0x7ff), lambda: r.randint(0x800, 0xffff), lambda: r.randint(0x10000, 0x10ffff)])()
        if not 0xd800 <= c < 0xe000:
            return c


def model(cs):
    """what the two iterators visit: code points, and bytes packed into one number"""
    a, b, at = '', '', 0
    for c in cs:
        u = chr(c).encode()
        at += len(u)
        a += '%d@%d ' % (c, at)
        b += '%d@%d ' % (int.from_bytes(u, 'big'), at)
    e = 'end@%d' % (at + 1)
    return [a + e, b + e, '%d %d' % (int.from_bytes(chr(cs[0]).encode(), 'big') if cs else 0, cs[0] if cs else 0)]


def main():
    chk = Check('C34', 'texts of 0..4000 characters of one to four bytes (every character once, every pair of lengths, edges of each length), and byte '
                'sequences that are no text (cut characters, stray and forbidden bytes, every pair of bytes); non-trivial = at least two characters')
    exe = build(probe_target('probe_containers'))['probe_containers']
    r = chk.rng
    want, lines = {}, []

    def add(b, cs=None):
        l = 'utf ' + (b.hex() or '_')
        if l not in want:
            lines.append(l)
        want[l] = (b, cs)

    def text(cs):
        add(''.join(map(chr, cs)).encode(), cs)
    text([])
    for c in EDGES:
        text([c])
        for d in EDGES:
            text([c, d])
    every = [c for c in range(1, 0x110000) if not 0xd800 <= c < 0xe000]
    step = 4000
    chk.count('distinct_characters', len(every))
    for k in range(0, len(every), step):
        text(every[k:k + step])
    # characters that others treat as a part of the one before or after them
    for m in MARKS:
        some = every[r.randrange(24)::chk.scale(24, 2)]
        for k in range(0, len(some), step):
            text([x for c in some[k:k + step] for x in (c, m)])
    for _ in range(chk.scale(1500, 150000)):
        text([char(r) for _ in range(r.choice([1, 2, 3, 4, 7, 15, 16, 17, 60, 300]))])
    for n in (255, 256, 257, 65535, 65536, 70000):
        text([char(r) for _ in range(n)])
    # no text: must end, inside
    for a in range(1, 256):
        add(bytes([a]))
        for b in ((1, 0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xc3, 0xdf, 0xe0, 0xef, 0xf0, 0xf4, 0xf8, 0xff) if not chk.thorough else range(1, 256)):
            add(bytes([a, b]))
    for _ in range(chk.scale(4000, 300000)):
        b = ''.join(chr(char(r)) for _ in range(r.randint(1, 6))).encode()
        k = r.random()
        if k < .4:
            b = b[:r.randint(1, len(b))]
        elif k < .8:
            i = r.randrange(len(b))
            b = b[:i] + bytes([r.choice([r.randint(1, 255), r.randint(0x80, 255)])]) + b[i + 1:]
        else:
            b = bytes(r.randint(1, 255) for _ in range(r.randint(1, 9)))
        try:
            add(b, [ord(c) for c in b.decode()])
        except UnicodeDecodeError:
            add(b)

    def oracle(line, obs):
        b, cs = want[line]
        rp = '%s\n%s\ngot %s' % (b[:2000], line[:4000], '\n'.join(obs)[:8000])
        if len(obs) != 3 or any('?' in o for o in obs):
            chk.violation('end', 'the iterators do not stop at the end of %r' % b[:40], rp)
            return
        if cs is None:
            chk.count('sequences_that_are_no_text')
            for o in obs[:2]:
                at = [int(t.split('@')[1]) for t in o.split()]
                if any(x >= y for x, y in zip(at, at[1:])) or at[-1] > len(b) + 1:
                    chk.violation('place', 'the iterators leave %r or stand still in it' % b[:40], rp)
            return
        chk.count('texts')
        chk.count('characters', len(cs))
        e = model(cs)
        for k, what in enumerate(('code points', 'packed characters', 'first character')):
            if obs[k] != e[k]:
                g, w = obs[k].split(), e[k].split()
                d = next((i for i in range(min(len(g), len(w))) if g[i] != w[i]), min(len(g), len(w)))
                chk.violation(what.replace(' ', '-'), '%s of a text of %d characters: character %d is %s, expected %s' % (what, len(cs), d, g[d:d + 1], w[d:d + 1]), rp)
                return
        if 1 < len(cs) < 8:
            chk.sample('%s: %s' % (b.hex(), obs[:2]))
    judge(chk, lines, run_cases_parallel(exe, lines), oracle, 'text', nontrivial=lambda l: len(want[l][1] or want[l][0]) > 1)
    chk.need(chk.counts.get('characters', 0) > 1000000 or chk.violations, 'too few characters')
    return chk.finish()
