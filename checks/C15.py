from ppv import *
from dbgen import hexs

LETTERS = ['a', 'b', '!', 'é', '€', '\U0001d11e', '0', '/\\', 'Z']
ODD = [b'\xff', b'\x80\x81', b'\xc3', b'\x01', b'a\x7f']


def word(r):
    k = r.random()
    if k < .12:
        return b''.join(r.choice(ODD) for _ in range(r.randint(1, 3)))
    n = r.choice([1, 1, 1, 2, 3, 3, 4, 5, 7, 8, 9, 11, 12, 13, 16, 40])
    return ''.join(r.choice(LETTERS[:3] if r.random() < .6 else LETTERS) for _ in range(n)).encode()


def main():
    chk = Check('C15', 'recognition databases of 0..40 glyphs with 0..6 labels; words of 1..160 bytes (every length modulo four, prefixes of each '
                'other, any non-blank bytes) and fonts; look-ups of every word, its prefixes, extensions and neighbours; line '
                'info tables over known, unknown, prefix-related and over-long words; non-trivial = at least two distinct words')
    exe = build(probe_target('probe_ocr'))['probe_ocr']
    r = chk.rng
    lines, want = [], {}
    for _ in range(chk.scale(4000, 320000)):
        pool = [word(r) for _ in range(r.choice([1, 2, 4, 8, 16]))]
        for w in list(pool):
            if r.random() < .5:
                pool.append(w[:r.randint(1, len(w))])
            if r.random() < .4:
                pool.append(w + r.choice([b'a', b'!', b'aaaa', b'\xff']))
        fonts = [word(r) for _ in range(r.randint(1, 6))]
        fonts += [pool[0], fonts[0] + b'x']
        db = [[(r.choice(pool), r.choice(fonts)) for _ in range(r.choice([0, 1, 1, 1, 2, 3, 6]))] for _ in range(r.choice([0, 1, 2, 5, 12, 40]))]
        if _ % 200 == 7:          # more labels, words and fonts than 8 bits count
            many = [word(r)[:6] + b'%d' % k for k in range(330)]
            manyf = [b'F%d' % k for k in range(330)]
            pool += many[:3] + [many[0] + b'x' * 255, many[0] + b'x' * 256, many[0] + b'x' * 300, many[0] + b'x' * 5000]
            db += [[(w, r.choice(manyf)) for w in pool[-7:]], [(w, f) for w, f in zip(many, manyf)]]
            db += [[(r.choice(many), r.choice(manyf))] for k in range(300)]
        if _ % 100 == 9:          # long words, some the beginning of others
            a = b''.join(word(r) for _ in range(40)) * 3
            pool += [a[:k] for k in (31, 32, 33, 63, 64, 65, 100, 127, 128, 199, 200, 201, 250, 254, 255, 256, 257, 258, 300) if k < len(a)]
            db += [[(w, r.choice(fonts))] for w in r.sample(pool[-20:], min(len(pool), 20))]
        if _ == 11:               # more than 16 bits count, of words, of the room they take, and of fonts
            pool = [b'%d' % k for k in range(66000)]
            db += [[(w, b'F%d' % k) for k, w in enumerate(pool)]]
        t = b''.join(b'%d 1 %s\n%d\n' % (k % 7 + 1, b'x' * (k % 7 + 1), len(v)) + b''.join(b'%s %s %d\n' % (w, f, r.choice([4294967295, 0, 3])) for w, f in v)
                     for k, v in enumerate(db))
        infos = {}
        rows = []
        for w in dict.fromkeys(r.sample(pool, min(2000, r.randint(0, len(pool)))) + [word(r) for _ in range(r.randint(0, 3))]):
            i = tuple(r.randrange(8) for _ in range(4))
            rows.append(w + b' %d %d %d %d' % i)
            if len(w) <= 8:
                infos[w] = i
        it = b'\n'.join(rows) + (b'\n' if rows and r.random() < .8 else b'')
        pool = pool if len(pool) < 2000 else r.sample(pool, 500) + pool[-500:]
        q = list(pool) + [w + b'b' for w in pool] + [w[:-1] for w in pool if len(w) > 1] + [word(r) for _ in range(4)] + list(infos)
        q += [w + b'\0' for w in pool[:3]] + [w[:-1] + bytes([(w[-1] + 1) % 256]) for w in pool[:6]] + fonts
        q = list(dict.fromkeys(q))
        line = 'words %s %s %s' % (hexs(t), hexs(it), ' '.join(hexs(x) for x in q))
        want[line] = (db, infos, q)
        lines.append(line)

    def oracle(line, obs):
        db, infos, q = want[line]
        rp = 'case: %s\ndatabase: %s\ninfos: %s\nobservations: %s' % (line[:20000], db, infos, '\n'.join(obs)[:8000])
        if obs[:1] != ['n %d' % len(db)]:
            chk.violation('count', 'database of %d glyphs loaded as %r' % (len(db), obs[:1]), rp)
            return
        if len(obs) != 1 + len(db) + len(q):
            chk.violation('extra', 'unexpected observations: %s' % obs[-1:], rp)
            return
        ids, fids = {}, {}
        for v, o in zip(db, obs[1:]):
            got = [x.split('/') for x in o.split()]
            if [hexs(w) for w, _ in v] != [g[2] for g in got]:
                chk.violation('words', 'labels %s read back as %s' % (v, got), rp)
                return
            for (w, f), g in zip(v, got):
                chk.count('labels')
                if ids.setdefault(w, g[0]) != g[0]:
                    chk.violation('identity', 'word %r has two identities' % w, rp)
                if fids.setdefault(f, g[1]) != g[1]:
                    chk.violation('font', 'font %r has two identities' % f, rp)
        if len(set(ids.values())) != len(ids):
            chk.violation('identity', 'two words share an identity: %s' % ids, rp)
        if len(set(fids.values())) != len(fids):
            chk.violation('font', 'two fonts share an identity: %s' % fids, rp)
        for w, o in zip(q, obs[1 + len(db):]):
            e = 'no' if w not in ids else '%s %s' % (ids[w], hexs(w)) + (' %d%d%d%d' % infos[w] if w in infos else '')
            chk.count('lookups_present' if w in ids else 'lookups_absent')
            if w in ids and w in infos:
                chk.count('line_infos_applied')
            if o != e:
                chk.violation('lookup' if o.split()[:2] != e.split()[:2] else 'infos', 'word %r (%s): expected %r, got %r' % (w, 'present' if w in ids else 'absent', e, o), rp)
                return
        if len(ids) > 2:
            chk.sample('%d glyphs, words %s' % (len(db), sorted(ids)[:6]))
    judge(chk, lines, run_cases_parallel(exe, lines), oracle, 'recognition database', nontrivial=lambda l: len({w for v in want[l][0] for w, _ in v}) > 1)
    chk.need(chk.counts.get('line_infos_applied', 0) > 300 or chk.violations, 'too few line infos')
    return chk.finish()
