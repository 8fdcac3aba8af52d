from ppv import *
import bisect

sys.setrecursionlimit(20000)
TYPES = {'char': (1, 127), 'uchar': (0, 255), 'schar': (-128, 127), 'short': (-32768, 32767), 'char16': (0, 65535),
         'int': (-2 ** 31, 2 ** 31 - 1), 'unsigned': (0, 2 ** 32 - 1)}


def model(seqs, qs):
    root = [False, {}]
    for s in seqs:
        n = root
        for c in s:
            n = n[1].setdefault(c, [False, {}])
        n[0] = True
    out, count = [], 0

    def walk(n, depth):
        nonlocal count
        ks = sorted(n[1])
        out.append('[%d%s%s]' % (len(ks), '' if ks else 'e', ''.join(' %d' % bisect.bisect_left(ks, q) for q in qs)))
        for k in ks:
            c = n[1][k]
            count += 1
            out.append(' %d:%d%s%d%s' % (depth, k, '!' if c[0] else '.', len(c[1]), '' if c[1] else 'e'))
            walk(c, depth + 1)
    walk(root, 0)
    return ''.join(out), count


def put(seqs, t):
    return '%d %s' % (len(seqs), ' '.join('h' + bytes(s).hex() if t in ('char', 'uchar') else ','.join(map(str, s)) for s in seqs))


def sequences(r, lo, hi):
    k = r.random()
    if k < .5:
        al = sorted({r.randint(lo, hi) for _ in range(r.choice([1, 2, 3, 5]))})
    elif k < .7:
        al = [x for x in (lo, lo + 1, lo + 2, -1, 0, 1, hi - 1, hi) if lo <= x <= hi]
    else:
        a = r.randint(lo, hi)
        al = [x for x in range(a, a + 30) if x <= hi]
    out = []
    for _ in range(r.choice([0, 1, 2, 3, 5, 8, 20, 60, 200])):
        k = r.random()
        if k < .5 or not out:
            w = [r.choice(al) for _ in range(r.choice([1, 1, 2, 3, 5, 9]))]
        elif k < .65:
            w = list(r.choice(out))
            w = w[:r.randint(1, len(w))]
        elif k < .85:
            w = list(r.choice(out)) + [r.choice(al) for _ in range(r.randint(1, 3))]
        else:
            w = list(r.choice(out))
            w[r.randrange(len(w))] = r.choice(al)
        out.append(tuple(w))
    return al, out


def main():
    chk = Check('C33', 'sorted lists of 0..200 distinct sequences (and of tens of thousands) over seven element types, with prefixes of each other, '
                'extreme values, long and wide ones; orders of 0..1000 positions over several kinds of elements and indexes; '
                'non-trivial = at least two elements')
    exe = build(probe_target('probe_containers'))['probe_containers']
    r = chk.rng
    lines, want = [], {}

    def add(t, seqs, al):
        lo, hi = TYPES[t]
        seqs = sorted(set(seqs))
        qs = sorted({q for a in r.sample(al, min(4, len(al))) for q in (a - 1, a, a + 1) if lo <= q <= hi} | {lo, hi})
        if t in ('char', 'uchar'):
            qs = [q for q in qs if q > 0 or t == 'uchar']
        line = 'trie-%s %s 1 %s' % (t, put(seqs, t), 'h' + bytes(qs).hex() if t in ('char', 'uchar') else ','.join(map(str, qs)))
        want[line] = (t, seqs, qs)
        lines.append(line)
    for _ in range(chk.scale(1800, 120000)):
        t = r.choice(list(TYPES))
        al, s = sequences(r, *TYPES[t])
        add(t, s, al)
    for t in TYPES:
        lo, hi = TYPES[t]
        add(t, [], [1])
        # wide: as many children as 8, 15 or 16 bits count; deep: as long as 8 bits and more count
        for n in (127, 128, 129, 255, 256, 257, 1000) + ((33000, 66000) if t in ('unsigned', 'char16') else ()):
            n = min(n, hi - lo + 1)
            a = r.choice([lo, hi - n + 1, max(lo, min(0, hi - n + 1))])
            al = list(range(a, a + n))
            pre = tuple(r.choice(al) for _ in range(r.choice([0, 1, 2])))
            add(t, [pre + (c,) for c in al] + [pre + (c, r.choice(al)) for c in r.sample(al, min(n, 7))], r.sample(al, min(n, 3)))
        for n in (127, 128, 255, 256, 257, 1000):
            al = [r.randint(lo, hi) for _ in range(2)]
            w = tuple(r.choice(al) for _ in range(n))
            add(t, [w, w[:n // 2], w[:n - 1], w[:255], w[:n // 3] + tuple(al[:1] * (n // 5 + 1)), w[:-1] + tuple(x for x in al[:1] if x != w[-1])], al)
    # every set of sequences of up to two steps over two elements
    for t in ('unsigned', 'char', 'int'):
        a, b = ((0, 2 ** 32 - 1), (1, 127), (-1, 0))[('unsigned', 'char', 'int').index(t)]
        allw = [(a,), (b,), (a, a), (a, b), (b, a), (b, b)]
        for m in range(1 << len(allw)):
            add(t, [w for k, w in enumerate(allw) if m >> k & 1], [a, b])
    orders = {}
    for n_ in range(chk.scale(500, 24000)):
        t = r.choice(['u-string', 'z-move', 'u-move', 'z-number', 'i-number', 'c-number'])
        n = r.choice([0, 1, 2, 3, 4, 5, 8, 20, 200, 256, 257, 1000])
        if t == 'c-number':
            n = min(n, 256)
        if n_ % 100 == 3 and t != 'c-number':
            n = 66000
        ix = list(range(n))
        k = r.random()
        if k < .6:
            r.shuffle(ix)
        elif k < .75:
            ix.reverse()
        elif k < .9 and n:
            j = r.randrange(n)
            ix = ix[j:] + ix[:j]
        elif n:
            i, j = r.randrange(n), r.randrange(n)
            ix[i], ix[j] = ix[j], ix[i]
        line = 'reindex %s %s' % (t, ' '.join(map(str, ix)))
        orders[line] = (t, ix)
        lines.append(line)

    def oracle(line, obs):
        if line in orders:
            t, ix = orders[line]
            e = [str(i * 3 + 1) if 'number' in t else 'q' * (i % 40) + str(i) for i in ix]
            chk.count('elements_reordered', len(ix))
            if len(obs) != 1 or obs[0].split() != ['order'] + e:
                chk.violation('reindex', '%d elements (%s) are not put where the order says' % (len(ix), t), '%s\nexpected %s\ngot %s' % (line, e, obs))
            return
        t, seqs, qs = want[line]
        e, n = model(seqs, qs)
        chk.count('sequences', len(seqs))
        chk.count('nodes', n)
        rp = '%s\nexpected %s\ngot %s' % (line[:20000], e[:20000], '\n'.join(obs)[:20000])
        if obs[0] != e:
            chk.violation('trie', 'the trie of %d sequences of %s is not their tree' % (len(seqs), t), rp)
        elif obs[1] != 'flat same nodes %d %d %d' % (n, n, n):
            chk.violation('flat', 'the flat trie of %d sequences of %s holds another tree' % (len(seqs), t), rp)
        elif obs[2] != 'again' + ' 1' * 6 or len(obs) != 3:
            chk.violation('nodes', 'a flat trie of the same nodes holds another tree (%s)' % t, rp)
        elif 3 < n < 20:
            chk.sample('%s: %s' % (line[:150], obs[0][:300]))
    judge(chk, lines, run_cases_parallel(exe, lines, shards=8), oracle, 'container', nontrivial=lambda l: len(want[l][1] if l in want else orders[l][1]) > 1)
    chk.need(chk.counts.get('nodes', 0) > 10000 or chk.violations, 'too few nodes')
    return chk.finish()
