from ppv import *
from wordgen import *


def main():
    chk = Check('C12', 'word lists over one- to four-byte alphabets with shared prefixes, duplicates and empty entries; asked for every '
                'word, its prefixes, extensions and variations before and after a save/load, in several list orders; the shipped '
                'french list in full; non-trivial = at least two distinct words')
    exe = build(probe_target('probe_dict'))['probe_dict']
    r = chk.rng
    lines, want = [], {}
    for _ in range(chk.scale(700, 96000)):
        ws, al = wordlist(r)
        q = queries(r, ws, al)
        for k in range(3):                       # the same words in another order, repeated, with empty entries
            l = list(ws)
            if k:
                l += r.sample(l, len(l) // 3) + [''] * r.randint(0, 2)
                r.shuffle(l)
            line = 'dict %s %s' % (lst(l), lst(q))
            want[line] = (frozenset(ws) - {''}, q)
            lines.append(line)
    # wide and deep ones: more children than 7, 8, 15 or 16 bits count, words longer than that
    for n in (127, 128, 129, 255, 256, 257, 300, 1000, 5000, 70000):
        if n > 5000 and not (chk.thorough or n == 70000):
            continue
        base = r.choice([0x100, 0x4e00, 0x20000]) if n < 20000 else 0x20000
        sib = [chr(base + k * (1 if n < 20000 else 2)) for k in range(n if n < 20000 else 66000 if base == 0x20000 else 20000)]
        sib = [c for c in sib if not 0xd800 <= ord(c) < 0xe000]
        pre = r.choice(['', 'a', 'xyz'] if n < 20000 else ['a', 'xyz'])
        ws = [pre + c for c in sib] + [pre + c + 'q' for c in r.sample(sib, min(9, n))] + (['zz'] if n % 2 else [])
        q = r.sample(ws, min(len(ws), 300)) + ws[:3] + ws[-3:] + [pre + sib[k] for k in (126, 127, 128, 255, 256) if k < len(sib)]
        q = [x for x in dict.fromkeys(q + [w + 'q' for w in q[:40]] + [w + 'r' for w in q[:40]] + [pre, pre + chr(ord(sib[-1]) + 1), pre + chr(ord(sib[0]) - 1), pre + 'q', 'zz', 'z']) if x]
        for k in range(2):
            l = list(ws)
            if k:
                r.shuffle(l)
            line = 'dict %s %s' % (lst(l), lst(q))
            want[line] = (frozenset(ws), q)
            lines.append(line)
    for n in (127, 128, 255, 256, 257, 300, 1000, 5000):
        w = word(r, r.choice(['ab', 'éж', 'a€\U0001d11e']), n)
        ws = [w, w[:n // 2], w[:n - 1] + '~', 'b' + w]
        q = list(dict.fromkeys(ws + [w[:-1], w + 'a', w[:n // 2 + 1], w[:n // 2 - 1], w[1:], w[:n - 2] + '~~']))
        line = 'dict %s %s' % (lst(ws), lst(q))
        want[line] = (frozenset(ws), q)
        lines.append(line)
    saved = {}

    def check(words, q, ans, line, when):
        for w, a in zip(q, ans.split()):
            e = '1=' if w in words else '0='
            chk.count('found' if w in words else 'not_found')
            if a != e * 2:
                chk.violation('membership', '%r %s the dictionary of %s %s: %s' % (
                    w, 'in' if w in words else 'not in', sorted(words)[:12], when, a), 'case: %s\nquery %r expected %s got %s' % (line, w, e * 2, a))
                return

    def oracle(line, obs):
        words, q = want[line]
        e = ['empty %d' % (not words), None, None, 'eof 1 empty %d' % (not words), None, 'same 1 over 1 flags 1']
        if len(obs) != 6 or any(x is not None and x != o for x, o in zip(e, obs)):
            chk.violation('reload', 'dictionary of %s not preserved: %s' % (sorted(words)[:12], [o[:80] for o in obs]), line)
            return
        check(words, q, obs[1], line, 'built')
        check(words, q, obs[4], line, 'reloaded')
        if saved.setdefault(words, obs[2]) != obs[2]:
            chk.violation('canonical', 'two dictionaries of the words %s differ' % sorted(words)[:12], line + '\n' + saved[words] + '\n' + obs[2])
        chk.count('dictionaries')
        chk.count('words', len(words))
        if len(words) > 1:
            chk.sample(sorted(words)[:8])
    judge(chk, lines, run_cases_parallel(exe, lines), oracle, 'dictionary', key=lambda l: want[l][0], nontrivial=lambda l: len(want[l][0]) > 1)
    # saved bytes identify the word set
    rev = {}
    for w, b in saved.items():
        if rev.setdefault(b, w) != w:
            chk.violation('ambiguous', 'dictionaries of %s and %s save alike' % (sorted(w)[:8], sorted(rev[b])[:8]), b)
    # the shipped list
    full = [w for w in open(os.path.join(REPO, 'resources/dict_fr.txt'), encoding='utf8').read().split('\n')]
    ws = frozenset(full) - {''}
    sample = r.sample(sorted(ws), 3000)
    q = list(dict.fromkeys(sample + [w[:-1] for w in sample if len(w) > 1] + [w + r.choice('aesté') for w in sample]))
    l = full[:]
    r.shuffle(l)
    big = ['dict %s %s' % (lst(x), lst(q)) for x in (full, l)]
    b2 = {x: (ws, q) for x in big}
    want.update(b2)
    saved.clear()

    def obig(line, obs):
        oracle(line, obs)
    judge(chk, big, run_cases_parallel(exe, big, fills=(0x78,), shards=2), lambda l, o: oracle(l, o), 'shipped word list', key=lambda l: hash(l))
    chk.need(chk.counts.get('found', 0) > 3000 or chk.violations, 'too few queries')
    return chk.finish()
