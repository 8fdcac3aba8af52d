ALPH = ['ab', 'abc', 'aé', 'éèê', 'жшю', 'a\U0001d11e€', 'abcdefghijklmnopqrstuvwxyz', "a-' ", 'Aa', '\x7f\x80\u07ff\u0800\uffff\U00010000\U0010ffff', '\ufeffab', '\ufeff\ufffe\ufffd\u00ad\u200d\u0301e']


def word(r, al, n=None):
    return ''.join(r.choice(al) for _ in range(n or r.choice([1, 1, 2, 2, 3, 4, 6, 9])))


def wordlist(r, empty=True):
    al = r.choice(ALPH)
    out = []
    for _ in range(r.choice([0, 1, 2, 3, 5, 8, 20, 60])):
        k = r.random()
        if k < .45 or not out:
            out.append(word(r, al))
        elif k < .6:
            w = r.choice(out)
            out.append(w[:r.randint(1, max(1, len(w)))] or 'a')
        elif k < .75:
            out.append(r.choice(out) + word(r, al, r.randint(1, 3)))
        elif k < .85:
            out.append(r.choice(out))
        elif k < .95:
            w = r.choice(out)
            p = r.randrange(len(w))if w else 0
            out.append(w[:p] + r.choice(al) + w[p + 1:])
        elif empty:
            out.append('')
    return out, al


def queries(r, words, al, n=40):
    """every word, its prefixes, extensions and variations"""
    q = list(dict.fromkeys(words))[:60]
    for w in words[:20]:
        q += [w[:k] for k in range(len(w))][:6]
        q += [w + r.choice(al), w + w, r.choice(al) + w]
        if w:
            p = r.randrange(len(w))
            q += [w[:p] + r.choice(al + 'z') + w[p + 1:], w[:p] + w[p + 1:], w[:p] + chr(min(0x10fffe, ord(w[p]) + 1)) + w[p + 1:]]
    q += [word(r, al) for _ in range(8)]
    return [x for x in dict.fromkeys(q) if x and not any(0xd800 <= ord(c) < 0xe000 for c in x)]


def hx(s):
    return s.encode().hex() or '_'


def lst(l):
    return ' '.join([str(len(l))] + [hx(w) for w in l])
