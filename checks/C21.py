from ppv import *
from dbgen import hexs


def main():
    chk = Check('C21', 'rule lists over small alphabets (patterns inside replacements, overlapping and self-overlapping patterns, empty '
                'replacements, rules feeding later rules, any bytes) applied to random texts; rule files with tabs, blank lines, trailing '
                'blanks, CRLF and without a last newline; non-trivial = at least one rule and one occurrence')
    exe = build(probe_target('probe_ocr'))['probe_ocr']
    r = chk.rng
    lines, want = [], {}

    def wd(al, ns):
        return b''.join(r.choice(al) for _ in range(r.choice(ns)))

    def apply(rules, t):
        for a, b in rules:
            t = t.replace(a, b)
        return t
    for n_ in range(chk.scale(8000, 120000)):
        al = r.choice([[b'a', b'b'], [b'a'], [b'a', b'b', b' '], ['é'.encode(), b'\xa9', b'\xc3', b'e'], [b'\0', b'\xff', b'a'], [b'r', b'n', b'm', b'rn']])
        rules = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 6])):
            a = wd(al, [1, 1, 2, 3])
            k = r.random()
            b = b'' if k < .2 else a + wd(al, [0, 1]) if k < .35 else wd(al, [1]) + a if k < .45 else a + a if k < .5 else wd(al, [0, 1, 2, 4])
            rules.append((a, b))
        texts = [wd(al, [0, 1, 3, 8, 30]) for _ in range(4)]
        if n_ % 80 == 0:              # long texts, long patterns, many rules
            a = wd(al, [16, 40, 257, 300])
            b = wd(al, [0, 17, 256, 1000])
            rules = [(a, b)] + rules + [(wd(al, [5, 9]), wd(al, [0, 3])) for _ in range(r.choice([1, 300]))]
            rules = [(p, q) if len(q) < 2 * len(p) else (p, q[:len(p)]) for p, q in rules[:4]] + [(p, q[:len(p)]) for p, q in rules[4:]]
            texts = [wd(al, [60]) + a + wd(al, [7]) + a + a, wd(al, [300, 5000, 70000]), a[1:] + a + a[:-1], a * r.choice([1, 20])]
        line = 'rules %d %s' % (len(rules), ' '.join('%s %s' % (hexs(a), hexs(b)) for a, b in rules)) + ' ' + ' '.join(hexs(t) for t in texts)
        want[line] = (None, rules, texts)
        lines.append(line)
    for n_ in range(chk.scale(4000, 60000)):
        al = r.choice([[b'a', b'b'], ['é'.encode(), b'e', b'\xff'], [b'0', b'1', b'-', b'#'], [b'rn', b'm', b'cl', b'd']])
        rules, text = [], b''
        nl = r.choice([b'\n', b'\n', b'\n', b'\r\n'])
        for _ in range(r.choice([0, 1, 2, 3, 6]) if n_ % 100 else r.choice([70, 300])):
            a, b = wd(al, [1, 1, 2, 3] if r.random() < .99 else [16, 17, 100, 257, 5000]), wd(al, [0, 1, 1, 2])
            rules.append((a, b))
            text += r.choice([b'', b'', b'', b' ', b'\t', nl, b' ' + nl]) + a + (r.choice([b' ', b' ', b'\t', b'  ', b' \t ']) + b if b else b'') + \
                r.choice([b'', b'', b'', b' ', b'\t', b'  ']) + nl
        if text and r.random() < .3:
            text = text[:-len(nl)]
        texts = [wd(al, [0, 3, 10]) for _ in range(2)]
        line = 'repl %s %s' % (hexs(text), ' '.join(hexs(t) for t in texts))
        want[line] = (text, rules, texts)
        lines.append(line)

    def oracle(line, obs):
        text, rules, texts = want[line]
        if text is not None:
            e = [str(len(rules))] + ['%s %s' % (hexs(a), hexs(b)) for a, b in rules]
            chk.count('rule_files')
            if obs[:len(e)] != e:
                chk.violation('load', 'rule file %r read as %s' % (text, [bytes.fromhex(x.replace('_', '')) for o in obs[1:] for x in o.split()][:12]),
                              'case: %s\nfile %r\nexpected %s\ngot %s' % (line, text, e, obs))
                return
            obs = obs[len(e):]
        chk.count('rules', len(rules))
        for t, o in zip(texts, obs):
            e = apply(rules, t)
            chk.count('texts')
            if e != t:
                chk.count('texts_changed')
                chk.sample('%s: %r -> %r' % (rules[:3], t, e))
            if o != hexs(e):
                chk.violation('apply', 'rules %s on %r: expected %r' % (rules, t, e), 'case: %s\nexpected %r\ngot %s' % (line, e, o))
                return
    judge(chk, lines, run_cases_parallel(exe, lines, cpu=60), oracle, 'replacement', nontrivial=lambda l: any(apply(want[l][1], t) != t for t in want[l][2]))
    chk.need(chk.counts.get('texts_changed', 0) > 2000 or chk.violations, 'too few texts changed')
    return chk.finish()
