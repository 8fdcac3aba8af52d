from ppv import *
from tools import *
from wordgen import *


def main():
    chk = Check('C13', 'runs of the dictionary builder on 1..5 word files (empty, unterminated, duplicated, missing, directories), its '
                'output loaded back and asked; compared with the dictionary built in memory; non-trivial = at least two files')
    exe = build({**tool_target('make_trie_dictionary'), **probe_target('probe_dict')})
    r = chk.rng
    jobs = []
    for n in range(chk.scale(350, 15000)):
        d = os.path.join(chk.scratch, 'r%d' % n)
        os.mkdir(d)
        argv, words, missing, sep = [], [], 0, set()
        for k in range(r.choice([1, 1, 2, 2, 3, 5]) if n % 60 else 70):
            ws, al = wordlist(r)
            if r.random() < .05:          # lines around the usual buffer sizes
                ws.append(word(r, r.choice(['ab', 'é', 'x€']), r.choice([16, 63, 64, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 9000])))
            if r.random() < .02:          # files around the usual block sizes
                ws += [word(r, 'abcdefgh', r.choice([3, 5, 7])) for _ in range(r.choice([600, 1500, 12000]))]
            if r.random() < .12:          # nothing in a line is a remark, a mark or white space to leave out
                for _ in range(r.randint(1, 4)):
                    w = word(r, r.choice(['ab', 'é', 'x€']), r.randint(1, 6))
                    ws.insert(r.randint(0, len(ws)), r.choice(['#%s', '# %s', ';%s', '//%s', '%s\r', '\ufeff%s', ' %s', '%s ', '%s\t', '\t%s', '%s\r\r', '"%s"', '%s #', '\\%s', '%s\\', '-%s', '%s,1', '\x0b%s', '%s\x0c', '%s/AB', "%s'"]) % w)
            p = os.path.join(d, 'w%d' % k)
            if r.random() < .15:
                missing += 1
                argv.append(p + r.choice(['', '/x']))
                continue
            t = '\n'.join(ws)
            if ws and r.random() < .6:
                t += '\n' * r.randint(1, 2)
            open(p, 'w', newline='').write(t)
            words += t.split('\n')
            argv.append(p)
            if r.random() < .1:
                argv.append(p)
        q = queries(r, sorted(set(words) - {''}), 'ab é')
        jobs.append((d, argv, set(words) - {''}, missing, q))
    rs = run_many([([exe['make_trie_dictionary']] + j[1], b'', j[0]) for j in jobs])
    lines, which = [], {}
    for j, (res,) in zip(jobs, rs):
        d, argv, words, missing, q = j
        rp = 'argv: %s\n%s\nexit %d\n%s' % (argv, '\n'.join('%s: %r' % (f, open(os.path.join(d, f)).read()) for f in os.listdir(d)), res.rc, res.err.decode('latin1')[-1000:])
        chk.count('runs')
        chk.count('missing_files', missing)
        if tool_fault(chk, 'make_trie_dictionary', res, rp):
            continue
        if res.rc:
            chk.violation('exit', 'the builder failed (exit %d)' % res.rc, rp)
            continue
        if missing and len(res.err.strip().split(b'\n')) < missing:
            chk.violation('silent', 'a missing file is not reported', rp)
        line = 'load %s %s' % (res.out.hex() or '_', lst(q))
        mem = 'dict %s %s' % (lst(sorted(words)), lst(q))
        lines += [line, mem]
        which[line] = (words, q, rp, res.out, len(argv))
        which[mem] = (words, q, rp, res.out, len(argv))

    def oracle(line, obs):
        words, q, rp, out, _ = which[line]
        chk.count('words', len(words))
        if line.startswith('dict'):
            if bytes.fromhex(obs[2].replace('_', '')) != out:
                chk.violation('bytes', 'output is not the saved dictionary of the lines of the files', rp)
            return
        if obs[:2] != ['eof 1', 'empty %d' % (not words)]:
            chk.violation('load', 'the output is not a dictionary of %d words: %s' % (len(words), obs[:2]), rp)
            return
        for w, a in zip(q, obs[2].split()):
            e = '1=' if w in words else '0='
            chk.count('queries')
            if a != e * 2:
                chk.violation('membership', '%r %s: %s' % (w, 'listed' if w in words else 'not listed', a), rp + '\nquery %r got %s' % (w, a))
                return
        if len(words) > 1:
            chk.sample(rp[:250])
    judge(chk, lines, run_cases_parallel(exe['probe_dict'], lines), oracle, 'dictionary file', nontrivial=lambda l: which[l][4] > 1)
    # the shipped list
    res = run_many([([exe['make_trie_dictionary'], os.path.join(REPO, 'resources/dict_fr.txt')], b'', None)])[0][0]
    words = set(open(os.path.join(REPO, 'resources/dict_fr.txt'), encoding='utf8').read().split('\n')) - {''}
    if not tool_fault(chk, 'make_trie_dictionary', res, 'resources/dict_fr.txt'):
        p = os.path.join(chk.scratch, 'fr')
        open(p, 'wb').write(res.out)
        q = r.sample(sorted(words), 2000)
        q = list(dict.fromkeys(q + [w[:-1] for w in q if w[:-1]] + [w + 's' for w in q]))
        c = run_cases(exe['probe_dict'], ['load @%s %s' % (p, lst(q))])[0]
        chk.count('shipped_words', len(words))
        nl = res.out.count(b'\n')
        pre = {w[:k] for w in words for k in range(1, len(w) + 1)}
        if c.fault:
            chk.violation('fault:' + fault_key(c.fault, c.detail), 'shipped list: ' + c.fault, c.detail)
        elif res.rc or nl != len(pre):
            chk.violation('shipped', 'shipped list: exit %d, %d nodes for %d distinct prefixes' % (res.rc, nl, len(pre)), 'resources/dict_fr.txt')
        elif c.lines[:1] != ['empty 0'] or len(c.lines) < 2:
            chk.violation('shipped', 'shipped list: the output does not load: %s' % c.lines[:2], 'resources/dict_fr.txt')
        else:
            for w, a in zip(q, c.lines[1].split()):
                if a != ('1=1=' if w in words else '0=0='):
                    chk.violation('shipped', 'shipped list: %r answered %s' % (w, a), w)
    chk.need(chk.counts.get('queries', 0) > 1000 or chk.violations, 'too few queries')
    return chk.finish()
