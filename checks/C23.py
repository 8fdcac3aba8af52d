from ppv import *
from tools import *
from dbgen import hexs
from wordgen import *
from C18 import boxes_of
import models, gen, dbgen

SMALL = [b'0', b'1', b'2', b'3', b'7', b'11', b'20', b'100', b'200', b'201', b'1000', b'+1', b'', b'x', b'1.5', b'4000']
VALUES = SMALL + [b'-1', b'-2', b'4294967295', b'4294967296', b'2147483648', b'18446744073709551615', b'99999999999999999999999']
HUGE = [b'-1', b'4294967295', b'4294967294', b'2147483648', b'1000000000', b'300000000', b'18446744073709551615', b'4611686018427387904', b'99999999999999999999']


def mutate(r, b, values):
    """one or two damages: truncation, a token replaced, removed, doubled or moved, bytes changed, lines removed"""
    for _ in range(r.choice([1, 1, 1, 2])):
        k = r.randrange(10)
        if k <= 1:
            b = b[:r.randrange(len(b) + 1)]
        elif k <= 4:
            t = re.split(rb'(\s+)', b)
            i = r.randrange(len(t)) // 2 * 2
            m = r.random()
            if m < .65:
                t[i] = r.choice(values)
            elif m < .8:
                t[i] = b''
            elif m < .9:
                t[i] = t[i] + r.choice([b'', b' ']) + t[i]
            else:
                j = r.randrange(len(t)) // 2 * 2
                t[i], t[j] = t[j], t[i]
            b = b''.join(t)
        elif k == 5 and b:
            p = r.randrange(len(b))
            b = b[:p] + bytes([r.choice([0, 10, 32, 45, 48, 49, 57, 120, 255, r.randrange(256)])]) + b[p + 1:]
        elif k == 6 and b:
            p = r.randrange(len(b))
            q = min(len(b), p + r.choice([1, 2, 5, 40]))
            b = b[:p] + b[q:]
        elif k == 7:
            l = b.split(b'\n')
            del l[r.randrange(len(l))]
            b = b'\n'.join(l)
        elif k == 8:
            l = b.split(b'\n')
            i = r.randrange(len(l))
            l.insert(i, r.choice(l))
            b = b'\n'.join(l)
        else:
            b = b + r.choice([b'\n', b'\0', b' ', b'1', b'x', b'1 2 3', b[:20]])
    return b


def trie_state(b):
    """'error' when the dictionary file is incomplete or inconsistent, 'ok' when it is sound, None when its
    spelling is unusual but readable"""
    if b == b'':
        return 'ok'
    ls = b.split(b'\n')
    nodes = []
    for l in ls[:-1]:
        m = re.fullmatch(rb'(0|[1-9]\d{0,8}) (0|[1-9]\d{0,8}) (0|[1-9]\d{0,8}) ([01])', l)
        if not m:
            return 'error' if l.count(b' ') < 3 else None
        nodes.append([int(x) for x in m.groups()])
    if ls[-1]:
        return 'error' if re.fullmatch(rb'\d{1,9}( \d{0,9}){0,3}', ls[-1]) else None
    n = len(nodes)
    for i, (c, pos, sz, t) in enumerate(nodes):
        if i + pos + sz > n:
            return 'error'
        if sz and not pos:
            return 'error'
        if not pos:
            return None
    return 'ok'


def table_state(b):
    """'error' when the feature table is incomplete, 'ok' when it has exactly the numbers it announces, else None"""
    t = b.split()
    if any(not re.fullmatch(rb'\d{1,9}', x) for x in t):
        return None
    if not t:
        return 'error'
    v = [int(x) for x in t]
    n, p = v[0], 1
    for name in models.ALL:
        for _ in range(n):
            if name == 'alternations':
                if any(x > 1 for x in v[p:p + 14:2]):
                    return None
                p += 14
            elif name == 'zone':
                p += 7
            elif name == 'proportionality_zone':
                if p >= len(v):
                    return 'error'
                p += 1 + v[p]
            else:
                p += 1
            if p > len(v):
                return 'error'
    return 'ok' if p == len(v) and b.endswith(b'\n') else None


def main():
    chk = Check('C23', 'every truncation of small valid files of every kind, and number, token, byte and line mutations of larger ones '
                '(glyph, feature, dictionary, line and rule files), loaded and used by the library and by the tools; announced counts '
                'beyond the memory allowed; non-trivial = a file that is not the valid one')
    exe = build({**probe_target('probe_ocr'), **probe_target('probe_dict'), **probe_target('probe_features'),
                 **tool_target('ocr2_extract_text'), **tool_target('normalize_glyphs'), **tool_target('write_datas'), **tool_target('make_trie_dictionary')})
    r = chk.rng

    def small_db(n):
        db = dbgen.real_db(r, n) if r.random() < .5 else dbgen.synth_db(r, n)
        return db, dbgen.text(db).replace('4294967295', '7').encode(), models.datas_text([dbgen.features(i) for i, _ in db]).encode()

    def infos(db):
        ws = sorted({w for _, v in db for w, _ in v})
        return ''.join('%s %d %d %d %d\n' % (w, *(r.choice([0, 1, 2, 4]) for _ in range(4))) for w in ws).encode()

    def dictionary(ws):
        """file of the words, made from the format's definition (breadth first, children in a row)"""
        root = {}
        for w in ws:
            n = root
            for c in w:
                n = n.setdefault(c, {})
            n[''] = {}
        out, queue = [], [root]
        rows = []
        while queue:
            n = queue.pop(0)
            for c in sorted(k for k in n if k):
                rows.append((c, n[c]))
                queue.append(n[c])
        first, nxt = {}, len([k for k in root if k])
        for i, (c, n) in enumerate(rows):
            kids = len([k for k in n if k])
            out.append('%d %d %d %d\n' % (int.from_bytes(c.encode(), 'little'), nxt - i, kids, '' in n))
            nxt += kids
        return ''.join(out).encode()

    def fits(f, digits):
        """no number of the file can be taken for a count the memory does not allow (those are tried below)"""
        return not re.search(rb'-\d', f) and not re.search(rb'(?<!\d)\d{%d,18}(?!\d)' % digits, f) and not re.search(rb'1\d{18}(?!\d)', f)

    # ---- dictionaries
    lines, which = [], {}

    def add(l, *info):
        if l not in which:
            which[l] = info
            lines.append(l)
    for k in range(chk.scale(60, 600)):
        ws, al = wordlist(r, empty=False)
        ws = ws[:40]
        q = queries(r, ws[:8], al)[:30]
        c = run_cases(exe['probe_dict'], ['dict %s 0' % lst(ws)])[0] if k < 3 else None
        b = dictionary(ws) if c is None or c.fault else bytes.fromhex(c.lines[2].replace('_', ''))
        for f in [b] + ([b[:n] for n in range(len(b))] if k < 4 else []) + [mutate(r, b, VALUES) for _ in range(60)]:
            add('file %s %s' % (hexs(f), lst(q)), 'dictionary', f, f != b)
    nd = len(lines)

    def oracle_d(line, obs):
        _, f, mutated = which[line]
        st = trie_state(f)
        err = bool(obs) and obs[0].startswith('exc')
        chk.count('dictionary_files')
        chk.count('dictionary_%s' % ('rejected' if err else 'loaded'))
        if st == 'error' and not err:
            chk.violation('dictionary_accepted', 'incomplete or inconsistent dictionary accepted: %r' % f[-80:], 'case: %s\nfile:\n%s\ngot %s' % (line, f.decode('latin1'), obs[:2]))
        if st == 'ok':
            chk.count('dictionary_sound')
            if err or obs[3:4] != [hexs(f)]:
                chk.violation('dictionary_refused', 'sound dictionary refused or altered: %r %s' % (f[:60], obs[:1]), 'case: %s\nfile:\n%s\ngot %s' % (line, f.decode('latin1'), obs))
    judge(chk, lines, run_cases_parallel(exe['probe_dict'], lines), oracle_d, 'dictionary file', nontrivial=lambda l: which[l][2])

    # ---- feature tables
    lines = []
    from C07 import random_row
    for k in range(chk.scale(40, 400)):
        rows = [random_row(r) for _ in range(r.choice([0, 1, 1, 2, 3]))] if r.random() < .6 else [dbgen.features(gen.image(r, 10, 10)) for _ in range(r.choice([1, 2]))]
        b = models.datas_text(rows).encode()
        # counts are small or beyond any vector; other numbers may be anything
        for f in [b] + ([b[:n] for n in range(len(b))] if k < 3 else []) + [mutate(r, b, SMALL if r.random() < .7 else SMALL + [b'4611686018427387904', b'18446744073709551615', b'99999999999999999999999']) for _ in range(50)]:
            if fits(f, 6):
                add('file %s' % hexs(f), 'table', f, f != b)

    def oracle_t(line, obs):
        _, f, mutated = which[line]
        st = table_state(f)
        err = bool(obs) and obs[0].startswith('exc')
        chk.count('table_files')
        chk.count('table_rejected' if err else 'table_loaded')
        if st == 'error' and not err:
            chk.violation('table_accepted', 'incomplete feature table accepted (%d bytes)' % len(f), 'case: %s\nfile:\n%s\ngot %s' % (line, f.decode('latin1'), obs[:2]))
        if st == 'ok':
            chk.count('table_sound')
            if err:
                chk.violation('table_refused', 'complete feature table refused: %s' % obs[0], 'case: %s\nfile:\n%s' % (line, f.decode('latin1')))
    judge(chk, lines, run_cases_parallel(exe['probe_features'], lines), oracle_t, 'feature table', nontrivial=lambda l: which[l][2])

    # ---- glyph, line and rule files, used for recognition, filtering and assembly
    lines = []
    for k in range(chk.scale(45, 450)):
        db, g, d = small_db(r.choice([1, 2, 5]))
        li = infos(db)
        qs = [r.choice(db)[0], gen.image(r, 8, 8)]
        q = ' '.join(hexs(w) for w in queries(r, [w for _, v in db for w, _ in v][:5], 'aé')[:12])
        bx = boxes_of(r, 3)
        labels = [(a, c) for a, (_, v) in enumerate(db) for c in range(len(v))]
        cands = ';'.join(','.join('%d.%d' % r.choice(labels) for _ in range(r.choice([1, 2, 3]))) for _ in bx)
        rules = b'ab a\nb\nrn m\n'
        full = range(len(g)) if len(g) < 600 and k < 6 else ()
        img = ' '.join('%d %d %s' % i for i in qs)
        for f in [g] + [g[:n] for n in full] + [mutate(r, g, SMALL) for _ in range(40)]:
            if not fits(f, 5):
                continue
            add('words %s %s %s' % (hexs(f), hexs(li), q), 'glyphs', f, f != g)
            add('lglyphs %s' % hexs(f), 'loader', f, f != g)
            if r.random() < .5 or f == g:
                add('rec %s %s %d %s' % (hexs(f), hexs(d), len(qs), img), 'glyphs for recognition', f, f != g)
        for f in [mutate(r, d, SMALL) for _ in range(25)]:
            if not fits(f, 6):
                continue
            add('rec %s %s %d %s' % (hexs(g), hexs(f), len(qs), img), 'features for recognition', f, True)
        # sizes whose product is nothing or does not fit
        for _ in range(6):
            w, h = r.choice([(0, 0), (0, 3), (3, 0), (65536, 65536), (65536, 65537), (4294967295, 4294967295), (2147483648, 2), (2863311531, 3), (4, 1073741825), (-1, -1)])
            i = r.choice([m.start() for m in re.finditer(rb'(?m)^\d+ \d+ ', g)])
            f = g[:i] + re.sub(rb'\d+ \d+ ', b'%d %d ' % (w, h), g[i:], count=1)
            add('lglyphs %s' % hexs(f), 'size', f, True)
        # glyphs without any label, in a database otherwise sound
        odd = [(i, v if r.random() < .5 else []) for i, v in db]
        f = dbgen.text(odd).encode()
        add('rec %s %s %d %s' % (hexs(f), hexs(d), len(qs), img), 'glyphs without label', f, True)
        add('words %s %s %s' % (hexs(f), hexs(li), q), 'glyphs without label', f, True)
        # values (not counts) of any size
        t = d.split(b' ')
        for _ in range(10):
            i = r.randrange(len(t))
            rows = d.split(b'\n')
            j = r.randrange(1, 21)
            v = rows[j].split(b' ')
            v[r.randrange(max(1, len(v) - 1))] = r.choice([b'4294967295', b'2147483648', b'4294967285', b'4294967196', b'1000'])
            rows[j] = b' '.join(v)
            add('rec %s %s %d %s' % (hexs(g), hexs(b'\n'.join(rows)), len(qs), img), 'feature values', b'\n'.join(rows), True)
        for f in [li] + ([li[:n] for n in range(len(li))] if k < 4 else []) + [mutate(r, li, VALUES) for _ in range(12)]:
            add('lines %s %s %s %d %s' % (hexs(g), hexs(f), cands, len(bx), ' '.join('%d %d %d %d' % x for x in bx)), 'line infos', f, f != li)
        for f in [rules[:n] for n in range(len(rules))] + [mutate(r, rules, VALUES) for _ in range(10)]:
            add('repl %s %s' % (hexs(f), hexs(b'abrnabbrn')), 'rules', f, f != rules)

    def oracle_g(line, obs):
        kind, f, mutated = which[line]
        chk.count('files_' + kind.replace(' ', '_'))
        if obs and obs[0].startswith('exc'):
            chk.count('rejected_' + kind.replace(' ', '_'))
            if not mutated:
                chk.violation('refused_' + kind, 'valid %s refused: %s' % (kind, obs[0]), line)
    judge(chk, lines, run_cases_parallel(exe['probe_ocr'], lines, max_faults=20), oracle_g, 'damaged file', nontrivial=lambda l: which[l][2])

    # ---- the tools
    cmds, info = [], []
    for k in range(chk.scale(110, 1500)):
        d = os.path.join(chk.scratch, 't%d' % k)
        os.mkdir(d)
        db, g, dt = small_db(r.choice([1, 3]))
        part = {'g': g, 'd': dt, 'l': infos(db), 't': dictionary({w for _, v in db for w, _ in v})}
        which_part = r.choice('ggddlt')
        whole = part[which_part]
        part[which_part] = mutate(r, whole, SMALL)
        if which_part == 'g' and r.random() < .2:
            part['g'] = dbgen.text([(i, v if r.random() < .5 else []) for i, v in db]).encode()
        while not fits(part[which_part], 5 if which_part == 'g' else 6):
            part[which_part] = mutate(r, whole, SMALL)
        img = [db[0][0]]
        h = max(i[1] for i in img)
        pic = models.section(img[0], 0, 0, img[0][0], h)
        part['i'] = pnm_of(pic, '4')
        for n, b in part.items():
            open(os.path.join(d, n), 'wb').write(b)
        jobs = [[exe['ocr2_extract_text'], 'g', 'd', 'i', 'l', 't']]
        if which_part == 'g':
            jobs += [[exe['normalize_glyphs'], 'g'], [exe['write_datas'], 'g']]
        for j in jobs:
            cmds.append((j, b'', d))
            info.append((which_part, part[which_part]))
    # word lists: words that end inside a letter, of every length (their memory ends right behind them), and mutations
    for k in range(chk.scale(40, 500)):
        d = os.path.join(chk.scratch, 'w%d' % k)
        os.mkdir(d)
        ws = []
        for _ in range(r.choice([1, 3, 12])):
            w = word(r, r.choice(['ab', 'éa', 'a€'])).encode() * r.choice([1, 1, 4, 9])
            ws.append(w[:r.randint(0, 70)] + r.choice([b'', b'\xc3', b'\xe2', b'\xe2\x82', b'\xf0', b'\xf0\x9d', b'\xf0\x9d\x84', b'\xff', b'\x80']))
        b = b'\n'.join(ws) + r.choice([b'', b'\n'])
        if k % 3 == 0:
            b = mutate(r, b, SMALL)
        open(os.path.join(d, 'w'), 'wb').write(b)
        cmds.append(([exe['make_trie_dictionary'], 'w'], b'', d))
        info.append(('w', b))
    for (argv, _, d), (wp, b), two in zip(cmds, info, run_many(cmds, fills=(0x78, 0x2d))):
        rp = 'cd %s; %s\ndamaged %s:\n%s\nother files: %s\n' % (d, ' '.join(argv), wp, b.decode('latin1')[:20000], {
            f: open(os.path.join(d, f), 'rb').read().hex()[:6000] for f in os.listdir(d)})
        chk.count('tool_runs')
        chk.eval((argv[0], b))
        for res in two:
            if tool_fault(chk, os.path.basename(argv[0]), res, rp):
                break
            if res.rc:
                chk.count('tool_runs_reporting_an_error')
            st = trie_state(b) if wp == 't' else table_state(b) if wp == 'd' else None
            if st == 'error' and res.rc == 0:
                chk.violation('tool_accepted', '%s accepted by %s' % ('incomplete dictionary' if wp == 't' else 'incomplete feature table', os.path.basename(argv[0])), rp + res.out.decode('latin1')[-500:])
        else:
            if two[0].out != two[1].out or two[0].rc != two[1].rc:
                chk.violation('uninitialised', '%s: output depends on uninitialised memory' % os.path.basename(argv[0]), rp + two[0].out.decode('latin1')[-1500:] + two[1].out.decode('latin1')[-1500:])

    # ---- announced counts beyond the memory allowed (2 GB), without sanitizers, whose allocator ends the program itself
    rel = build({**probe_target('probe_ocr'), **probe_target('probe_features'), **probe_target('probe_dict')}, 'rel')
    db, g, d = small_db(2)
    jobs = []
    for v in HUGE:
        t = d.split(b'\n')
        jobs.append((rel['probe_features'], 'file %s' % hexs(b'\n'.join([v] + t[1:]))))
        one = models.datas_text([dbgen.features((3, 3, 'x-x-x-xxx'))]).encode().split(b'\n')
        pz = one[-2].split(b' ')
        jobs.append((rel['probe_features'], 'file %s' % hexs(b'\n'.join(one[:-2] + [b' '.join([v] + pz[1:]), b'']))))
        a = g.split(b'\n')
        a[1] = v
        jobs.append((rel['probe_ocr'], 'words %s _ %s' % (hexs(b'\n'.join(a)), hexs('a'))))
        jobs.append((rel['probe_ocr'], 'lglyphs %s' % hexs(b'\n'.join(a))))
        for k in (0, 1):
            a = g.split(b' ')
            a[k] = v
            jobs.append((rel['probe_ocr'], 'lglyphs %s' % hexs(b' '.join(a))))
        jobs.append((rel['probe_dict'], 'file %s 1 61' % hexs(b'97 1 %s 1\n98 1 0 1\n' % v)))
        jobs.append((rel['probe_dict'], 'file %s 1 61' % hexs(b'97 %s 1 1\n98 1 0 1\n' % v)))
    with ThreadPoolExecutor(4) as ex:
        res = list(ex.map(lambda j: run([j[0]], (j[1] + '\n').encode(), cpu=60, as_bytes=2 << 30), jobs))
    for (e, l), x in zip(jobs, res):
        chk.count('huge_counts')
        chk.eval((e[-8:], l))
        if x.timed_out:
            raise HarnessError('watchdog on ' + l[:200])
        if x.fault or x.rc:
            chk.violation('huge:' + os.path.basename(e), '%s on a file announcing a huge count' % (x.fault or 'exit %d' % x.rc), l + '\n' + x.err.decode('latin1')[-2000:])
    chk.sample('dictionary %r' % dictionary(['ab', 'a', 'b'])[:60])
    chk.need(chk.counts.get('dictionary_rejected', 0) > 300 and chk.counts.get('table_rejected', 0) > 300 or chk.violations, 'too few files rejected')
    return chk.finish()
