from ppv import *
from tools import *
from wordgen import lst
import models, gen, dbgen
from C08 import line_image

FAIL, OK, ANY = 'fail', 'ok', 'any'


def main():
    chk = Check('C24', 'every tool with every number of arguments, and with every argument in turn (and several together) missing, a directory, '
                'empty, garbage, truncated, in a missing directory; bad and good luminance options; valid runs in between; '
                'non-trivial = a run that must fail')
    names = ['write_glyphs', 'show_glyphs', 'normalize_glyphs', 'write_datas', 'ocr2_extract_text', 'make_trie_dictionary']
    exe = tools(*names)
    r = chk.rng
    jobs = []
    first = ''
    for n in range(chk.scale(14, 400)):
        d = os.path.join(chk.scratch, 'd%d' % n)
        os.mkdir(d)

        def put(name, b):
            p = os.path.join(d, name)
            open(p, 'wb').write(b if isinstance(b, bytes) else b.encode())
            return p
        img = line_image(r)
        while len(models.boxes(img)) < 2:
            img = line_image(r)
        nb = len(models.boxes(img))
        db = dbgen.synth_db(r, 4)
        ws = sorted({w for _, v in db for w, _ in v})
        good = {'image': [put('i%s' % k, pnm_of(img, k)) for k in '146'], 'text': [put('t', ' '.join(['a'] * nb))], 'font': ['f'],
                'glyphs': [put('g', dbgen.text(db))], 'datas': [put('dt', models.datas_text([dbgen.features(i) for i, _ in db]))],
                'infos': [put('in', ''.join('%s 2 2 2 2\n' % w for w in ws)), put('in2', '')],
                'words': [put('w', 'a\nb\n'), put('w2', ''), put('w3', 'ab')],
                'dict': [put('di', '97 1 0 1\n'), put('di2', '')]}
        none, nodir, empty, garbage = os.path.join(d, 'none'), os.path.join(d, 'none', 'x'), put('empty', ''), put('garbage', 'hello world\nzz')
        p4 = open(good['image'][1], 'rb').read()
        p6 = open(good['image'][2], 'rb').read()
        dt = open(good['datas'][0], 'rb').read()
        bad = {'image': [none, nodir, d, empty, garbage, put('cut4', p4[:-1]), put('cut6', p6[:-2]), put('long', p4 + b'x'), put('head', p6[:5]), ''],
               'text': [none, nodir, d, empty, put('more', ' '.join(['a'] * (nb + 1))), put('less', ' '.join(['a'] * (nb - 1))), ''],
               'glyphs': [none, nodir, d, garbage, ''], 'datas': [none, nodir, d, empty, garbage, put('dcut', dt[:r.randrange(1, len(dt) * 9 // 10)]), put('dcut2', dt[:len(dt) // 2]), ''],
               'infos': [none, nodir, d, garbage, ''], 'dict': [none, nodir, d, garbage, put('dicut', '97 1 1 1\n98 1'), put('dibad', '97 1 4 1\n98 1 0 1\n'), '']}
        forms = {'write_glyphs': [['image', 'text', 'font'] * k for k in (1, 2, 3)], 'show_glyphs': [['image'] * k for k in (1, 2, 3)],
                 'normalize_glyphs': [['glyphs'] * k for k in (1, 2, 3)], 'write_datas': [['glyphs']],
                 'ocr2_extract_text': [['glyphs', 'datas', 'image'] + ['infos', 'dict'][:k] for k in (0, 1, 2)],
                 'make_trie_dictionary': [['words'] * k for k in (1, 2, 3)]}

        def add(tool, argv, want, why):
            jobs.append(([exe[tool]] + argv, d, want, why))
        for tool, fs in forms.items():
            for f in fs:
                ok = [r.choice(good[k]) for k in f]
                add(tool, ok, OK, 'valid')
                for i, k in enumerate(f):
                    for b in bad.get(k, []):
                        if n > 3 and r.random() < .6:
                            continue
                        add(tool, ok[:i] + [b] + ok[i + 1:], FAIL, '%s %d is %s' % (k, i, os.path.basename(b) or 'the empty name'))
                if len(f) > 1 and f[0] in bad and tool != 'make_trie_dictionary':
                    i, j = r.sample([x for x in range(len(f)) if f[x] in bad], 2) if sum(k in bad for k in f) > 1 else (0, 0)
                    two = list(ok)
                    two[i], two[j] = r.choice(bad[f[i]]), r.choice(bad[f[j]])
                    add(tool, two, FAIL, 'two bad arguments')
                if tool in ('write_glyphs', 'show_glyphs'):
                    for l in ('0', '100', '128', '255'):
                        if tool == 'write_glyphs' and l in '0255':
                            continue
                        add(tool, ['-l', l] + ok, OK if tool == 'show_glyphs' or l in ('100', '128') else ANY, 'luminance ' + l)
                    if len(f) > 1 or tool == 'write_glyphs':
                        for l in ('', 'x', '12x', ' ', '99999999999999999999999', '1 2', '1.5', '0x40', '0b1', '1e2', '128u', '12,8', '08x', "1'000"):
                            add(tool, ['-l', l] + ok, FAIL, 'luminance %r' % l)
        # the dictionary builder reports and skips
        for k in range(3):
            a = [r.choice(good['words']) for _ in range(k)]
            a.insert(r.randrange(len(a) + 1), r.choice([none, nodir]))
            add('make_trie_dictionary', a, 'skip', 'missing word file')
        # wrong numbers of arguments
        if n < 3:
            i, t, g = good['image'][0], good['text'][0], good['glyphs'][0]
            for tool in names:
                add(tool, [], FAIL, 'no argument')
            for a in ([i], [i, t], [i, t, 'f', i], [i, t, 'f', i, t], ['-l', '100'], ['-l'], ['-l', '100', i], ['-l', '100', i, t], ['-l', '100', i, t, 'f', i]):
                add('write_glyphs', a, FAIL, '%d arguments' % len(a))
            for a in (['-l'], ['-l', '100']):
                add('show_glyphs', a, FAIL, '%d arguments' % len(a))
            add('write_datas', [g, g], FAIL, '2 arguments')
            for a in ([g], [g, good['datas'][0]]):
                add('ocr2_extract_text', a, FAIL, '%d arguments' % len(a))
            # empty and unrelated databases
            add('ocr2_extract_text', [empty, good['datas'][0], i], FAIL, 'empty glyph file')
            add('ocr2_extract_text', [garbage, good['datas'][0], i], FAIL, 'garbage glyph file')
            add('ocr2_extract_text', [g, put('other', models.datas_text([dbgen.features(db[0][0])] * 3)), i], FAIL, 'features of another database')
            if n == 0:
                # databases of hundreds of kilobytes, damaged near their end
                many = [db[k % len(db)] for k in range(r.choice([600, 1100]))]
                bg, bd = dbgen.text(many).encode() * (1 + 300000 // len(dbgen.text(many))), models.datas_text([dbgen.features(i) for i, _ in many]).encode()
                bd = models.datas_text([dbgen.features(i) for i, _ in many] * (1 + 300000 // len(bd))).encode()
                bw = sorted({'%s%06d' % (chr(97 + k % 26), k * 7919 % 1000000) for k in range(9000)})
                bt = run([exe['make_trie_dictionary'], put('bw', '\n'.join(bw))], env=san_env()).out
                oc = [g, good['datas'][0], i, good['infos'][0]]
                add('ocr2_extract_text', oc + [put('bt', bt)], OK, 'big dictionary')
                for k in range(6):
                    cut = lambda b: b[:b.rindex(b' ', 0, len(b) - r.choice([3, 100, 5000, len(b) // 3]))]
                    add('ocr2_extract_text', oc + [put('bt%d' % k, cut(bt))], FAIL, 'big dictionary cut')
                    add('ocr2_extract_text', oc + [put('bu%d' % k, bt + b'zz')], FAIL, 'big dictionary followed by something else')
                    add('ocr2_extract_text', [put('bg', bg), put('bd%d' % k, cut(bd)), i], FAIL, 'big feature table cut')
                    for tool in ('normalize_glyphs', 'write_datas'):
                        add(tool, [put('bh', bg + b'hello world\nzz')], FAIL, 'big glyph file followed by something else')
                    add('ocr2_extract_text', [put('bh', bg + b'hello world\nzz'), put('bd', bd), i], FAIL, 'big glyph file followed by something else')
            add('normalize_glyphs', [empty], OK, 'empty glyph file')
            add('write_datas', [empty], OK, 'empty glyph file')
    rs = run_many([(j[0], b'', j[1]) for j in jobs])
    for (argv, d, want, why), (res,) in zip(jobs, rs):
        tool = os.path.basename(argv[0])
        rp = 'cd %s; %s\n(%s; expected: %s)\nfiles: %s\nexit %d\nstdout:\n%s\nstderr:\n%s' % (
            d, ' '.join(repr(a) for a in argv), why, want, {f: open(os.path.join(d, f), 'rb').read().hex()[:3000] for f in sorted(os.listdir(d))},
            res.rc, res.out.decode('latin1')[-1500:], res.err.decode('latin1')[-1500:])
        chk.eval((tool, why, tuple(argv[1:])), want == FAIL)
        chk.count('runs_expected_to_' + want)
        if tool_fault(chk, tool, res, rp):
            continue
        if want == FAIL:
            if res.rc == 0:
                chk.violation('exit:' + tool, '%s exits with zero although %s' % (tool, why), rp)
            elif not res.err.strip():
                chk.violation('silent:' + tool, '%s fails without a message although %s' % (tool, why), rp)
            else:
                chk.sample('%s, %s: exit %d, %r' % (tool, why, res.rc, res.err[-60:].decode('latin1')))
        elif want in (OK, 'skip'):
            if res.rc:
                chk.violation('failed:' + tool, '%s fails (exit %d) on a valid run (%s)' % (tool, res.rc, why), rp)
            elif want == 'skip' and not res.err.strip():
                chk.violation('silent:' + tool, '%s does not report a missing file' % tool, rp)
    return chk.finish()
