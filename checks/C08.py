from ppv import *
from tools import *
import models, gen


LONG = ['y' * 15, 'y' * 16, 'é' * 8, 'z' * 17, '€' * 11, 'w' * 63, 'w' * 64, 'w' * 65, 'q' * 255, 'q' * 256, 'q' * 257, 'ж' * 600, 'k' * 5000]


def token(r):
    return r.choice(LONG) if r.random() < .04 else r.choice(WORDS)


def line_image(r, long=False):
    for _ in range(20):
        i = gen.text_line(r, 3000, 10, 400) if long else gen.text_line(r, 70, 14)
        if i[0]:
            return i


def main():
    chk = Check('C08', 'runs of the learning tool on 1..4 image/transcription/font triples: matching, missing and surplus tokens, '
                'multi-byte tokens, tokens over several lines, blank images, luminance options, missing files; and of the '
                'glyph listing tool on the same images; non-trivial = at least two characters')
    exe = tools('write_glyphs', 'show_glyphs')
    r = chk.rng
    runs = []
    for n in range(chk.scale(350, 20000)):
        d = os.path.join(chk.scratch, 'r%d' % n)
        os.mkdir(d)
        k = r.choice([1, 1, 1, 2, 3, 4]) if n % 40 else r.choice([8, 17, 40])
        lum = r.choice([None, None, 100, 128, 150]) if n % 12 else r.choice([0, 0, 1, 2, 254, 255, 256, 257, 300, 384, 400, 1000, 65664, 4294967295])
        argv = ['-l', r.choice([str(lum), str(lum), '0%d' % lum, '%05d' % lum, '+%d' % lum, ' %d' % lum])] if lum is not None else []
        out, fail, shows, shown = '', None, [], ''
        wrong = r.choice(['', '', '', '', 'more', 'less', 'noimg', 'notxt', 'badimg', 'none'])
        at = r.randrange(k)
        for t in range(k):
            img = line_image(r, n % 70 == 0)
            if n % 90 == 5 and t == 0:    # a character of more pixels than 16 bits count
                img = gen.noise(r, *r.choice([(300, 230), (1000, 70), (66, 1010)]), .8)
            kind = r.choice('44661')
            level = 128 if lum is None else lum
            data = pnm_of(img, kind, r, level if 0 < level < 256 else 128)
            if kind == '6' and not 0 < level < 256:
                # above the highest grey level a colour picture has no letter, at level 0 it is one
                img = (img[0], img[1], 'x-'[level > 0] * len(img[2]))
                chk.count('pictures_beyond_the_grey_levels')
            if n % 5 == 2:                # tall characters of the full height, one behind the other
                h, a, cols = r.choice([12, 33, 40, 70]), r.randint(2, 7), []
                for _q in range(r.randint(2, 6)):
                    cols += [range(a + 3, h)] + [range(r.randint(0, a), h)] * r.randint(1, 4) + [range(0, a + 1)]
                    cols += [()] * r.choice([0, 0, 1, 3])
                img = (len(cols), h, ''.join('x' if y in c else '-' for y in range(h) for c in cols))
                data = pnm_of(img, kind, r, level if 0 < level < 256 else 128)
                if kind == '6' and not 0 < level < 256:
                    img = (img[0], img[1], 'x-'[level > 0] * len(img[2]))
                chk.count('pictures_of_tall_characters')
            bx = models.boxes(img)
            toks = [token(r) for _ in bx]
            w = wrong if t == at else ''
            if w == 'more':
                toks += [r.choice(WORDS) for _ in range(r.randint(1, 2))]
            elif w == 'less' and toks:
                toks = toks[:-r.randint(1, len(toks))]
            elif w == 'none':
                toks = []
            ip, tp = os.path.join(d, 'i%d' % t), os.path.join(d, 't%d' % t)
            if w == 'badimg':
                data = data[:-1] if data[1:2] != b'1' else data[:-2]
            if w != 'noimg':
                open(ip, 'wb').write(data)
            if w != 'notxt':
                sep = r.choice([' ', '\n', '\t', ' \n '])
                open(tp, 'w').write(r.choice(['', ' ', '\n']) + sep.join(toks) + r.choice(['', '\n', ' ']))
            font = r.choice(FONTS) if r.random() < .97 else r.choice(LONG)
            if t == 0 and font == '-l':
                font = 'f'
            argv += [ip, tp, font]
            if fail is None:
                if w in ('noimg', 'notxt', 'badimg') or len(toks) != len(bx):
                    fail = w
                # of the failing triple, only correctly labelled records may be written before the failure
                if w not in ('noimg', 'notxt', 'badimg'):
                    for b, tok in zip(bx, toks):
                        out += glyph_text(models.section(img, *b), [(tok, font, 0xffffffff)])
            if w not in ('noimg', 'badimg'):
                shows.append(ip)
                shown += ''.join(models.show(models.section(img, *b)) + '\n' for b in bx)
        runs.append((d, argv, out, fail, shows, shown, argv[:2] if lum is not None else []))
    cmds = [([exe['write_glyphs']] + q[1], b'', q[0]) for q in runs]
    cmds += [([exe['show_glyphs']] + q[6] + q[4], b'', q[0]) for q in runs if q[4]]
    expect = [('w',) + q for q in runs] + [('s',) + q for q in runs if q[4]]
    for e, (res,), cmd in zip(expect, run_many(cmds), cmds):
        kind, d, argv, out, fail, shows, shown, _ = e
        files = '\n'.join('%s: %s' % (f, open(os.path.join(d, f), 'rb').read().hex()) for f in sorted(os.listdir(d)))
        replay = 'argv: %s\nfiles (hex):\n%s\nexpected failure: %s\nexpected output:\n%s\nexit %d, output:\n%s\n%s' % (
            cmd[0], files, fail, out if kind == 'w' else shown, res.rc, res.out.decode('latin1'), res.err.decode('latin1')[-1500:])
        if tool_fault(chk, os.path.basename(cmd[0][0]), res, replay):
            continue
        if kind == 's':
            chk.eval(shown, shown.count('\n\n') > 1)
            chk.count('listing_runs')
            if res.rc or res.out.decode('latin1') != shown:
                chk.violation('listing', 'show_glyphs lists other characters', replay)
            continue
        chk.eval((out, fail), out.count('\n1\n') > 1 or bool(fail))
        chk.count('glyph_records_expected', out.count('\n1\n'))
        got = res.out.decode('utf8', 'replace')
        if fail is None:
            chk.count('runs_expected_to_succeed')
            chk.sample(out[:200])
            if res.rc:
                chk.violation('failed', 'learning failed on a valid transcription', replay)
            elif got != out:
                chk.violation('records', 'wrong glyph records', replay)
        else:
            chk.count('runs_expected_to_fail_' + fail)
            if res.rc == 0:
                chk.violation('mislabel:' + fail, 'learning succeeded although %s' % {
                    'more': 'the transcription has more tokens', 'less': 'the transcription has fewer tokens', 'none': 'the transcription is empty',
                    'noimg': 'the image is missing', 'notxt': 'the transcription is missing', 'badimg': 'the image is truncated'}[fail], replay)
            elif not out.encode().startswith(res.out):
                chk.violation('records', 'wrong glyph records before the failure', replay)
            elif not res.err:
                chk.violation('silent', 'learning failed without a message', replay)
    chk.need(chk.counts.get('glyph_records_expected', 0) > 300 or chk.violations, 'too few glyph records')
    return chk.finish()
