from ppv import *
from tools import *

EXPECTED = ' ## result: пpимeчaниe - Bloc-notes'


def main():
    chk = Check('C11', 'the documented learning procedure, run on a scratch tree over all the shipped font images, files compared byte for byte '
                'with the shipped ones (the glyph extraction again with sanitizers on a sample of the images); the sample screenshot '
                'recognised with the regenerated database; non-trivial = every database file')
    exe = tools('write_glyphs', 'normalize_glyphs', 'write_datas', 'ocr2_extract_text', flavour='rel')
    top = os.path.join(chk.scratch, 'tree')
    os.makedirs(os.path.join(top, 'resources', 'glyphs'))
    os.makedirs(os.path.join(top, 'resources', 'datas'))
    os.symlink(os.path.join(REPO, 'resources/fonts'), os.path.join(top, 'resources', 'fonts'))
    shutil.copy(os.path.join(REPO, 'learning'), top)
    res = run(['bash', os.path.join(top, 'learning'), exe['write_glyphs'], exe['normalize_glyphs'], exe['write_datas']], cpu=600, cwd=chk.scratch)
    rp = 'bash learning write_glyphs normalize_glyphs write_datas\nexit %d\n%s\n%s' % (res.rc, res.out.decode('latin1')[-2000:], res.err.decode('latin1')[-3000:])
    if res.timed_out:
        raise HarnessError('learning: watchdog')
    if res.rc:
        chk.violation('learning', 'the learning procedure failed (exit %d)' % res.rc, rp)
        return chk.finish()
    imgs = []
    for al in ('latin', 'cyrillic'):
        for d, _, fs in os.walk(os.path.join(REPO, 'resources/fonts', al)):
            imgs += [os.path.join(d, f) for f in fs if f.endswith(('.pnm', '.pbm'))]
    chk.count('font_images', len(imgs))
    for name, a, b in (('latin glyphs', 'glyphs/normalized-glyphs-latin.txt', 1), ('latin features', 'datas/latin.txt', 1),
                       ('cyrillic features', 'datas/cyrillic.txt', 1), ('combined features', 'datas/latin-cyrillic.txt', 1)):
        got = open(os.path.join(top, 'resources', a), 'rb').read()
        exp = open(os.path.join(REPO, 'resources', a), 'rb').read()
        chk.eval(name)
        chk.count('bytes_compared', len(exp))
        chk.sample('%s: %d bytes' % (a, len(got)))
        if got != exp:
            k = next((i for i, (x, y) in enumerate(zip(got, exp)) if x != y), min(len(got), len(exp)))
            chk.violation('database:' + a, '%s: %d bytes instead of %d, first difference at %d' % (name, len(got), len(exp), k),
                          rp + '\nregenerated ...%r\nshipped ...%r' % (got[max(0, k - 200):k + 200], exp[max(0, k - 200):k + 200]))
    g = os.path.join(top, 'resources/glyphs/normalized-glyphs-latin-cyrillic.txt')
    dt = os.path.join(top, 'resources/datas/latin-cyrillic.txt')
    shot = os.path.join(REPO, 'tests/cyrillic.negate.pnm')
    lines = os.path.join(REPO, 'resources/words_lines-latin-cyrillic.txt')
    san = tools('ocr2_extract_text', 'write_glyphs')
    for e, what in ((exe, 'release'), (san, 'sanitized')):
        r2 = run([e['ocr2_extract_text'], g, dt, shot, lines], cpu=200)
        rp2 = 'ocr2_extract_text (regenerated glyphs) (regenerated features) %s %s\nexit %d\n%s\n%s' % (
            shot, lines, r2.rc, r2.out.decode('utf8', 'replace')[-3000:], r2.err.decode('latin1')[-3000:])
        chk.eval('screenshot ' + what)
        if tool_fault(chk, 'ocr2_extract_text', r2, rp2):
            continue
        got = r2.out.decode('utf8', 'replace').split('\n')
        res_line = [l for l in got if l.startswith(' ## result')]
        chk.sample(str(res_line))
        if r2.rc or res_line != [EXPECTED] or 'count: 21' not in got or 'unrecognized_count: 0' not in got:
            chk.violation('screenshot', 'the sample screenshot reads %s (exit %d)' % (res_line, r2.rc), rp2)
    # the same extraction with sanitizers: same records, no report
    sample = chk.rng.sample(sorted(i for i in imgs if i.endswith('.pnm')), chk.scale(60, 1500))
    cmds = []
    for i in sample:
        letters = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(i))), 'letters')
        if not os.path.exists(letters):
            letters = os.path.join(os.path.dirname(i), '..', '..', 'letters')
        cmds.append(['-l', '100', i, letters, 'font'])
    a = run_many([([exe['write_glyphs']] + c, b'', None) for c in cmds])
    b = run_many([([san['write_glyphs']] + c, b'', None) for c in cmds])
    for c, (x,), (y,) in zip(cmds, a, b):
        chk.eval(('extraction', c[2]))
        chk.count('sanitized_extractions')
        rp3 = 'write_glyphs %s\nexit %d / %d\n%s' % (' '.join(c), x.rc, y.rc, y.err.decode('latin1')[-3000:])
        if not tool_fault(chk, 'write_glyphs', y, rp3) and (x.rc, x.out) != (y.rc, y.out):
            chk.violation('extraction', 'glyph extraction of %s differs between builds' % c[2], rp3)
    return chk.finish()
