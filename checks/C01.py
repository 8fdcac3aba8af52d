from ppv import *
import models, pnm


def main():
    chk = Check('C01', 'generated well-formed P1/P3/P4/P6 files (random size incl. 1-pixel and non-multiple-of-8 widths, '
                'comment layout, ASCII whitespace layout, samples concentrated at the luminance threshold), thresholds over '
                '0..300 and the default, each also with partial reads injected; distinct = distinct file+threshold, '
                'non-trivial = decoded picture has both letter and background pixels or is 1 pixel')
    exe = build(probe_target('probe_image', '-Wl,--wrap=read'))['probe_image']
    r = chk.rng
    lines, want = [], []

    def add(data, lum, ops):
        p = os.path.join(chk.scratch, 'f%d' % len(lines))
        with open(p, 'wb') as f:
            f.write(data)
        lines.append('load %s %s %s' % (p.encode().hex(), '-' if lum is None else lum, ops))
        want.append((data, lum, ops))
    # every grey level against every relation to the threshold, exactly
    for lum in [0, 1, 2, 99, 100, 101, 127, 128, 129, 200, 254, 255, 256, 300, None]:
        px = b''
        for v in range(256):
            px += bytes((v, v, v))
        for _ in range(256):
            px += bytes(pnm.color_for_gray(r, min(255, max(0, (128 if lum is None else lum) + r.choice([-1, 0, 1])))))
        add(b'P6\n64 8\n255\n' + px, lum, '-')
    # each channel alone, all values
    for ch in range(3):
        px = b''.join(bytes(v if c == ch else 0 for c in range(3)) for v in range(256))
        for lum in (20, 60, 90, 110):
            add(b'P6\n256 1\n255\n' + px, lum, '-')
        px = b''.join(bytes(v if c == ch else 255 for c in range(3)) for v in range(256))
        for lum in (140, 180, 200, 230, 250):
            add(b'P6\n16 16\n255\n' + px, lum, '-')
    # every byte value in a 1..8 pixel wide bitmap row
    for w in range(1, 18):
        rb = (w + 7) // 8
        add(b'P4\n%d 256\n' % w + b''.join(bytes([v] * rb) for v in range(256)), None, '-')
    # the smallest files
    for b in (b'P4\n1 1\n\x80', b'P4\n1 1\n\x00', b'P4\n8 1\n\x5a', b'P1\n1 1\n1', b'P1\n1 1\n0', b'P1\n2 1\n10\n',
              b'P3\n1 1\n1\n1', b'P6\n1 1\n255\nabc', b'P4\n1 1\n#', b'P4\n9 1\n\x80\x80', b'P1\n3 1\n 1 0 1 '):
        add(b, None, '-')
    # sizes around the usual block and counter widths, long comments
    for w, h in [(4095 * 8, 1), (4096, 8), (4097, 8), (65535, 1), (65536, 1), (65537, 2), (1, 65535), (1, 65536), (2, 65537), (255, 255), (256, 256),
                 (257, 300), (1000, 700), (70001, 9)]:
        bits = r.getrandbits(w * h) | 1
        p4 = r.getrandbits((w + 7) // 8 * 8 * h).to_bytes((w + 7) // 8 * h, 'big')
        add(b'P4\n%d %d\n' % (w, h) + p4, None, r.choice(['-', 'h' * 12, 'ffs' * 3]))
        s = format(bits, '0%db' % (w * h)).encode()
        add(b'P1\n%d %d\n' % (w, h) + b'\n'.join(s[k:k + 70] for k in range(0, len(s), 70)) + b'\n', None, r.choice(['-', 'hhsh']))
        if w * h < 80000:
            add(b'P6\n%d %d\n255\n' % (w, h) + r.getrandbits(24 * w * h).to_bytes(3 * w * h, 'big'), r.choice([None, r.randrange(60, 200)]), r.choice(['-', 'hshsh']))
        # all around the threshold, which is even and odd
        for lum in (r.randrange(40, 200) * 2 % 256, r.randrange(20, 100) * 2 + 1) if w * h < 90000 else ():
            some = [bytes(pnm.color_for_gray(r, min(255, max(0, lum + k)))) for k in (-2, -1, -1, 0, 0, 1)]
            add(b'P6\n%d %d\n255\n' % (w, h) + b''.join(r.choices(some, k=w * h)), lum, '-')
    for n in (1, 70, 71, 127, 255, 256, 1000, 4090, 4096, 5000, 70000):
        add(b'P4\n#' + r.choice([b'c', b'\0', b'\xff', b'#', b'\r']) * n + b'\n9 2\n' + bytes(r.randrange(256) for _ in range(4)), None, r.choice(['-', 'hhh', 'ssss']))
        add(b'P6\n# ' + b'1 ' * (n // 2) + b'\n2 2\n255\n' + bytes(r.randrange(256) for _ in range(12)), None, '-')
    for n in (2, 10, 300, 5000):
        add(b'P1\n' + b'# x\n' * n + b'3 2\n101010', None, '-')
    # the threshold is of no matter to black and white files
    for lum in (0, 1, 2, 48, 49, 50, 255, 256, 300, 4294967295):
        for f in (b'P1\n4 1\n0101', b'P3\n2 2\n1\n0 1\n1 0\n', b'P4\n9 2\n\x55\x80\xaa\x00'):
            add(f, lum, '-')
    for i in range(chk.scale(1500, 200000)):
        lum = r.choice([None, None, None, r.randrange(0, 301), r.randrange(90, 170)])
        data = pnm.valid(r, 128 if lum is None else lum)
        ops = '-' if r.random() < .5 else ''.join(r.choice('sshf') for _ in range(r.randint(1, 30)))
        add(data, lum, ops)
    res = run_cases_parallel(exe, lines)
    it = iter(want)

    def oracle(line, obs):
        data, lum, ops = want[index[line]]
        exp = models.decode(data, 128 if lum is None else lum)
        if exp is None:
            raise HarnessError('generator made an invalid file: %r' % data[:80])
        chk.count('kind_P' + chr(data[1]))
        if ops != '-':
            chk.count('with_partial_reads')
        e = 'ok %d %d %s' % exp
        if obs[0] != e:
            got = obs[0]
            why = 'rejected: ' + bytes.fromhex(got[4:].replace('_', '')).decode('latin1') if got.startswith('err') else 'wrong picture'
            chk.violation('P%c:%s' % (data[1], why[:60]), 'well-formed file %r threshold=%s reads=%s: %s' % (data[:60], lum, ops, why),
                          'file (hex): %s\nthreshold: %s\nread plan: %s\nexpected: %s\ngot: %s' % (data.hex(), lum, ops, e, got))
        if 'x' in exp[2] and '-' in exp[2] or len(exp[2]) == 1:
            chk.count('two_coloured_or_single')
            chk.sample('%r thr=%s -> %dx%d %s' % (data[:40], lum, exp[0], exp[1], exp[2][:40]))
    index = {l: i for i, l in enumerate(lines)}
    judge(chk, lines, res, oracle, 'decode', key=lambda l: want[index[l]][:2],
          nontrivial=lambda l: len(set(want[index[l]][0][-8:])) > 1 or len(want[index[l]][0]) < 12)
    for k in '1346':
        chk.need(chk.counts.get('kind_P' + k, 0) > 20 or chk.violations, 'too few P%s files decoded' % k)
    return chk.finish()
