from ppv import *
import models, pnm


def main():
    chk = Check('C02', 'every truncation of small valid files of each kind, header/data mutations, hostile dimensions, '
                'random bytes, unreadable paths, injected EIO / premature EOF / EINTR; non-trivial = not a well-formed file')
    exe = build(probe_target('probe_image', '-Wl,--wrap=read'))['probe_image']
    r = chk.rng
    lines, want = [], {}

    def add(data, ops='-', path=None):
        p = path
        if p is None:
            p = os.path.join(chk.scratch, 'f%d' % len(want))
            with open(p, 'wb') as f:
                f.write(data)
        l = 'load %s - %s' % (p.encode().hex(), ops)
        want[l] = (data, ops, path)
        lines.append(l)
    bases = [b'P4\n9 3\n' + bytes(range(1, 7)), b'P6\n# c\n2 2\n255\n' + bytes(range(100, 112)), b'P1\n3 2\n101010',
             b'P3\n2 2\n1\n1 0\n0 1\n', b'P4\n#\n8 1\n\xff', b'P1\n# x\n1 1\n1\n', b'P6\n1 1\n255\n\xff\xff\xff']
    for b in bases:
        for n in range(len(b) + 1):
            add(b[:n])
        for i in range(len(b)):
            for v in (0, 32, 10, 35, 48, 49, 50, 255, b[i] ^ 1, b[i] + 1 & 255):
                add(b[:i] + bytes([v]) + b[i + 1:])
        for x in (b'\0', b'0', b'1', b'\n', b' ', b'00', b'\n\n0'):
            add(b + x)
        for ops in ('e', 'i', 'se', 'fe', '0', 's0', 'h0', 'ss0', 'hh0', 'shs0', 'sssssssssss0'):
            add(b, ops)
        for n in range(1, len(b)):        # the file ends after its n-th byte although it was longer when opened
            add(b, 's' * n + '0')
    for w in pnm.HOSTILE_NUM + [b'1', b'7', b'8']:
        for h in pnm.HOSTILE_NUM + [b'1', b'2']:
            # a file may declare an area the library legitimately reserves memory for (up to 4 GB): bound it
            if w.isdigit() and h.isdigit() and 3 * 10 ** 7 < int(w) * int(h) < 1 << 32:
                continue
            for t in b'146':
                head = b'P%c\n%s %s\n' % (t, w, h) + (b'255\n' if t == 54 else b'')
                add(head)
                add(head + b'1' * 24)
    for p in ('/nonexistent/x', chk.scratch, '', os.path.join(chk.scratch, 'nodir', 'f')):
        add(None, path=p)
    for i in range(chk.scale(4000, 600000)):
        b = pnm.damaged(r)
        hd = models.pnm_header(b)
        if not (hd and 3 * 10 ** 7 < hd[1] * hd[2] < 1 << 32):
            add(b)

    def oracle(line, obs):
        data, ops, path = want[line]
        got = obs[0]
        if path is not None:
            chk.count('unreadable_paths')
            exp, free = None, False
        else:
            exp, free = models.decode(data), False
            if exp is not None and data[1:2] in b'36' and models.pnm_header(data)[3] != 255:
                free = True              # the maximum value field is not constrained: either outcome
            if 'e' in ops:
                exp = None
                chk.count('read_errors_injected')
            if 'i' in ops:               # an interrupted read may be retried or reported
                free = True
                chk.count('read_errors_injected')
            if '0' in ops:
                chk.count('premature_eof_injected')
                k = 0                     # what a reader that stops at the premature end has seen
                rest = len(data)
                for o in ops:
                    if o == '0':
                        break
                    n = 1 if o == 's' else (rest // 2 if rest > 1 else rest)
                    k += n
                    rest -= n
                if rest > 0:
                    exp2 = models.decode(data[:k])
                    exp = exp2
        if exp is None:
            chk.count('must_reject')
        else:
            chk.count('well_formed_after_mutation')
        e = None if exp is None else 'ok %d %d %s' % exp
        if got.startswith('exc'):
            chk.violation('exception', 'error of another kind', '%r\n%s' % (data, got))
        elif got.startswith('ok') and e != got:
            chk.violation('accepted' if e is None else 'misread', 'file %r reads=%s %s' % (
                (data or path)[:60], ops, 'accepted although malformed' if e is None else 'misread'),
                'file (hex): %s\npath: %s\nread plan: %s\nexpected: %s\ngot: %s' % (data.hex() if data is not None else '', path, ops, e or 'error', got[:2000]))
        elif got.startswith('err') and e is not None and not free:
            chk.violation('rejected', 'well-formed file %r rejected: %s' % (data[:60], bytes.fromhex(got[4:])),
                          'file (hex): %s\nread plan: %s' % (data.hex(), ops))
        if got.startswith('err'):
            if got == 'err _':
                chk.violation('silent', 'rejected without a message', repr(data))
            if exp is None and data is not None:
                chk.sample('%r -> %s' % (data[:40], bytes.fromhex(got[4:])))
    res = run_cases_parallel(exe, lines, rss_mb=2500)
    # the two widths whose padded row size does not fit 32 bits, on their own (4 GB each)
    keep, lines[:] = list(lines), []
    for w in (4294967289, 4294967295):
        add(b'P4\n%d 1\n' % w)
        add(b'P4\n%d 1\n' % w + b'1' * 24)
    # pixel counts of which three times is just above 2^32 or 2^33, with the data a 32 bit product would ask for
    for n, k in ((0x55555556, 2), (0x55555557, 5), (0xaaaaaaab, 1)):
        for data in (b'', bytes(range(65, 65 + k))):
            add(b'P6\n%d 1\n255\n' % n + data)
    # an area that wraps is refused before anything is reserved
    for w, h in ((65536, 65536), (65537, 65536), (4294967295, 4294967295), (1 << 31, 2), ((1 << 31) + 1, 2), (858993460, 5), (65537, 65537)):
        for t in b'146':
            for n in {0, 1, w * h % (1 << 32), w * h * 3 % (1 << 32), (w + 7) // 8 * h % (1 << 32)}:
                if n < 1 << 20:
                    add(b'P%c\n%d %d\n' % (t, w, h) + (b'255\n' if t == 54 else b'') + b'1' * n)
    big = list(lines)
    lines[:] = keep + big
    res += run_cases_parallel(exe, big, fills=(None, None), shards=1, rss_mb=14000)
    judge(chk, lines, res, oracle, 'decode', key=lambda l: want[l],
          nontrivial=lambda l: want[l][0] is None or models.decode(want[l][0]) is None or want[l][1] != '-')
    chk.need(chk.counts.get('must_reject', 0) > 500 or chk.violations, 'too few malformed files')
    return chk.finish()
