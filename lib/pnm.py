"""Generators of image files (valid and damaged)."""
from models import p6_gray

COMMENTS = [b'', b'', b'', b'# c\n', b'#\n', b'# a\n# b 1 2\n', b'#x\n#\n#P4 3 3\n', b'##\n', b'# 12 5\n']


def sizes(r, big=False):
    k = r.random()
    if k < .25:
        return r.randint(1, 3), r.randint(1, 3)
    if k < .5:
        return r.choice([1, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 64, 65]), r.randint(1, 6)
    if k < .6:
        return (1, r.randint(1, 60)) if r.random() < .5 else (r.randint(1, 120), 1)
    return r.randint(1, 40), r.randint(1, 20)


def color_for_gray(r, target):
    """a colour whose grey level is exactly target or next to it"""
    for _ in range(40):
        R, G, B = r.randrange(256), r.randrange(256), r.randrange(256)
        # adjust green then red
        for _ in range(6):
            d = target - p6_gray(R, G, B)
            if d == 0:
                return R, G, B
            R = min(255, max(0, R + 2 * d))
            d = target - p6_gray(R, G, B)
            G = min(255, max(0, G + (5 * d) // 2))
        if abs(target - p6_gray(R, G, B)) <= 1:
            return R, G, B
    return (target,) * 3


def valid(r, lum=128):
    t = r.choice('1346446')
    w, h = sizes(r)
    c = r.choice(COMMENTS)
    z = lambda v: (b'0' * r.choice([0, 0, 0, 0, 1, 3])) + str(v).encode()
    head = b'P' + t.encode() + b'\n' + c + z(w) + b' ' + z(h) + b'\n'
    n = w * h
    if t == '6':
        head += r.choice([b'255', b'255', b'255', b'0255']) + b'\n'
        mode = r.randrange(4)
        px = []
        for _ in range(n):
            if mode == 0:
                px += [r.randrange(256) for _ in range(3)]
            elif mode == 1:
                px += color_for_gray(r, min(255, max(0, lum + r.choice([-1, 0, 1]))))
            elif mode == 2:
                v = r.choice([0, 255, 127, 128, 129, 1, 254]); px += [v, v, v]
            else:
                px += [r.choice([0, 255]) for _ in range(3)]
        return head + bytes(px)
    if t == '4':
        rb = (w + 7) // 8
        m = r.randrange(4)
        f = {0: lambda: r.randrange(256), 1: lambda: 0, 2: lambda: 255, 3: lambda: r.choice([1, 128, 0x55, 0xaa, 254])}[m]
        return head + bytes(f() for _ in range(rb * h))
    if t == '3':
        head += r.choice([b'1', b'255', b'1', b'0']) + b'\n'
    seps = r.choice([[b''], [b' '], [b'', b' '], [b' ', b'\n', b''], [b'\n'], [b'  ', b'\n\n', b' \n ']])
    p = r.choice([.5, 0, 1, .1, .9])
    out = [head]
    if r.random() < .2:
        out.append(r.choice(seps))
    for i in range(n):
        out.append(b'1' if r.random() < p else b'0')
        if i + 1 < n:
            out.append(r.choice(seps))
    out.append(r.choice([b'', b'\n', b' ', b'\n\n', b' \n']))
    return b''.join(out)


HOSTILE_NUM = [b'0', b'-1', b'+1', b'', b'1.5', b' 1', b'4294967295', b'4294967296', b'4294967297', b'65536', b'65537',
               b'2147483648', b'2147483647', b'18446744073709551616', b'536870912', b'1e3', b'0x10', b'a',
               b'4294967289', b'1073741824', b'3000000000', b'99999']


def damaged(r):
    b = valid(r)
    k = r.randrange(12)
    if k == 0:
        return b[:r.randint(0, len(b))]
    if k == 1:
        return b + bytes(r.randrange(256) for _ in range(r.randint(1, 4)))
    if k == 2:
        return b + r.choice([b'0', b'1', b' ', b'\n', b'\0', b'1 1'])
    if k == 3:
        i = r.randrange(min(len(b), 24))
        return b[:i] + bytes([r.randrange(256)]) + b[i + 1:]
    if k == 4:
        i = r.randrange(len(b))
        return b[:i] + bytes([r.randrange(256)]) + b[i + 1:]
    if k == 5:
        i = r.randrange(min(len(b), 24))
        return b[:i] + b[i + r.randint(1, 2):]
    if k == 6:
        i = r.randrange(min(len(b), 24) + 1)
        return b[:i] + r.choice([b' ', b'\n', b'#', b'0', b'9', b'\t', b'\r', b'#\n', b'-', b'\0']) + b[i:]
    if k == 7:
        t = r.choice(b'1234567890Pp')
        return b[:1] + bytes([t]) + b[2:]
    if k in (8, 9):
        t = r.choice(['1', '3', '4', '6', '4', '6', '2', '5'])
        w, h = r.choice(HOSTILE_NUM + [b'1', b'8', b'9', b'3']), r.choice(HOSTILE_NUM + [b'1', b'2', b'5'])
        head = b'P' + t.encode() + b'\n' + r.choice(COMMENTS) + w + b' ' + h + b'\n'
        if t not in '14':
            head += r.choice([b'255\n', b'255\n', b'', b'x\n', b'4294967296\n'])
        return head + bytes(r.choice([48, 49, 0, 255, 32]) for _ in range(r.choice([0, 0, 1, 2, 8, 40])))
    if k == 10:
        return bytes(r.randrange(256) for _ in range(r.randint(0, 20)))
    return b'P' + r.choice([b'1', b'4', b'6', b'3']) + b'\n' + r.choice([b'#', b'# no end', b'#\n#', b'#\n' * 5, b'', b'1', b'1 ', b'1 1', b'1 1\n'])
