"""Independent reference models (the oracles). Pure Python, written from the documented meaning of
each operation, not transcribed from the tree. An image is (w, h, s) with s of length w*h over 'x-'."""
import math

U32 = 1 << 32

# ------------------------------------------------------------------ image files
def pnm_header(b):
    """-> (type, w, h, max or None, data offset) or None when malformed."""
    if len(b) < 3 or b[0:1] != b'P' or not b'1' <= b[1:2] <= b'6' or b[2:3] != b'\n':
        return None
    t = b[1:2].decode()
    p = 3
    while p < len(b) and b[p:p + 1] == b'#':
        q = b.find(b'\n', p)
        p = len(b) if q < 0 else q + 1

    def num(p, sep):
        q = p
        while q < len(b) and 48 <= b[q] <= 57:
            q += 1
        if q == p or b[q:q + 1] != sep:
            return None
        v = int(b[p:q])
        return None if v >= U32 else (v, q + 1)
    r = num(p, b' ')
    if not r:
        return None
    w, p = r
    r = num(p, b'\n')
    if not r:
        return None
    h, p = r
    mx = None
    if t not in '14':
        r = num(p, b'\n')
        if not r:
            return None
        mx, p = r
    return t, w, h, mx, p


def p6_gray(r, g, b):
    def div(a):            # a/1024 to the nearest integer, halves down
        return (a + 511) // 1024
    return div(511 * r) + div(396 * g) + div(117 * b)


def decode(b, luminance=128):
    """-> (w, h, pixels) or None when the file must be rejected."""
    hd = pnm_header(b)
    if not hd:
        return None
    t, w, h, mx, p = hd
    n = w * h
    if n == 0 or n >= U32:
        return None
    d = b[p:]
    if t == '6':
        if len(d) != 3 * n:
            return None
        return w, h, ''.join('-' if p6_gray(d[3 * i], d[3 * i + 1], d[3 * i + 2]) < luminance else 'x' for i in range(n))
    if t == '4':
        rb = (w + 7) // 8
        if len(d) != rb * h:
            return None
        return w, h, ''.join('-' if d[y * rb + x // 8] >> (7 - x % 8) & 1 else 'x' for y in range(h) for x in range(w))
    if t in '13':
        d = d.replace(b' ', b'').replace(b'\n', b'')
        if len(d) != n or d.strip(b'01'):
            return None
        return w, h, d.decode().replace('0', '-').replace('1', 'x')
    return None


# ------------------------------------------------------------------ geometry
def rows(img):
    w, h, s = img
    return [s[y * w:(y + 1) * w] for y in range(h)]


def rot(img):
    """Quarter turn counter-clockwise: the rightmost column becomes the first row."""
    w, h, s = img
    r = rows(img)
    return h, w, ''.join(''.join(r[y][x] for y in range(h)) for x in range(w - 1, -1, -1))


def section(img, x, y, w, h):
    r = rows(img)
    return w, h, ''.join(r[j][x:x + w] for j in range(y, y + h))


def show(img):
    w, h, s = img
    e = ':' * (w + 2) + '\n'
    # stream formatting: the frame line has width w+3, the last two characters being ':' and newline
    return e + ''.join(':%s:\n' % r for r in rows(img)) + e


def order_key(img):
    return img[0], img[1], img[2]


# ------------------------------------------------------------------ segmentation
def boxes(img):
    w, h, s = img
    r = rows(img)
    ink = [any(r[y][x] == 'x' for y in range(h)) for x in range(w)]

    def touch(x):      # a letter pixel of column x touches one of column x+1
        return any(r[y][x] == 'x' and any(0 <= yy < h and r[yy][x + 1] == 'x' for yy in (y - 1, y, y + 1))
                   for y in range(h))
    res, x = [], 0
    while x < w:
        if not ink[x]:
            x += 1
            continue
        e = x
        while e + 1 < w and touch(e):
            e += 1
        ys = [y for y in range(h) if 'x' in r[y][x:e + 1]]
        res.append((x, ys[0], e - x + 1, ys[-1] - ys[0] + 1))
        x = e + 1
    return res


# ------------------------------------------------------------------ features
def _ink_rows(img):
    return [r.count('x') for r in rows(img)]


def _halves(h):
    """row indexes of the upper and the lower half, an odd middle row belonging to neither"""
    k = h // 2
    return range(0, k), range(h - k, h)


def _balance(t, b):
    s = t + b
    return (2 * t) * 100 // s if s else 100


def f_hdirection(img):
    n = _ink_rows(img)
    up, lo = _halves(img[1])
    return _balance(sum(n[y] for y in up), sum(n[y] for y in lo))


def _half_weights(h):
    """distance of each row to the middle: k for the outermost row, 1 for the one next to the middle"""
    k = h // 2
    d = {}
    up, lo = _halves(h)
    for i, y in enumerate(up):
        d[y] = k - i
    for i, y in enumerate(lo):
        d[y] = i + 1
    return d, up, lo


def f_hgravity(img):
    n = _ink_rows(img)
    d, up, lo = _half_weights(img[1])
    return _balance(sum(n[y] * d[y] for y in up), sum(n[y] * d[y] for y in lo))


def f_hdirection2(img):
    w, h, _ = img
    k = h // 2
    if not k:
        return 50
    n = _ink_rows(img)
    up, lo = _halves(h)
    area = k * w
    return (area + sum(n[y] for y in up) - sum(n[y] for y in lo)) * 100 // (2 * area)


def f_hgravity2(img):
    w, h, _ = img
    k = h // 2
    if not k:
        return 50
    n = _ink_rows(img)
    d, up, lo = _half_weights(h)
    area = k * (k + 1) // 2 * w
    return (area + sum(n[y] * d[y] for y in up) - sum(n[y] * d[y] for y in lo)) * 100 // (2 * area)


def _triangle(img):
    """The two centred triangles: at the i-th row from the outside the span is the whole width divided
    by (i+1) (centred, rounded outwards as integer halves). -> [(row, outside rank i, x0, x1, upper?)]"""
    w, h, _ = img
    up, lo = _halves(h)
    out = []
    for i, y in enumerate(up):
        m = w // 2 - w // (i + 1) // 2
        out.append((y, i, m, w - m, True))
    for i, y in enumerate(lo):
        i = len(lo) - 1 - i
        m = w // 2 - w // (i + 1) // 2
        out.append((y, i, m, w - m, False))
    return out


def _tri_sums(img, weighted):
    r = rows(img)
    k = img[1] // 2
    t = b = area = 0
    for y, i, x0, x1, upper in _triangle(img):
        c = (k - i) if weighted else 1
        v = r[y][x0:x1].count('x') * c
        if upper:
            t += v
            area += (x1 - x0) * c
        else:
            b += v
    return t, b, area * 2


def f_dvdirection(img):
    t, b, _ = _tri_sums(img, False)
    return _balance(t, b)


def f_dvdirection2(img):
    t, b, area = _tri_sums(img, False)
    return 2 * t * 100 // area if area else 50


def f_dvgravity(img):
    t, b, _ = _tri_sums(img, True)
    return _balance(t, b)


def f_dvgravity2(img):
    t, b, area = _tri_sums(img, True)
    return 2 * t * 100 // area if area else 50


def f_dzdensity(img):
    """density of the band around the main diagonal: |x/w - y/h| within a third (row y spans
    ceil((y+1)w/h - w/3) .. floor(y*w/h + w/3))"""
    w, h, _ = img
    if w < 3 or h < 3:
        return 0
    r = rows(img)
    n = area = 0
    for y in range(h):
        x0 = max(0, -((-(3 * w * (y + 1) - w * h)) // (3 * h)))
        x1 = min(w, (3 * w * y + w * h) // (3 * h))
        n += r[y][x0:x1].count('x')
        area += x1 - x0
    return n * 100 // area


def f_density(img):
    return img[2].count('x') * 100 // (img[0] * img[1])


def f_proportionality(img):
    return img[0] * 100 // (img[0] + img[1])


def f_hbar(img):
    n, prev = 0, False
    for r in rows(img):
        full = '-' not in r and set(r) == {'x'}
        if full and not prev:
            n += 1
        prev = full
    return n


def _runs(bits):
    return int(bits[0]), 1 + sum(1 for a, b in zip(bits, bits[1:]) if a != b)


def f_alternations(img):
    def row(img, y):
        return _runs([c == 'x' for c in rows(img)[y]])

    def band(img, y, n):
        r = rows(img)[y:y + n]
        return _runs([any(q[x] == 'x' for q in r) for x in range(img[0])])
    w, h, _ = img
    out = [(0, 0) if h < 2 else row(img, (h - 2) // 3), row(img, (2 * h - 1) // 3),
           band(img, 0, h // 3), band(img, h - h // 3, h // 3)]
    i9 = rot(img)
    h9 = i9[1]
    out += [row(i9, (h9 - 1) // 2), band(i9, h9 - h9 // 3, h9 // 3), band(i9, 0, h9 // 3)]
    return out


def regions(img):
    """4-connected background regions in order of their first pixel: list of sets of (x, y)."""
    w, h, s = img
    seen = [c == 'x' for c in s]
    out = []
    for i in range(w * h):
        if seen[i]:
            continue
        seen[i] = True
        st, reg = [i], []
        while st:
            k = st.pop()
            reg.append(k)
            x, y = k % w, k // w
            for xx, yy in ((x - 1, y), (x + 1, y), (x, y - 1), (x, y + 1)):
                if 0 <= xx < w and 0 <= yy < h and not seen[yy * w + xx]:
                    seen[yy * w + xx] = True
                    st.append(yy * w + xx)
        out.append(reg)
    return out


def region_borders(img):
    """per region: how many of its pixels lie on the top, right, bottom, left border"""
    w, h, _ = img
    out = []
    for reg in regions(img):
        t = sum(1 for k in reg if k // w == 0)
        r = sum(1 for k in reg if k % w == w - 1)
        b = sum(1 for k in reg if k // w == h - 1)
        l = sum(1 for k in reg if k % w == 0)
        out.append((t, r, b, l))
    return out


def f_zone(img):
    w, h, s = img
    rb = region_borders(img)
    return [int(s[0] == 'x'), int(s[-1] == 'x')] + [sum(1 for q in rb if q[i]) for i in range(4)] + \
        [sum(1 for q in rb if not any(q))]


def f_proportionality_zone(img):
    v = [next(c for c in q if c) for q in region_borders(img) if any(q)]
    a = sum(v)
    return sorted(x * 100 // a for x in v)


SIMPLE = ['dvgravity290', 'dvdirection290', 'dzdensity', 'dzdensity90', 'dvdirection2', 'dvgravity2',
          'hdirection', 'hdirection90', 'hdirection2', 'hdirection290', 'hgravity', 'hgravity90',
          'hgravity2', 'hgravity290', 'proportionality', 'dvdirection', 'dvdirection90',
          'dvgravity', 'dvgravity90', 'density']
ALL = SIMPLE + ['hbar', 'hbar90', 'alternations', 'zone', 'proportionality_zone']
TWO = ['dzdensity', 'hdirection', 'hdirection2', 'hgravity', 'hgravity2', 'dvdirection',
       'dvdirection2', 'dvgravity', 'dvgravity2', 'hbar']
ONE = ['proportionality', 'density', 'alternations', 'zone', 'proportionality_zone']
RANGE = {n: 100 for n in ALL}
for _n in ('hdirection', 'hgravity', 'dvdirection', 'dvgravity'):
    RANGE[_n] = RANGE[_n + '90'] = 200


def features(img):
    i9 = rot(img)
    g = globals()
    d = {}
    for n in TWO:
        d[n] = g['f_' + n](img)
        d[n + '90'] = g['f_' + n](i9)
    for n in ONE:
        d[n] = g['f_' + n](img)
    return d


def fmt_feature(name, v):
    if name == 'alternations':
        return ','.join('%d:%d' % p for p in v)
    if name == 'zone':
        return ','.join(map(str, v))
    if name == 'proportionality_zone':
        return '[' + ','.join(map(str, v)) + ']'
    return str(v)


def datas_text(feats):
    """The feature table file for a list of feature dicts."""
    out = ['%d\n' % len(feats)]
    for n in ALL:
        l = ''
        for f in feats:
            v = f[n]
            if n == 'alternations':
                l += ''.join('%d %d ' % p for p in v)
            elif n == 'zone':
                l += ''.join('%d ' % x for x in v)
            elif n == 'proportionality_zone':
                l += '%d ' % len(v) + ''.join('%d ' % x for x in v)
            else:
                l += '%d ' % v
        out.append(l + '\n')
    return ''.join(out)


# ------------------------------------------------------------------ similarities
def sim_interval(a, b, n):
    """score in hundredths"""
    return 100 - abs(a - b) * 100 // n


def sim_array(a, b):
    return sum(1 for x, y in zip(a, b) if x == y) * 100 // len(a)


def sim_pz(a, b):
    if len(a) != len(b):
        return 0
    if not a:
        return 100
    t = sum((x * 100 // (x + y)) if x + y else 50 for x, y in zip(a, b)) // len(a)
    return 100 - abs(t - 50)


def similarity(name, a, b):
    if name in ('hbar', 'hbar90'):
        return 100 if a == b else 0
    if name in ('alternations', 'zone'):
        return sim_array(a, b)
    if name == 'proportionality_zone':
        return sim_pz(a, b)
    return sim_interval(a, b, RANGE[name])
