"""Case generators."""
def noise(r, w, h, p):
    return w, h, ''.join('x' if r.random() < p else '-' for _ in range(w * h))


def strokes(r, w, h):
    """letter-like picture: a few straight strokes and arcs"""
    g = [['-'] * w for _ in range(h)]
    for _ in range(r.randint(1, 5)):
        x, y = r.randrange(w), r.randrange(h)
        dx, dy = r.choice([(1, 0), (0, 1), (1, 1), (1, -1), (-1, 1)])
        t = r.choice([1, 1, 2])
        for _ in range(r.randint(2, max(2, w + h))):
            for a in range(t):
                if 0 <= x + a < w and 0 <= y < h:
                    g[y][x + a] = 'x'
            x += dx; y += dy
            if not (0 <= x < w and 0 <= y < h):
                if r.random() < .5:
                    break
                dx, dy = r.choice([(1, 0), (-1, 0), (0, 1), (0, -1)])
                x = min(max(x, 0), w - 1); y = min(max(y, 0), h - 1)
    return w, h, ''.join(''.join(q) for q in g)


def structured(r, w, h):
    k = r.randrange(9)
    f = {0: lambda x, y: True, 1: lambda x, y: False, 2: lambda x, y: (x + y) % 2 == 0,
         3: lambda x, y: x % 2 == 0, 4: lambda x, y: y % 2 == 0, 5: lambda x, y: y < h // 2,
         6: lambda x, y: x < w // 2, 7: lambda x, y: x in (0, w - 1) or y in (0, h - 1),
         8: lambda x, y: (x * h) // w == y}[k]
    return w, h, ''.join('x' if f(x, y) else '-' for y in range(h) for x in range(w))


def image(r, maxw=24, maxh=24):
    k = r.random()
    if k < .12:
        w, h = r.choice([(1, r.randint(1, maxh)), (r.randint(1, maxw), 1), (r.randint(1, 3), r.randint(1, 3)),
                         (2, r.randint(1, maxh)), (r.randint(1, maxw), 2)])
    else:
        w, h = r.randint(1, maxw), r.randint(1, maxh)
    w, h = min(w, maxw), min(h, maxh)
    k = r.random()
    if k < .35:
        return noise(r, w, h, r.choice([.03, .1, .3, .5, .7, .9, .97]))
    if k < .55:
        return structured(r, w, h)
    i = strokes(r, w, h)
    if k > .9:
        s = list(i[2])
        for _ in range(r.randint(1, 3)):
            p = r.randrange(len(s)); s[p] = 'x' if s[p] == '-' else '-'
        i = (w, h, ''.join(s))
    return i


def text_line(r, maxw=60, maxh=16, n=None):
    """several letter-like pictures side by side, with gaps of 0..7 columns, possibly touching the borders"""
    h = r.randint(1, maxh)
    cols = [''] * h
    for _ in range(n or r.randint(0, 8)):
        g = r.choice([0, 0, 1, 1, 1, 2, 3, 5, 7])
        w = r.randint(1, 8)
        i = image(r, w, h)
        i = (i[0], i[1], i[2])
        gh = i[1]
        top = r.randint(0, h - gh)
        for y in range(h):
            row = i[2][(y - top) * i[0]:(y - top + 1) * i[0]] if top <= y < top + gh else '-' * i[0]
            cols[y] += '-' * g + row
        if len(cols[0]) > maxw:
            break
    t = r.choice([0, 0, 0, 1, 3])
    cols = [c + '-' * t for c in cols]
    if not cols[0]:
        cols = ['-' * 3 for _ in cols]
    return len(cols[0]), h, ''.join(cols)
