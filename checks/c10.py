"""Geometric operations on circular regions against a disc model."""
from mc.core import *
from mc.gridop import *
from mc.disc import *
from checks import c11

BOUNDS = {
    'quick': 'every centre and radius of circles wholly inside images up to 11x9 (1-bit to 21 wide) at all four depths, every partly or wholly outside '
             'centre within 3 pixels of the edge for the clipping operations, every destination of copies, every sequence of two transforms of one circle; '
             'circular colour adjustments (grey, brightness, threshold, gamma) at every centre to 3 pixels outside a 9x7 and an 8x8 image; discs of radius to 40 in an image of 83x85 and to 128 far from the origin of one of 309x299',
    'thorough': 'as quick with images to 17x13 and sequences of three transforms'}


def inside(r, x, y, dx, dy):
    """Right-open disc: the columns x-h..x+h-1 of each row."""
    h = rowhalf(r)[abs(dy)]
    return -h <= dx < h


def cells(r, x, y):
    for dy in range(-r, r + 1):
        h = rowhalf(r)[abs(dy)]
        for dx in range(-h, h):
            yield x + dx, y + dy


def in_img(img, x, y):
    return 0 <= x < img.w and 0 <= y < img.h


def m_invert(img, x, y, r):
    px = [q[:] for q in img.px]
    m = (1 << img.bits) - 1
    for dy in range(-r, r + 1):
        h = rowhalf(r)[abs(dy)]
        for dx in range(-h, h):
            if in_img(img, x + dx, y + dy):
                px[y + dy][x + dx] ^= m
    return px


def m_outline(img, x, y, r):
    px = [q[:] for q in img.px]
    for dy in range(-r, r + 1):
        if 0 <= y + dy < img.h:
            h = rowhalf(r)[abs(dy)]
            for X in range(max(x - h, 0), min(x + h, img.w - 1)):
                px[y + dy][X] = img.px[y + dy][X] ^ img.px[y + dy][X + 1]
    return px


def m_vert(img, x, y, r, mode, px0=None):
    src = px0 or img.px
    px = [q[:] for q in src]
    for X, Y in cells(r, x, y):
        dy = Y - y
        if mode == 'F' or (mode == 'T' and dy > 0) or (mode == 'B' and dy < 0):
            px[Y][X] = src[y - dy][X]
    return px


def m_hori(img, x, y, r, mode, px0=None):
    src = px0 or img.px
    px = [q[:] for q in src]
    for dx in range(-r, r + 1):
        for dy in range(-colhalf(r)[abs(dx)], colhalf(r)[abs(dx)] + 1):
            if mode == 'F' or (mode == 'L' and dx > 0) or (mode == 'R' and dx < 0):
                px[y + dy][x + dx] = src[y + dy][x - dx]
    return px


def m_flipxy(img, x, y, r):
    px = [q[:] for q in img.px]
    for b in range(-r, r + 1):
        h = rowhalf(r)[abs(b)]
        for a in range(-h, h + 1):
            px[y + b][x + a] = img.px[y - a][x + b]
    return px


def m_copy(img, x, y, r, nx, ny):
    px = [q[:] for q in img.px]
    for X, Y in cells(r, x, y):
        px[ny + Y - y][nx + X - x] = img.px[Y][X]
    return px


def m_erase(img, x, y, r, every, nth, pat):
    px = [q[:] for q in img.px]
    for X, Y in cells(r, x, y):
        if Y % every == nth:
            px[Y][X] = erase_px(img.bits, X, pat)
    return px


def erase_px(bits, x, pat):
    pat &= 255
    if bits == 24:
        return pat * 0x010101
    if bits == 8:
        return pat
    if bits == 4:
        return pat & 15 if x & 1 else pat >> 4
    return pat >> (7 - (x & 7)) & 1


def m_magnify(img, x, y, r, n):
    px = [q[:] for q in img.px]
    for X, Y in cells(r, x, y):
        px[Y][X] = img.px[(y * n + Y - y) // n][(x * n + X - x) // n]
    return px


VERT = {'flipvertcircregion': 'F', 'mirrortopincircregion': 'T', 'mirrorbottomincircregion': 'B'}
HORI = {'fliphoricircregion': 'F', 'mirrorleftincircregion': 'L', 'mirrorrightincircregion': 'R'}
BOTH = {'mirrortopleftincircregion': 'LT', 'mirrortoprightincircregion': 'RT', 'mirrorbottomleftincircregion': 'LB', 'mirrorbottomrightincircregion': 'RB'}


def sizes(tier):
    s = {1: [(11, 7), (19, 9), (8, 8), (16, 5), (32, 3)], 4: [(9, 7), (8, 8), (5, 6)], 8: [(9, 7), (6, 8), (8, 5)], 24: [(9, 7), (6, 8), (11, 9), (8, 5)]}
    if tier != 'quick':
        for b in s:
            s[b] += [(17, 13), (13, 15)]
    return s


def units(tier):
    u = []
    for bits in DEPTHS:
        for w, h in sizes(tier)[bits]:
            for k in ('clip', 'trans', 'copy', 'erase', 'lens'):
                u.append((k, bits, w, h))
        u.append(('buf', bits))
        u.append(('seq', bits))
        u += [('large', bits)] + [('far', bits, i) for i in range(3)]
    return u + [('adjust',) + v for v in c11.units(tier) if v[0] == 'circle' and v[1] != 'filter']


def circles(w, h):
    for x in range(w):
        for y in range(h):
            for r in range(min(x, y, w - 1 - x, h - 1 - y) + 1):
                yield x, y, r


def noop(ctx, c, name, args):
    from mc.core import bind
    apply_inplace(ctx, '%s|refused|%s' % (name, c.tag), c, getattr(bind(), name), args, c.img.px)


def vert8(name, bits):
    return bits in (8, 24)


def run_unit(unit, ctx, tier):
    B = bind()
    kind, bits = unit[:2]
    if kind == 'adjust':     # colour adjustments of a disc, judged as in C11
        c11.run_unit(unit[1:], ctx, tier)
    if kind in ('clip', 'trans', 'copy', 'erase', 'lens'):
        w, h = unit[2:]
        img = mkimg(w, h, bits)
        c = Case(img)
    if kind == 'clip':
        for x in list(range(-4, w + 4)) + [-90, -40, w + 30, w + 200]:
            for y in list(range(-4, h + 4)) + [-120, -30, h + 25, h + 300]:
                for r in range(0, 7 if w < 15 else 9):
                    sig = 'invertbitsincircregion|%s%s' % (c.tag, '' if fits(w, h, x, y, r) else '|clipped')
                    apply_inplace(ctx, sig, c, B.invertbitsincircregion, (x, y, r), m_invert(img, x, y, r))
                    sig = 'outlinecircregion|%s%s' % (c.tag, '' if fits(w, h, x, y, r) else '|clipped')
                    apply_inplace(ctx, sig, c, B.outlinecircregion, (x, y, r), m_outline(img, x, y, r))
                    ctx.trace()
                    ctx.state((bits, w, h, x, y, r))
        ctx.sample('invert and outline every circle of radius 0..6 centred in or near a %dx%d %d-bit image' % (w, h, bits))
    elif kind == 'trans':
        for x, y, r in circles(w, h):
            for n, m in VERT.items():
                apply_inplace(ctx, '%s|%s' % (n, c.tag), c, getattr(B, n), (x, y, r), m_vert(img, x, y, r, m))
            if bits >= 8:
                for n, m in HORI.items():
                    apply_inplace(ctx, '%s|%s' % (n, c.tag), c, getattr(B, n), (x, y, r), m_hori(img, x, y, r, m))
                for n, m in BOTH.items():
                    want = m_vert(img, x, y, r, m[1], m_hori(img, x, y, r, m[0]))
                    apply_inplace(ctx, '%s|%s' % (n, c.tag), c, getattr(B, n), (x, y, r), want)
            else:
                for n in HORI:
                    noop(ctx, c, n, (x, y, r))
            apply_inplace(ctx, 'flipXYcircregion|' + c.tag, c, B.flipXYcircregion, (x, y, r), m_flipxy(img, x, y, r))
            ctx.trace()
            ctx.state((bits, w, h, x, y, r))
        # circles that do not fit are refused and change nothing
        for x in list(range(-2, w + 2)) + [-60, w + 35]:
            for y in list(range(-2, h + 2)) + [-50, h + 40]:
                for r in (1, 2, 3, 5):
                    if not fits(w, h, x, y, r):
                        for n in list(VERT) + list(HORI) + list(BOTH) + ['flipXYcircregion']:
                            noop(ctx, c, n, (x, y, r))
                        noop(ctx, c, 'copycircregion', (x, y, r, (x, y)))
                        noop(ctx, c, 'erasealternatehorizontallinesincircregion', (x, y, r, 2, 0, 0))
                        noop(ctx, c, 'eraseeverynthhorizontallineinccircregion', (x, y, r, 2))
                        noop(ctx, c, 'magnifyNtimescircregion', (x, y, r, 2))
                        noop(ctx, c, 'pixelizenxncircregion', (x, y, r, 2))
                        if B.copycircregion2buf(c.buf[:], x, y, r) is not None:
                            ctx.fail('copycircregion2buf|refused|' + c.tag, args=(x, y, r))
                        ctx.trace()
    elif kind == 'copy':
        for x, y, r in circles(w, h):
            if w > 12 and r not in (2, 4):
                continue
            for nx in list(range(-1, w + 1)) + [-70, w + 90]:
                for ny in list(range(-1, h + 1)) + [-60, h + 90]:
                    want = m_copy(img, x, y, r, nx, ny) if fits(w, h, nx, ny, r) else img.px
                    apply_inplace(ctx, 'copycircregion|' + c.tag, c, B.copycircregion, (x, y, r, (nx, ny)), want)
                    ctx.state((bits, w, h, x, y, r, nx, ny))
                    ctx.trace()
    elif kind == 'erase':
        for x, y, r in circles(w, h):
            for every in (1, 2, 3, 4):
                for nth in range(every):
                    for pat in (0, 0xA6, 0x1FF, 0x3C):
                        apply_inplace(ctx, 'erasealternatehorizontallinesincircregion|' + c.tag, c, B.erasealternatehorizontallinesincircregion,
                                      (x, y, r, every, nth, pat), m_erase(img, x, y, r, every, nth, pat))
                apply_inplace(ctx, 'eraseeverynthhorizontallineinccircregion|' + c.tag, c, B.eraseeverynthhorizontallineinccircregion,
                              (x, y, r, every), m_erase(img, x, y, r, every, 0, 0))
            ctx.trace()
            ctx.state((bits, w, h, x, y, r))
    elif kind == 'lens':
        for x, y, r in circles(w, h):
            for n in (1, 2, 3, 4):
                if bits == 24:
                    apply_inplace(ctx, 'magnifyNtimescircregion|%s' % c.tag, c, B.magnifyNtimescircregion, (x, y, r, n), m_magnify(img, x, y, r, n))
                    if n > min(w, h):
                        continue
                    big = decode(B.pixelizenxn(c.buf[:], n))
                    dy = h - big.h
                    want, shifted = [q[:] for q in img.px], [q[:] for q in img.px]
                    for X, Y in cells(r, x, y):
                        if X < big.w and Y >= dy:
                            want[Y][X] = big.px[Y - dy][X]
                        if X < big.w and Y < big.h:
                            shifted[Y][X] = big.px[Y][X]
                    apply_inplace(ctx, 'pixelizenxncircregion|%s' % c.tag, c, B.pixelizenxncircregion, (x, y, r, n), want,
                                  known={'|knownshift': shifted} if dy else None)
                else:
                    noop(ctx, c, 'magnifyNtimescircregion', (x, y, r, n))
                    noop(ctx, c, 'pixelizenxncircregion', (x, y, r, n))
            ctx.trace()
            ctx.state((bits, w, h, x, y, r))
    elif kind == 'buf':
        # copied circle pasted into another image; other depths and missing buffers are refused
        for (w1, h1), (w2, h2) in (((7, 7), (9, 8)), ((11, 6), (6, 7)), ((32 if bits == 1 else 8, 3), (32 if bits == 1 else 8, 4))):
            a, b = Case(mkimg(w1, h1, bits)), Case(mkimg(w2, h2, bits, k=1))
            others = [Case(mkimg(w2, h2, o, k=1)) for o in DEPTHS if o != bits]
            for x, y, r in circles(w1, h1):
                src = a.buf[:]
                ok, cb = call(ctx, 'copycircregion2buf|' + a.tag, B.copycircregion2buf, src, x, y, r)
                if not ok:
                    continue
                if src != a.buf:
                    ctx.fail('copycircregion2buf|source changed|' + a.tag)
                for nx in list(range(-1, w2 + 1)) + [-70, w2 + 90]:
                    for ny in list(range(-1, h2 + 1)) + [-60, h2 + 90]:
                        want = b.img.px
                        if fits(w2, h2, nx, ny, r):
                            want = [q[:] for q in want]
                            for X, Y in cells(r, x, y):
                                want[ny + Y - y][nx + X - x] = a.img.px[Y][X]
                        apply_inplace(ctx, 'pastecirularbuf|' + b.tag, b, B.pastecirularbuf, (nx, ny, cb), want)
                        ctx.state((bits, x, y, r, nx, ny))
                        ctx.trace()
                for o in others:
                    apply_inplace(ctx, 'pastecirularbuf|other depth', o, B.pastecirularbuf, (w2 // 2, h2 // 2, cb), o.img.px)
            apply_inplace(ctx, 'pastecirularbuf|no buffer', b, B.pastecirularbuf, (2, 2, None), b.img.px)
    elif kind == 'seq':
        # sequences of transforms of one circle, on the reached images
        w, h = (9, 7)
        start = mkimg(w, h, bits, k=1)
        ops = [(n, (lambda m: lambda i, a: m_vert(i, *a, m))(m)) for n, m in VERT.items()]
        if bits >= 8:
            ops += [(n, (lambda m: lambda i, a: m_hori(i, *a, m))(m)) for n, m in HORI.items()]
        ops += [('flipXYcircregion', lambda i, a: m_flipxy(i, *a)), ('invertbitsincircregion', lambda i, a: m_invert(i, *a)),
                ('outlinecircregion', lambda i, a: m_outline(i, *a))]
        args = [(4, 3, 3), (3, 3, 2), (5, 4, 2)]
        frontier, seen = [(start, ())], {start.key()}
        for depth in range(2 if tier == 'quick' else 3):
            nxt = []
            for im, hist in frontier:
                c = Case(im)
                for n, m in ops:
                    for a in args:
                        want = m(im, a)
                        apply_inplace(ctx, 'seq|%s|b%d' % (n, bits), c, getattr(B, n), a, want)
                        ni = Img(w, h, bits, want, im.pal)
                        if ni.key() not in seen:
                            seen.add(ni.key())
                            nxt.append((ni, hist + ((n, a),)))
                        ctx.trace()
            frontier = nxt
        for s in seen:
            ctx.state(s)
        ctx.sample('%d-bit: %d distinct images reached' % (bits, len(seen)))
    elif kind == 'large':
        # larger discs: every radius to 40, one centre inside, four cut off by an edge
        w, h = 83, 85
        img = mkimg(w, h, bits)
        c = Case(img)
        for r in range(0, 42, 1 if tier != 'quick' else 3):
            for x, y in ((41, 42), (0, 0), (82, 40), (30, 84), (-5, 90)):
                apply_inplace(ctx, 'invertbitsincircregion|large|b%d' % bits, c, B.invertbitsincircregion, (x, y, r), m_invert(img, x, y, r))
                apply_inplace(ctx, 'outlinecircregion|large|b%d' % bits, c, B.outlinecircregion, (x, y, r), m_outline(img, x, y, r))
                ctx.state((bits, x, y, r))
                ctx.trace()
            if r <= 41:
                a = (41, 42, r)
                for n, m in VERT.items():
                    apply_inplace(ctx, '%s|large|b%d' % (n, bits), c, getattr(B, n), a, m_vert(img, *a, m))
                if bits >= 8:
                    for n, m in HORI.items():
                        apply_inplace(ctx, '%s|large|b%d' % (n, bits), c, getattr(B, n), a, m_hori(img, *a, m))
                apply_inplace(ctx, 'flipXYcircregion|large|b%d' % bits, c, B.flipXYcircregion, a, m_flipxy(img, *a))
                ctx.trace()
    elif kind == 'far':
        # 320: rows without padding bytes
        w, h = 320 if unit[2] == 1 else 309, 299
        img = mkimg(w, h, bits, k=1)
        c = Case(img)
        for x, y, r in (((291, 280, 17), (150, 290, 8)), ((300, 19, 19), (20, 270, 20), (59, 54, 44)), ((160, 140, 128), (261, 258, 13)))[unit[2]]:
            a = (x, y, r)
            t = 'far|b%d' % bits
            apply_inplace(ctx, 'invertbitsincircregion|' + t, c, B.invertbitsincircregion, a, m_invert(img, *a))
            apply_inplace(ctx, 'outlinecircregion|' + t, c, B.outlinecircregion, a, m_outline(img, *a))
            for n, m in VERT.items():
                apply_inplace(ctx, '%s|%s' % (n, t), c, getattr(B, n), a, m_vert(img, *a, m))
            if bits >= 8:
                for n, m in HORI.items():
                    apply_inplace(ctx, '%s|%s' % (n, t), c, getattr(B, n), a, m_hori(img, *a, m))
                for n, m in BOTH.items():
                    apply_inplace(ctx, '%s|%s' % (n, t), c, getattr(B, n), a, m_vert(img, *a, m[1], m_hori(img, *a, m[0])))
            apply_inplace(ctx, 'flipXYcircregion|' + t, c, B.flipXYcircregion, a, m_flipxy(img, *a))
            for nx, ny in ((r, r), (w - 1 - r, h - 1 - r), (w - 2 - r, r + 3)):
                apply_inplace(ctx, 'copycircregion|' + t, c, B.copycircregion, (x, y, r, (nx, ny)), m_copy(img, x, y, r, nx, ny))
                ok, cb = call(ctx, 'copycircregion2buf|' + t, B.copycircregion2buf, c.buf[:], x, y, r)
                if ok:
                    apply_inplace(ctx, 'pastecirularbuf|' + t, c, B.pastecirularbuf, (nx, ny, cb), m_copy(img, x, y, r, nx, ny))
            for every, nth, pat in ((2, 1, 0xA6), (7, 5, 0x1FF), (14, 9, 0xC5), (9, 4, 0x99), (30, 0, 0x3C)):
                apply_inplace(ctx, 'erasealternatehorizontallinesincircregion|' + t, c, B.erasealternatehorizontallinesincircregion, (x, y, r, every, nth, pat), m_erase(img, x, y, r, every, nth, pat))
                apply_inplace(ctx, 'eraseeverynthhorizontallineinccircregion|' + t, c, B.eraseeverynthhorizontallineinccircregion, (x, y, r, every), m_erase(img, x, y, r, every, 0, 0))
            if bits == 24:
                for n in (2, 4, 5, 14):
                    apply_inplace(ctx, 'magnifyNtimescircregion|' + t, c, B.magnifyNtimescircregion, (x, y, r, n), m_magnify(img, x, y, r, n))
                    ok, p = call(ctx, 'pixelizenxncircregion|' + t, lambda: decode(B.pixelizenxn(c.buf[:], n)))
                    if not ok:
                        continue
                    big, dy = p, h - p.h
                    want, shifted = [q[:] for q in img.px], [q[:] for q in img.px]
                    for X, Y in cells(r, x, y):
                        if X < big.w and Y >= dy:
                            want[Y][X] = big.px[Y - dy][X]
                        if X < big.w and Y < big.h:
                            shifted[Y][X] = big.px[Y][X]
                    apply_inplace(ctx, 'pixelizenxncircregion|' + c.tag, c, B.pixelizenxncircregion, (x, y, r, n), want, known={'|knownshift': shifted} if dy else None)
            ctx.trace()
            ctx.state(('far', bits, a))
        for x, y, r in ((-9, 150, 30), (150, -14, 44), (330, 100, 40), (140, 320, 50), (-20, -20, 60), (340, 330, 80), (-44, 260, 90), (150, 140, 260))[unit[2]::3]:
            t = 'far clipped|b%d' % bits
            apply_inplace(ctx, 'invertbitsincircregion|' + t, c, B.invertbitsincircregion, (x, y, r), m_invert(img, x, y, r))
            apply_inplace(ctx, 'outlinecircregion|' + t, c, B.outlinecircregion, (x, y, r), m_outline(img, x, y, r))
            ctx.trace()
            ctx.state(('far', bits, (x, y, r)))
        ctx.sample('every circular operation far from the origin of a %dx%d %d-bit image' % (w, h, bits))
