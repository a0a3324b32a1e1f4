"""Colour adjustments of 24-bit images: exact per-pixel effect, exactly inside the region."""
from mc.core import *
from mc.gridop import *
from mc import colorops as co
from mc.disc import *

BOUNDS = {
    'quick': 'every (brightest channel, channel) byte pair in every channel position x a grid of gamma, threshold, brightness and filter parameters; every '
             'rectangle (all corner orders) of images to 5x4; every circle inside or cut by a 9x7 image, centres to 3 pixels outside; gradients over every '
             'rectangle and circle and a grid of luminosity ranges; every non-24-bit depth refused; every pair of adjustments in sequence; '
             'every adjustment and gradient on rectangles and circles far from the origin of an image of 291x90 and of 1043x5 and 5x530 ones',
    'thorough': 'as quick with denser parameter grids and images to 8x6 and 15x12'}

FACTORS = [(1, 1, 1), (0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (0.5, 0.25, 0.75), (0.1, 0.9, 1)]
PCT = [-100, -75, -50, -33, -1, 0, 1, 10, 50, 100, 155, 400]
RANGES = [(0, 255), (50, 200), (200, 50), (0, 0), (255, 255), (128, 128), (1, 254), (100, 101), (0, 17), (240, 255)]
GAMMAS = [1, 2, 0.5, 2.2, 0.1, 5, 1.5, 0.9, 4, 9, 14]

PIX = {'mono': (lambda c, p: co.mono(c), [None]), 'filter': (co.filt, FACTORS), 'bright': (co.bright, PCT), 'thresh': (co.thresh, RANGES), 'gamma': (co.gamma, GAMMAS)}
REG = {'mono': 'monofilterto24bitregion', 'filter': 'colorfilterto24bitregion', 'bright': 'brightnesseadjto24bitregion',
       'thresh': 'thresholdadjto24bitregion', 'gamma': 'gammaadjto24bitregion'}
IMG = {'mono': 'monofilterto24bitimage', 'filter': 'colorfilterto24bitimage', 'bright': 'brightnesseadjto24bitimage',
       'thresh': 'thresholdadjto24bitimage', 'gamma': 'gammaadjto24bitimage'}
CIRC = {'mono': 'monocircle', 'filter': 'colorfiltercircregion', 'bright': 'brightnessadjcircregion', 'thresh': 'thresholdadjcircregion',
        'gamma': 'gammacorrectcircregion'}
SMALLP = {'mono': [None], 'filter': [(0.5, 0.25, 0.75), (1, 0, 1)], 'bright': [-50, 60], 'thresh': [(60, 150), (255, 90)], 'gamma': [2, 0.6]}


def units(tier):
    q = tier == 'quick'
    u = []
    for op in PIX:
        n = len(PIX[op][1])
        for i in range(n):
            u.append(('values', op, i))
        for w, h in [(1, 1), (2, 2), (3, 4), (4, 3), (5, 4)] + ([] if q else [(8, 6)]):
            u.append(('region', op, w, h))
        for w, h in [(9, 7), (8, 8)] + ([] if q else [(15, 12)]):
            u.append(('circle', op, w, h))
    for w, h in [(1, 1), (1, 4), (4, 1), (2, 2), (5, 4)] + ([] if q else [(8, 6)]):
        u.append(('grad', w, h))
    for w, h in [(9, 7), (8, 8)] + ([] if q else [(13, 15)]):
        u.append(('cgrad', w, h))
    u += [('depth', b) for b in (1, 4, 8)]
    u += [('seq', a) for a in PIX] + [('large', a) for a in PIX] + [('large', 'grad'), ('large', 'cgrad')]
    return u


def par(op, p):
    return () if op == 'mono' else (p,)


def judge(ctx, sig, case, fn, args, model, known=None):
    """model: grid of int (unchanged) or per-channel sets."""
    buf = case.buf[:]
    ok, _ = call(ctx, sig, fn, buf, *args)
    if not ok:
        return None
    if len(buf) != case.n or bytes(buf[:case.hd]) != case.hdr:
        ctx.fail(sig + '|header', args=args)
        return None
    px = decode_pixels(buf, case.img.w, case.img.h, 24)

    def bad(m):
        return [(x, y) for y, row in enumerate(m) for x, v in enumerate(row)
                if (px[y][x] != v if isinstance(v, int) else not co.ok(px[y][x], v))]
    b = bad(model)
    if b:
        for suf, m in (known or {}).items():
            if not bad(m):
                ctx.fail(sig + suf, args=args)
                return buf
        x, y = b[0]
        ctx.fail(sig, args=args, at=b[:6], before='%06x' % case.img.px[y][x], got='%06x' % px[y][x],
                 accepted=model[y][x] if isinstance(model[y][x], int) else [sorted(s) for s in model[y][x]])
    if not pad_same(buf, case):
        ctx.fail(sig + '|padding', args=args)
    return buf


def pad_same(buf, case):
    i = case.img
    return pad_bits(buf, i.w, i.h, 24) == pad_bits(case.buf, i.w, i.h, 24)


def region_model(img, op, p, cells):
    f = PIX[op][0]
    m = [r[:] for r in img.px]
    for x, y in cells:
        m[y][x] = f(img.px[y][x], p)
    return m


def values_image():
    """Every byte pair (brightest, other) in all channel positions, a zero channel among them."""
    cs = []
    for lum in range(256):
        for v in range(lum + 1):
            t = (lum, v, (v * 5 + lum) % (lum + 1))
            k = (lum + v) % 6
            a = [(0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)][k]
            cs.append(t[a[0]] << 16 | t[a[1]] << 8 | t[a[2]])
    w = 257
    cs += [0] * (-len(cs) % w)
    rows = [cs[i:i + w - 1] + [0x405060] for i in range(0, len(cs) - w, w - 1)]
    return mkimg(w, len(rows), 24, rows)


def rect_cells(r):
    x1, y1, x2, y2 = norm(*r)
    return [(x, y) for y in range(y1, y2 + 1) for x in range(x1, x2 + 1)]


def circ_cells(w, h, x, y, r, last=True):
    out = []
    for dy in range(-r, r + 1):
        if 0 <= y + dy < h:
            t = rowhalf(r)[abs(dy)]
            row = [X for X in range(max(x - t, 0), min(x + t, w))]
            if not last:
                row = row[:-1]
            out += [(X, y + dy) for X in row]
    return out


def run_unit(unit, ctx, tier):
    B = bind()
    kind = unit[0]
    if kind == 'values':
        _, op, i = unit
        p = PIX[op][1][i]
        img = values_image()
        c = Case(img)
        fn = getattr(B, IMG[op])
        cells = [(x, y) for y in range(img.h) for x in range(img.w)]
        m = region_model(img, op, p, cells)
        kn = None
        if op == 'filter':
            kn = {'|knownlast': region_model(img, op, p, [q for q in cells if q[0] < img.w - 1])}
        judge(ctx, '%s|values' % IMG[op], c, fn, par(op, p), m, kn)
        ctx.step(len(cells) - 1)
        for r in img.px:
            for v in r:
                ctx.state((op, i, v))
        ctx.trace()
        ctx.sample('%s with parameter %s on %d distinct colours' % (IMG[op], p, len(cells)))
    elif kind == 'region':
        _, op, w, h = unit
        for k in (0, 1):
            img = mkimg(w, h, 24, k=k)
            c = Case(img)
            for p in SMALLP[op]:
                for r in rects(w, h, True):
                    cells = rect_cells(r)
                    kn = None
                    if op == 'filter':
                        x2 = max(r[0], r[2])
                        kn = {'|knownlast': region_model(img, op, p, [q for q in cells if q[0] < x2])}
                    judge(ctx, '%s|%s' % (REG[op], c.tag), c, getattr(B, REG[op]), r + par(op, p), region_model(img, op, p, cells), kn)
                    ctx.trace()
                    ctx.state((op, w, h, k, str(p), r))
                cells = rect_cells((0, 0, w - 1, h - 1))
                kn = {'|knownlast': region_model(img, op, p, [q for q in cells if q[0] < w - 1])} if op == 'filter' else None
                judge(ctx, '%s|%s' % (IMG[op], c.tag), c, getattr(B, IMG[op]), par(op, p), region_model(img, op, p, cells), kn)
                # a corner outside: refused
                for r in ((-1, 0, 0, 0), (0, 0, w, h - 1), (0, 0, 0, h), (0, -1, w - 1, 0), (w, h, 0, 0), (0, 0, 0.0, 0), ('0', 0, 0, 0)):
                    judge(ctx, '%s|refused|%s' % (REG[op], c.tag), c, getattr(B, REG[op]), r + par(op, p), img.px)
    elif kind == 'circle':
        _, op, w, h = unit
        img = mkimg(w, h, 24)
        c = Case(img)
        fn = getattr(B, CIRC[op])
        for p in SMALLP[op]:
            for x in list(range(-3, w + 3)) + [-80, w + 70]:
                for y in list(range(-3, h + 3)) + [-75, h + 200]:
                    for r in range(0, 7):
                        kn = {'|knownlast': region_model(img, op, p, circ_cells(w, h, x, y, r, False))} if op == 'filter' else None
                        judge(ctx, '%s|%s%s' % (CIRC[op], c.tag, '' if fits(w, h, x, y, r) else '|clipped'), c, fn, (x, y, r) + par(op, p),
                              region_model(img, op, p, circ_cells(w, h, x, y, r)), kn)
                        ctx.trace()
                        ctx.state((op, w, h, str(p), x, y, r))
            for a in ((1.0, 2, 2), (3, '2', 1), (3, 3, 1.5)):
                judge(ctx, '%s|refused' % CIRC[op], c, fn, a + par(op, p), img.px)
    elif kind == 'grad':
        _, w, h = unit
        img = mkimg(w, h, 24)
        c = Case(img)
        for lr in ((0, 0), (-100, 100), (100, -100), (0, 50), (-50, -10), (30, 200), (-100, -100)):
            for r in rects(w, h, w <= 4):
                x1, y1, x2, y2 = norm(*r)
                m = [q[:] for q in img.px]
                mh = [q[:] for q in img.px]
                for x, y in rect_cells(r):
                    m[y][x] = co.bright(img.px[y][x], lr[1] + (lr[0] - lr[1]) * (y2 - y) / max(y2 - y1, 1))
                    mh[y][x] = co.bright(img.px[y][x], lr[0] + (lr[1] - lr[0]) * (x - x1) / max(x2 - x1, 1))
                judge(ctx, 'verticalbrightnessgradto24bitregion|' + c.tag, c, B.verticalbrightnessgradto24bitregion, r + (lr,), m)
                kn = [q[:] for q in mh]
                kn[y1] = img.px[y1]
                judge(ctx, 'horizontalbrightnessgradto24bitregion|' + c.tag, c, B.horizontalbrightnessgradto24bitregion, r + (lr,), mh, {'|knowntop': kn})
                if (x1, y1, x2, y2) == (0, 0, w - 1, h - 1):
                    judge(ctx, 'verticalbrightnessgradto24bitimage|' + c.tag, c, B.verticalbrightnessgradto24bitimage, (lr,), m)
                    judge(ctx, 'horizontalbrightnessgradto24bitimage|' + c.tag, c, B.horizontalbrightnessgradto24bitimage, (lr,), mh, {'|knowntop': kn})
                ctx.trace()
                ctx.state((w, h, lr, r))
            for r in ((-1, 0, 0, 0), (0, 0, w, h - 1), (0, 0, 0, h)):
                for n in ('verticalbrightnessgradto24bitregion', 'horizontalbrightnessgradto24bitregion'):
                    judge(ctx, n + '|refused', c, getattr(B, n), r + (lr,), img.px)
    elif kind == 'cgrad':
        _, w, h = unit
        img = mkimg(w, h, 24)
        c = Case(img)
        for lr in ((0, 0), (-100, 100), (100, -100), (0, 50), (-50, -10), (30, 200)):
            for x in list(range(-1, w + 1)) + [-80, w + 70]:
                for y in range(-1, h + 1):
                    for r in range(0, 6):
                        m, mh = [q[:] for q in img.px], [q[:] for q in img.px]
                        if fits(w, h, x, y, r):
                            d = max(2 * r, 1)
                            for X, Y in circ_cells(w, h, x, y, r):
                                m[Y][X] = co.bright(img.px[Y][X], lr[0] + (lr[1] - lr[0]) * (Y - y + r) / d)
                            for dx in range(-r, r + 1):
                                t = colhalf(r)[abs(dx)]
                                for Y in range(y - t, y + t + 1):
                                    mh[Y][x + dx] = co.bright(img.px[Y][x + dx], lr[0] + (lr[1] - lr[0]) * (dx + r) / d)
                        judge(ctx, 'vertbrightnessgrad2circregion|' + c.tag, c, B.vertbrightnessgrad2circregion, (x, y, r, lr), m)
                        judge(ctx, 'horibrightnessgrad2circregion|' + c.tag, c, B.horibrightnessgrad2circregion, (x, y, r, lr), mh)
                        ctx.trace()
                        ctx.state((w, h, lr, x, y, r))
    elif kind == 'depth':
        # other depths are refused and stay as they are
        bits = unit[1]
        for w, h in ((9, 7), (1, 1), (17, 3), (32, 3)):
            img = mkimg(w, h, bits)
            c = Case(img)
            for op in PIX:
                for p in SMALLP[op]:
                    apply_inplace(ctx, '%s|depth|%s' % (REG[op], c.tag), c, getattr(B, REG[op]), (0, 0, w - 1, h - 1) + par(op, p), img.px)
                    apply_inplace(ctx, '%s|depth|%s' % (IMG[op], c.tag), c, getattr(B, IMG[op]), par(op, p), img.px)
                    apply_inplace(ctx, '%s|depth|%s' % (CIRC[op], c.tag), c, getattr(B, CIRC[op]), (w // 2, h // 2, min(w, h) // 2) + par(op, p), img.px)
            for n in ('verticalbrightnessgradto24bitregion', 'horizontalbrightnessgradto24bitregion'):
                apply_inplace(ctx, n + '|depth', c, getattr(B, n), (0, 0, w - 1, h - 1, (0, 50)), img.px)
            for n in ('verticalbrightnessgradto24bitimage', 'horizontalbrightnessgradto24bitimage'):
                apply_inplace(ctx, n + '|depth', c, getattr(B, n), ((0, 50),), img.px)
            for n in ('vertbrightnessgrad2circregion', 'horibrightnessgrad2circregion'):
                apply_inplace(ctx, n + '|depth', c, getattr(B, n), (w // 2, h // 2, min(w, h) // 2, (0, 50)), img.px)
            ctx.trace()
            ctx.state((bits, w, h))
    elif kind == 'seq':
        # two adjustments in sequence on overlapping regions: the second works on the first's result only
        a = unit[1]
        w, h = 5, 4
        img = mkimg(w, h, 24, k=2)
        c = Case(img)
        for b in PIX:
            for ra in ((0, 0, 4, 3), (1, 1, 3, 3), (4, 0, 2, 2)):
                for rb in ((0, 0, 4, 3), (2, 0, 3, 2), (1, 3, 0, 0)):
                    pa, pb = SMALLP[a][0], SMALLP[b][-1]
                    buf = c.buf[:]
                    ok, _ = call(ctx, 'seq|%s' % a, getattr(B, REG[a]), buf, *(ra + par(a, pa)))
                    mid = Case(decode(buf))
                    cells = rect_cells(rb)
                    kn = None
                    if b == 'filter':
                        x2 = max(rb[0], rb[2])
                        kn = {'|knownlast': region_model(mid.img, b, pb, [q for q in cells if q[0] < x2])}
                    judge(ctx, 'seq|%s|%s' % (a, b), mid, getattr(B, REG[b]), rb + par(b, pb), region_model(mid.img, b, pb, cells), kn)
                    ctx.trace()
                    ctx.state((a, b, ra, rb))
    elif kind == 'large':
        large_(ctx, B, unit[1], 291, 90)
        for w, h in ((1043, 5), (5, 530)):
            large_(ctx, B, unit[1], w, h)


def large_(ctx, B, op, w, h):
    img = mkimg(w, h, 24, k=1)
    c = Case(img)
    if h == 90:
        rs = [(0, 0, w - 1, h - 1), (262, 40, 290, 89), (285, 3, 120, 2), (200, 88, 270, 88), (289, 0, 289, 89), (0, 0, 1, 2), (289, 0, 290, 2), (0, 87, 1, 89), (289, 87, 290, 89)]
        cs = [(265, 60, 24), (270, 30, 19), (140, 45, 44), (290, 45, 30), (250, 89, 40), (2, 2, 2), (288, 2, 2), (2, 87, 2), (288, 87, 3), (289, 88, 1), (-2, 3, 3), (291, 87, 3)]
    else:
        rs = [(0, 0, w - 1, h - 1), (w - 4, h - 3, 1, 1)]
        cs = [(w - 3, h - 3, 2), (w // 2, h // 2, 2), (w - 1, h - 1, 4)]
    if op in PIX:
        for p in SMALLP[op]:
            for r in rs:
                cells = rect_cells(r)
                x2 = max(r[0], r[2])
                kn = {'|knownlast': region_model(img, op, p, [q for q in cells if q[0] < x2])} if op == 'filter' else None
                judge(ctx, '%s|%s' % (REG[op], c.tag), c, getattr(B, REG[op]), r + par(op, p), region_model(img, op, p, cells), kn)
                if r == rs[0]:
                    judge(ctx, '%s|%s' % (IMG[op], c.tag), c, getattr(B, IMG[op]), par(op, p), region_model(img, op, p, cells), kn)
                ctx.state((op, str(p), r))
            for a in cs:
                kn = {'|knownlast': region_model(img, op, p, circ_cells(w, h, *a, False))} if op == 'filter' else None
                judge(ctx, '%s|%s%s' % (CIRC[op], c.tag, '' if fits(w, h, *a) else '|clipped'), c, getattr(B, CIRC[op]), a + par(op, p), region_model(img, op, p, circ_cells(w, h, *a)), kn)
                ctx.state((op, str(p), a))
                ctx.trace(2)
    elif op == 'grad':
        for lr in ((-100, 100), (30, 200), (60, -80)):
            for r in rs:
                x1, y1, x2, y2 = norm(*r)
                m, mh = [q[:] for q in img.px], [q[:] for q in img.px]
                for x, y in rect_cells(r):
                    m[y][x] = co.bright(img.px[y][x], lr[1] + (lr[0] - lr[1]) * (y2 - y) / max(y2 - y1, 1))
                    mh[y][x] = co.bright(img.px[y][x], lr[0] + (lr[1] - lr[0]) * (x - x1) / max(x2 - x1, 1))
                kn = [q[:] for q in mh]
                kn[y1] = img.px[y1]
                judge(ctx, 'verticalbrightnessgradto24bitregion|' + c.tag, c, B.verticalbrightnessgradto24bitregion, r + (lr,), m)
                judge(ctx, 'horizontalbrightnessgradto24bitregion|' + c.tag, c, B.horizontalbrightnessgradto24bitregion, r + (lr,), mh, {'|knowntop': kn})
                if r == rs[0]:
                    judge(ctx, 'verticalbrightnessgradto24bitimage|' + c.tag, c, B.verticalbrightnessgradto24bitimage, (lr,), m)
                    judge(ctx, 'horizontalbrightnessgradto24bitimage|' + c.tag, c, B.horizontalbrightnessgradto24bitimage, (lr,), mh, {'|knowntop': kn})
                ctx.trace(2)
                ctx.state((lr, r))
    else:
        for lr in ((-100, 100), (30, 200), (60, -80)):
            for x, y, r in cs:
                m, mh = [q[:] for q in img.px], [q[:] for q in img.px]
                if fits(w, h, x, y, r):
                    d = max(2 * r, 1)
                    for X, Y in circ_cells(w, h, x, y, r):
                        m[Y][X] = co.bright(img.px[Y][X], lr[0] + (lr[1] - lr[0]) * (Y - y + r) / d)
                    for dx in range(-r, r + 1):
                        t = colhalf(r)[abs(dx)]
                        for Y in range(y - t, y + t + 1):
                            mh[Y][x + dx] = co.bright(img.px[Y][x + dx], lr[0] + (lr[1] - lr[0]) * (dx + r) / d)
                judge(ctx, 'vertbrightnessgrad2circregion|' + c.tag, c, B.vertbrightnessgrad2circregion, (x, y, r, lr), m)
                judge(ctx, 'horibrightnessgrad2circregion|' + c.tag, c, B.horibrightnessgrad2circregion, (x, y, r, lr), mh)
                ctx.trace(2)
                ctx.state((lr, x, y, r))
