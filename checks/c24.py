"""Gradients: plain shapes laid from the outside in, step i of n in the colour at i/n of the range."""
from fractions import Fraction
import math
from mc.core import *
from mc.gridop import *

W, H = 17, 13
BOUNDS = {
    'quick': 'every gradient drawing function x all radii 0..8 / pen radii 0..4 x 5 luminosity ranges x 3 colour factors x 3 interpolation functions x centred, border and outside positions at every depth; radii to 44 and pen radii to 24 far from the corner of a 155x113 image; '
             'gradient rectangles: every rectangle of a 7x5 field on 24- and 8-bit images, both directions, all corner orders, and wide and high ramps',
    'thorough': 'as quick with radii to 14, every rectangle of a 10x8 field'}
LUMS = [(0, 255), (255, 0), (100, 100), (10, 200), (255, 254)]
FACS = [(1, 1, 1), (1, 0.5, 0), (0.2, 0.7, 0.3)]


def f_lerp(a, b, f):
    return (1.0 - f) * a + f * b


def f_step(a, b, f):
    return a if f < 0.5 else b


def f_sq(a, b, f):
    return a + (b - a) * f * f


FNS = [None, f_step, f_sq]
POS = [(8, 6), (0, 0), (16, 3), (7, -2), (20, 6), (-5, 12), (300, 5), (9, 13)]


def units(tier):
    u = [('shape', n, b, k) for n in SHAPES for b in DEPTHS for k in range(2)]
    u += [('far', n, b) for n in SHAPES for b in DEPTHS]
    u += [('rect', n, b) for n in ('filledgradrect', 'filleddichromaticgradrect') for b in DEPTHS]
    u += [('ramp', n, b) for n in ('filledgradrect', 'filleddichromaticgradrect') for b in (8, 24)]
    u += [('back', b) for b in DEPTHS]
    return u


def run_unit(unit, ctx, tier):
    B = bind()
    if unit[0] == 'shape':
        shape(ctx, B, unit[1], unit[2], unit[3], tier == 'quick')
    elif unit[0] == 'far':
        shape(ctx, B, unit[1], unit[2], 0, tier == 'quick', True)
    elif unit[0] == 'rect':
        rect_unit(ctx, B, unit[1], unit[2], tier == 'quick')
    elif unit[0] == 'ramp':
        ramp(ctx, B, unit[1], unit[2])
    else:
        back(ctx, B, unit[1])


# ---------------------------------------------------------------- allowed colours

def colours(v, fac, whole=True):
    """All 24-bit colours that luminosity v (a float or a Fraction) may mean under colour factors
    fac: the luminosity is cut to a whole number first (whole) or left as it is, each component
    is cut to a whole number; float noise may land on either side of a boundary."""
    lums = {math.floor(v - 1e-9), math.floor(v + 1e-9)} if whole else {v}
    if not whole:
        lums |= {math.floor(v - 1e-9), math.floor(v + 1e-9)}
    out = set()
    for lum in lums:
        comps = []
        for f in fac:
            x = f * lum
            comps.append({math.floor(x - 1e-9) if x > 1e-9 else 0, math.floor(x + 1e-9)})
        out |= {(r << 16) + (g << 8) + b for r in comps[0] for g in comps[1] for b in comps[2]}
    return out


def nearest(cols, pal):
    """Palette entries nearest to any of the colours."""
    out = set()
    for c in cols:
        rgb = (c >> 16, c >> 8 & 255, c & 255)
        d = [sum((p[k] - rgb[k]) ** 2 for k in range(3)) for p in pal]
        m = min(d)
        out |= {i for i, e in enumerate(d) if e == m}
    return out


PALS = {}


def allowed(cols, bits):
    if bits == 24:
        return cols
    key = (frozenset(cols), bits)
    if key not in PALS:
        if len(PALS) > 20000:
            PALS.clear()
        PALS[key] = nearest(cols, [p[:3] for p in stdpal(bits)])
    return PALS[key]


# ---------------------------------------------------------------- shapes
# name -> (takes fn?, depths, args(x, y, r, pen, lum, fac), steps)
# steps(r, pen, lum, fac, fn) -> list of (paint(B, buf, x, y, colour), allowed 24-bit colours), outermost first

def lin(lum, n, d):
    a, b = lum
    return a + (b - a) * Fraction(n, d)


def byfn(fn, lum, i, n):
    return lin(lum, i, n) if fn is None else fn(lum[0], lum[1], i / n)


def pen_steps(paint, whole=True):
    def steps(r, pen, lum, fac, fn):
        return [((lambda B, buf, x, y, c, i=i: paint(B, buf, x, y, r, i, c)), colours(byfn(fn, lum, i, pen), fac, whole)) for i in range(pen, 0, -1)]
    return steps


def poly(x, y, r):
    return [(x, y), (x + r, y + 1), (x + 1, y - r), (x - 2, y - 1)]


def circ_steps(r, pen, lum, fac, fn):
    return [((lambda B, buf, x, y, c, i=i: B.thickcircle(buf, x, y, i, 2, c)), colours(byfn(fn, lum, i, r), fac)) for i in range(r - 1, 0, -1)]


def mix2(c1, c2, i, n, fn):
    """Colours between c1 and c2, components rounded to nearest."""
    comps = []
    for s in (16, 8, 0):
        a, b = c1 >> s & 255, c2 >> s & 255
        v = float(byfn(fn, (a, b), i, n))
        comps.append({round(v - 1e-9), round(v + 1e-9)})
    return {(r << 16) + (g << 8) + b for r in comps[0] for g in comps[1] for b in comps[2]}


C12 = {(0, 255): (0x102030, 0xF0C8A0), (255, 0): (0xFFFFFF, 0), (100, 100): (0x123456, 0x123456), (10, 200): (0x00FF80, 0xFF0081), (255, 254): (0x010203, 0x020304)}


def di_steps(r, pen, lum, fac, fn):
    c1, c2 = C12[lum]
    return [((lambda B, buf, x, y, c, i=i: B.thickcircle(buf, x, y, i, 2, c)), mix2(c1, c2, i, r, fn)) for i in range(r - 1, 0, -1)]


def orb_steps(r, pen, lum, fac, fn):
    j = r >> 1
    out = [((lambda B, buf, x, y, c: B.filledcircle(buf, x, y, j, c)), colours(255, fac))]
    for i in range(r - 1, j, -1):
        out.append(((lambda B, buf, x, y, c, i=i: B.thickcircle(buf, x, y, i, 2, c)), colours(Fraction(255 * (r - i), j), fac)))
    return out


def ell_steps(r, pen, lum, fac, fn):
    b, a = r, r // 2 + pen
    m = max(a, b)
    out = []
    for i in range(m, 0, -1):
        rb, ra = b - m + i, a - m + i
        if rb < 0 or ra < 0:
            continue
        out.append(((lambda B, buf, x, y, c, rb=rb, ra=ra: B.ellipse(buf, x, y, rb, ra, c, True)), colours(byfn(fn, lum, i, m), fac)))
    return out


SHAPES = {
    'gradthickcircle': (0, lambda x, y, r, p, l, f: (x, y, r, p, l, f), pen_steps(lambda B, buf, x, y, r, i, c: B.thickcircle(buf, x, y, r, i, c)), 1, {}),
    'gradthickroundline': (0, lambda x, y, r, p, l, f: ((x, y), (x + r, y - 3), p, l, f), pen_steps(lambda B, buf, x, y, r, i, c: B.thickroundline(buf, (x, y), (x + r, y - 3), i, c)), 1, {}),
    'gradthickplotpoly': (1, lambda x, y, r, p, l, f: (poly(x, y, r), p, l, f), pen_steps(lambda B, buf, x, y, r, i, c: B.thickplotpoly(buf, poly(x, y, r), i, c)), 1, {}),
    'gradplotlines': (1, lambda x, y, r, p, l, f: (poly(x, y, r), p, l, f), pen_steps(lambda B, buf, x, y, r, i, c: B.plotlines(buf, poly(x, y, r), c, i)), 1, {}),
    'gradthickellipserot': (1, lambda x, y, r, p, l, f: (x, y, r, r // 2 + 1, 30, p, l, f), pen_steps(lambda B, buf, x, y, r, i, c: B.thickellipserot(buf, x, y, r, r // 2 + 1, 30, i, c)), 1, {}),
    'gradvert': (1, lambda x, y, r, p, l, f: (poly(x, y, r), p, l, f), pen_steps(lambda B, buf, x, y, r, i, c: [B.roundpen(buf, v, i, c) for v in poly(x, y, r)], False), 1, {}),
    'gradcircle': (1, lambda x, y, r, p, l, f: (x, y, r, l, f), circ_steps, 0, {}),
    'sphere': (1, lambda x, y, r, p, l, f: (x, y, r, f), lambda r, p, l, f, fn: circ_steps(r, p, (255, 0), f, fn), 0, {'nolum': 1}),
    'sphere two colours': (1, lambda x, y, r, p, l, f: (x, y, r, C12[l]), di_steps, 0, {'only24': 1, 'nofac': 1, 'silent': 1}),
    'graddichromiccircle': (1, lambda x, y, r, p, l, f: (x, y, r, C12[l][0], C12[l][1]), di_steps, 0, {'only24': 1, 'nofac': 1}),
    'orb': (0, lambda x, y, r, p, l, f: (x, y, r, f), orb_steps, 0, {'nolum': 1}),
    'gradellipse': (1, lambda x, y, r, p, l, f: (x, y, r, r // 2 + p, l, f), ell_steps, 1, {}),
    'thickencirclearea': (0, lambda x, y, r, p, l, f: (x, y, r, f), lambda r, p, l, f, fn: pen_steps(lambda B, buf, x, y, r, i, c: B.thickcircle(buf, x, y, r, i, c))(r, 8, (255, 0), f, fn), 0, {'nolum': 1}),
}


FAR = [(24, 14, (104, 59)), (14, 4, (49, 84)), (44, 19, (94, 64)), (9, 14, (-9, 14)), (19, 9, (144, -14)), (4, 24, (139, 44)), (14, 44, (84, 59))]


def cases(far, rmax, haspen):
    if far:
        for r, pen, p in FAR:
            yield r, pen if haspen else 1, p
    else:
        for r in range(0, rmax):
            for pen in (range(1, 5) if haspen else (1,)):
                for p in POS:
                    yield r, pen, p


def shape(ctx, B, name, bits, part, quick, far=False):
    takesfn, margs, steps, haspen, opt = SHAPES[name]
    fn0 = getattr(B, name.split(' ')[0])
    rmax = 9 if quick else 15
    w, h = (160, 113) if far else (W, H)
    if bits in (1, 8):
        w, h = h, w     # taller than wide
    white = (1 << bits) - 1
    bg = mkbuf(mkimg(w, h, bits, [[white] * w for _ in range(h)]))
    n = 0
    for r, pen, (x, y) in cases(far, rmax, haspen):
        n += 1
        if n % 2 != part and not far:
            continue
        # the shapes of the steps: painted in step numbers on an image of the same depth
        # (8 bits stand in for 1 bit), one base map for all colours
        st0 = steps(r, pen, LUMS[0], FACS[0], None)
        mb = bits if bits == 24 or bits == 8 or bits == 4 and len(st0) < 15 else 8
        base = mkbuf(mkimg(w, h, mb, [[0] * w for _ in range(h)]))
        for k, (paint, _) in enumerate(st0):
            paint(B, base, x, y, k + 1)
        idx = decode_pixels(base, w, h, mb)
        for li, lum in enumerate(LUMS):
            if opt.get('nolum') and li:
                continue
            for fi, fac in enumerate(FACS):
                if opt.get('nofac') and fi:
                    continue
                for k, f in enumerate(FNS if takesfn else FNS[:1]):
                    if far and (n + li + 2 * fi + 3 * k) % (9 if bits > 1 else 33) or not far and quick and (n + li + fi + k) % (3 if bits != 24 else 2):
                        continue
                    sig = '%s|b%d' % (name, bits)
                    buf = bg[:]
                    kw = {'fn': f} if f is not None else {}
                    args = margs(x, y, r, pen, lum, fac)
                    ok, _ = call(ctx, sig, fn0, buf, *args, **kw)
                    ctx.trace()
                    if not ok:
                        continue
                    det = dict(args=args, fn=f.__name__ if f else 'lerp')
                    if opt.get('only24') and bits != 24:
                        if buf != bg:
                            ctx.fail(sig + '|drawn at a refused depth', **det)
                        continue
                    judge(ctx, sig, buf, bg, idx, [allowed(c, bits) for _, c in steps(r, pen, lum, fac, f)], bits, w, h, white, det, mb != bits and bits == 4)
                    ctx.state((name, bytes(buf)))
    ctx.sample('%s radius 5 at the centre, range 0..255' % name)


def judge(ctx, sig, buf, bg, idx, ok, bits, w, h, white, det, loose):
    hd = HDR[bits]
    if len(buf) != len(bg) or buf[:hd] != bg[:hd]:
        ctx.fail(sig + '|length or header', **det)
        return
    px = decode_pixels(buf, w, h, bits)
    if loose:            # more than 15 steps on a 4-bit image: line ends are judged elsewhere
        for y in range(h):
            for x in range(w):
                if px[y][x] != white and not any(px[y][x] in a for a in ok):
                    ctx.fail(sig + '|foreign colour', at=(x, y), got=px[y][x], **det)
                    return
        return
    for y in range(h):
        for x in range(w):
            want = {white} if idx[y][x] == 0 else ok[idx[y][x] - 1]
            if px[y][x] not in want:
                ctx.fail(sig, at=(x, y), step=idx[y][x], allowed=['%x' % c for c in sorted(want)][:8], got='%x' % px[y][x], picture=show(px, bits), **det)
                return


# ---------------------------------------------------------------- rectangles

def rect_colours(name, lum, fac, t):
    """Colours at the fraction t of the ramp: components rounded to nearest."""
    ends = []
    if name == 'filledgradrect':
        ends = [(f * lum[0], f * lum[1]) for f in fac]
    else:
        c1, c2 = C12[lum]
        ends = [(c1 >> s & 255, c2 >> s & 255) for s in (16, 8, 0)]
    return ends, t


def comps(ends, t, fn):
    out = []
    for a, b in ends:
        v = float(a + (b - a) * t) if fn is None else fn(a, b, float(t))
        out.append({round(v - 1e-9), round(v + 1e-9)})
    return {(r << 16) + (g << 8) + b for r in out[0] for g in out[1] for b in out[2]}


def one_rect(ctx, B, name, bits, w, h, case, x1, y1, x2, y2, lum, fac, d, fn, swap=0):
    fn0 = getattr(B, name)
    X1, Y1, X2, Y2 = x1, y1, x2, y2
    if swap & 1:
        x1, x2 = x2, x1
    if swap & 2:
        y1, y2 = y2, y1
    args = (x1, y1, x2, y2) + ((lum, fac) if name == 'filledgradrect' else C12[lum]) + (d,)
    sig = '%s|b%d' % (name, bits)
    buf = case.buf[:]
    ok, _ = call(ctx, sig, fn0, buf, *args, **({'fn': fn} if fn else {}))
    ctx.trace()
    if not ok:
        return
    det = dict(args=args, size=(w, h), fn=fn.__name__ if fn else 'lerp')
    if len(buf) != case.n or bytes(buf[:case.hd]) != case.hdr:
        ctx.fail(sig + '|length or header', **det)
        return
    inside = 0 <= X1 and 0 <= Y1 and X2 < w and Y2 < h
    refused = bits < 8 or bits == 8 and name != 'filledgradrect' or not inside
    if refused:
        if buf != case.buf:
            ctx.fail(sig + '|drawn although refused', **det)
        return
    px = decode_pixels(buf, w, h, bits)
    ctx.state((name, bytes(buf)))
    lo, n = (X1, X2 - X1 + 1) if d == 0 else (Y1, Y2 - Y1 + 1)
    ends, _ = rect_colours(name, lum, fac, 0)
    want, abso = [], []
    for i in range(n):
        want.append(allowed(comps(ends, Fraction(i, n), fn), bits))
        abso.append(allowed(comps(ends, min(Fraction(lo + i, n), Fraction(1)), fn), bits))
    bad = badabs = None
    for y in range(h):
        for x in range(w):
            p = px[y][x]
            if X1 <= x <= X2 and Y1 <= y <= Y2:
                i = (x if d == 0 else y) - lo
                if p not in want[i] and bad is None:
                    bad = (x, y, p, sorted(want[i])[:6])
                if p not in abso[i]:
                    badabs = (x, y, p, sorted(abso[i])[:6])
            elif p != case.img.px[y][x]:
                ctx.fail(sig + '|pixel outside the rectangle changed', at=(x, y), **det)
                return
    if bad:
        ctx.fail(sig + ('|knownabs' if lo and not badabs else ''), bad=bad, **det)


def rect_unit(ctx, B, name, bits, quick):
    w, h = (7, 5) if quick else (10, 8)
    case = Case(mkimg(w, h, bits, k=3))
    n = 0
    for x1 in range(-1, w):
        for x2 in range(x1, w + 1):
            for y1 in range(-1, h):
                for y2 in range(y1, h + 1):
                    for d in (0, 1):
                        n += 1
                        one_rect(ctx, B, name, bits, w, h, case, x1, y1, x2, y2, LUMS[n % 5], FACS[n % 3], d, FNS[n // 5 % 3], n // 7 % 4)


def ramp(ctx, B, name, bits):
    for w, h in ((40, 3), (3, 40), (256, 2), (2, 270), (301, 64), (43, 84)):
        case = Case(mkimg(w, h, bits, k=1))
        for lum in LUMS:
            for fac in FACS:
                for d in (0, 1):
                    for fn in FNS:
                        if w == 301 and (fac is not FACS[1] or bits == 8 and (fn or lum[0] == 100)):
                            continue
                        one_rect(ctx, B, name, bits, w, h, case, 0, 0, w - 1, h - 1, lum, fac, d, fn)
                        one_rect(ctx, B, name, bits, w, h, case, 1, 1, max(w - 2, 1), h - 1, lum, fac, d, fn)
                        if w == 301:
                            one_rect(ctx, B, name, bits, w, h, case, 264, 44, 299, 59, lum, fac, d, fn, 2)
                            one_rect(ctx, B, name, bits, w, h, case, 14, 49, 84, 54, lum, fac, d, fn, 1)


def back(ctx, B, bits):
    """Filling the whole background is the gradient rectangle of the whole image."""
    for w, h in ((1, 1), (1, 6), (5, 1), (8, 3), (9, 9), (32, 5), (79, 44), (74, 91)):
        for lum in LUMS:
            for fac in FACS:
                for d in (0, 1):
                    for name, ref in (('fillbackgroundwithgrad', 'filledgradrect'), ('fillbackgroundwithdichromaticgrad', 'filleddichromaticgradrect')):
                        case = Case(mkimg(w, h, bits, k=2))
                        a, b = case.buf[:], case.buf[:]
                        args = (lum, fac, d) if ref == 'filledgradrect' else (lum,) + C12[lum] + (d,)
                        sig = '%s|b%d' % (name, bits)
                        ok, _ = call(ctx, sig, getattr(B, name), a, *args)
                        ctx.trace()
                        if not ok:
                            continue
                        call(ctx, sig, getattr(B, ref), b, 0, 0, w - 1, h - 1, *((lum, fac) if ref == 'filledgradrect' else C12[lum]), d)
                        if a != b:
                            ctx.fail(sig, args=args, size=(w, h))
                        ctx.state((name, bytes(a)))
