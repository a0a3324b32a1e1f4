"""Filled and outlined shapes: rectangles, circles, ellipses, polygons, parallelograms, squircles."""
from mc.core import *
from mc.gridop import *
from mc.draw import *
from mc.disc import *
import math

BOUNDS = {
    'quick': 'filled rectangles with every corner pair (outside included) at all depths; circles and discs of radius 0-7 with every centre from wholly outside on one '
             'side to wholly outside on the other at all depths; every ellipse with half axes 0-4 likewise; shape of every circle to radius 60 and every ellipse '
             'with half axes to 14; every triangle on a 5x5 grid, every quadrilateral on a 3x3 grid; every parallelogram with edge vectors to 3; rotated '
             'thick ellipses; squircles to radius 25; rectangles, discs, ellipses, thick circles, polygons of up to eight corners and parallelograms of up to 150 pixels far from the origin of a 307x289 image at every depth',
    'thorough': 'circle shapes to radius 150, ellipses to half axes 30, triangles on a 6x6 grid, parallelogram edge vectors to 5'}

COLS = {1: [0, 1], 4: [0, 6, 15, 16, 0x1b], 8: [0, 0xa5, 256, 0x1b3], 24: [0, 0x123456, 0xffffff]}
# the last size of every depth has rows without padding bytes
FR = {1: [(1, 1), (9, 2), (17, 2), (32, 2)], 4: [(1, 1), (5, 3), (6, 2), (8, 2)], 8: [(1, 1), (5, 3), (3, 4), (4, 3)], 24: [(1, 1), (5, 3), (3, 4), (4, 3)]}
for b in FR:
    FR[b] += [(45, 3), (3, 45)]     # narrow rectangles at every border


def units(tier):
    q = tier == 'quick'
    u = [('frect', b, w, h) for b in DEPTHS for w, h in FR[b]]
    u += [('circ', b, r) for b in DEPTHS for r in range(8)]
    u += [('cgeo', i, 6, 60 if q else 150) for i in range(6)]
    u += [('egeo', a, 14 if q else 30) for a in range(15 if q else 31)]
    u += [('ell', b, a) for b in DEPTHS for a in range(5)]
    u += [('tri', 24, 5 if q else 6, i, 10) for i in range(10)]
    u += [('tri', b, 3, i, 2) for b in (1, 4, 8) for i in range(2)]
    u += [('quad', b, i) for b in DEPTHS for i in range(3)]
    u += [('polyout', b) for b in DEPTHS]
    u += [('para', 24, 3 if q else 5, i, 7) for i in range(7)] + [('para', b, 2, i, 2) for b in (1, 4, 8) for i in range(2)]
    u += [('rot', b, i) for b in DEPTHS for i in range(4)]
    u += [('squircle', i) for i in range(3)]
    u += [('thickc', b) for b in DEPTHS] + [('large', b, i) for b in DEPTHS for i in range(3)]
    return u


_sh = {}


def ell_outline(ctx, B, a, b):
    """Outline of the ellipse with half axes a (horizontal), b, relative to its centre, taken from a drawing on
    a large blank canvas and checked against the ideal curve."""
    if (a, b) in _sh:
        return _sh[a, b]
    w, h = 2 * a + 5, 2 * b + 5
    s = drawn(ctx, 'ellipse|shape', B.ellipse, w, h, (a + 2, b + 2, b, a, 0xffffff))
    if s is not None:
        s = {(x - a - 2, y - b - 2) for x, y in s}
        why = ellipse_bad(s, a, b)
        if why:
            ctx.fail('ellipse|shape', half_axes=(a, b), why=why, got=sorted(s)[:60])
            s = None
    _sh[a, b] = s
    return s


def ellipse_bad(s, a, b):
    for x, y in s:
        if not ((-x, y) in s and (x, -y) in s and (-x, -y) in s):
            return 'not symmetric at %s' % ((x, y),)
        if abs(x) > a or abs(y) > b:
            return 'outside its bounding box'
        X, Y = abs(x), abs(y)
        # the ideal curve passes within one pixel, horizontally or vertically
        f = lambda p, q: (p * p * b * b + q * q * a * a) - a * a * b * b
        near = f(max(X - 1, 0), max(Y - 1, 0)) <= 0 and f(X + 1, Y + 1) >= 0
        near = near and (f(X, max(Y - 1, 0)) <= 0 <= f(X, Y + 1) or f(max(X - 1, 0), Y) <= 0 <= f(X + 1, Y))
        if not near:
            return 'pixel %s is off the curve' % ((x, y),)
    if not {(a, 0), (0, b)} <= s:
        return 'does not reach its axes'
    if not connected(s):
        return 'gap'
    return None


def rowspans(s):
    d = {}
    for x, y in s:
        l, r = d.get(y, (x, x))
        d[y] = (min(l, x), max(r, x))
    return d


def fillrows(s):
    return {(x, y) for y, (l, r) in rowspans(s).items() for x in range(l, r + 1)}


def at(s, x, y):
    return {(a + x, b + y) for a, b in s}


def check(ctx, sig, c, fn, args, s, col, rows=None):
    img = c.img
    want = paint(img.px, s, col, img.bits)
    kn = None
    if img.bits == 4 and rows is not None:
        kn = {'|known4bit': rows4(img.px, rows, col)}
    buf = apply_inplace(ctx, '%s|b%d' % (sig, img.bits), c, fn, args, want, known=kn)
    if buf is not None and pad_bits(buf, img.w, img.h, img.bits).strip(b'\0'):
        ctx.fail(sig + '|padding', args=args)


def segment(ctx, P, p, q):
    k = (p, q)
    if k not in _seg:
        l = [tuple(v) for v in P.iterline(list(p), list(q))]
        why = line_ok(set(l), p, q)
        if why:
            ctx.fail('iterline', p=p, q=q, why=why)
        _seg[k] = l
    return _seg[k]


_seg = {}


def convex(vs):
    """Is the closed polygon convex (no edge crosses, all turns one way)?  Degenerate ones count."""
    n = len(vs)
    sg = 0
    for i in range(n):
        (ax, ay), (bx, by), (cx, cy) = vs[i], vs[(i + 1) % n], vs[(i + 2) % n]
        z = (bx - ax) * (cy - by) - (by - ay) * (cx - bx)
        if z:
            if sg * z < 0:
                return False
            sg = 1 if z > 0 else -1
    return True


def inside(vs, x, y):
    """Even-odd rule, points strictly inside."""
    n = len(vs)
    r = False
    for i in range(n):
        (ax, ay), (bx, by) = vs[i], vs[(i + 1) % n]
        if (ay > y) != (by > y):
            # x coordinate of the crossing, exactly
            num = (bx - ax) * (y - ay) * (1 if by > ay else -1)
            den = (by - ay) * (1 if by > ay else -1)
            if (x - ax) * den < num:
                r = not r
    return r


def polyfill(ctx, B, P, c, vs, col):
    img = c.img
    n = len(vs)
    # v0-v1, v1-v2, ... and back to v0
    bound = set()
    for i in range(1, n):
        bound |= set(segment(ctx, P, vs[i - 1], vs[i]))
    bound |= set(segment(ctx, P, vs[-1], vs[0]))
    sp = rowspans(bound)
    hull = fillrows(bound)
    if convex(vs):
        full, kn = hull, None
    else:
        full = bound | {p for p in hull if inside(vs, *p)}
        kn = hull
    want = paint(img.px, full, col, img.bits)
    known = {}
    if kn is not None and kn != full:
        known['|knownhull'] = paint(img.px, kn, col, img.bits)
    if img.bits == 4:
        g = [r[:] for r in img.px]
        by = {}
        for x, y in bound:
            by.setdefault(y, []).append(x)
        for y, xs in by.items():
            xs.sort()
            if len(xs) == 1:
                g[y][xs[0]] = col & 15
            for a, b in zip(xs, xs[1:]):
                row4(g, y, a, b, col)
        known['|known4bit'] = g
    apply_inplace(ctx, 'plotpolyfill|b%d' % img.bits, c, B.plotpolyfill, (list(vs), col), want, known=known)


def run_unit(unit, ctx, tier):
    B = bind()
    from pythonbmp import primitives2D as P
    kind = unit[0]
    if kind == 'frect':
        _, bits, w, h = unit
        img = mkimg(w, h, bits)
        c = Case(img)
        xs = range(-1, w + 1) if w < 12 else [-1, 0, 1, 6, 7, 8, 9, 14, 15, 16, 17]
        if w == 32:
            xs = [-1, 0, 1, 15, 23, 24, 25, 30, 31, 32]
        if w == 45:
            xs = [-1, 0, 1, 22, 43, 44, 45]
        ys = range(-1, h + 1) if h < 45 else [-1, 0, 1, 22, 43, 44, 45]
        for x1 in xs:
            for x2 in range(-1, w + 1) if w < 32 else xs:
                for y1 in ys:
                    for y2 in ys:
                        inn = 0 <= min(x1, x2) and max(x1, x2) < w and 0 <= min(y1, y2) and max(y1, y2) < h
                        X1, Y1, X2, Y2 = norm(x1, y1, x2, y2)
                        s = {(x, y) for x in range(X1, X2 + 1) for y in range(Y1, Y2 + 1)} if inn else set()
                        rows = [(y, X1, X2) for y in range(Y1, Y2 + 1)] if inn else None
                        for col in COLS[bits] if (x1 + y2) % 2 else COLS[bits][1:2]:
                            check(ctx, 'filledrect', c, B.filledrect, (x1, y1, x2, y2, col), s, col, rows)
                        ctx.trace()
        ctx.state(unit)
    elif kind == 'large':
        _, bits, part = unit
        w, h = 307, 289
        img = mkimg(w, h, bits, k=1)
        c = Case(img)
        col = COLS[bits][1]
        if part == 0:
            for x1, y1, x2, y2 in ((261, 258, 306, 288), (299, 3, 257, 150), (5, 259, 270, 271), (300, 280, 307, 281)):
                inn = max(x1, x2) < w
                X1, Y1, X2, Y2 = norm(x1, y1, x2, y2)
                s = {(x, y) for x in range(X1, X2 + 1) for y in range(Y1, Y2 + 1)} if inn else set()
                check(ctx, 'filledrect', c, B.filledrect, (x1, y1, x2, y2, col), s, col, [(y, X1, X2) for y in range(Y1, Y2 + 1)] if inn else None)
                ctx.state((bits, x1, y1))
            for x, y, r in ((280, 265, 17), (262, 40, 33), (150, 140, 130), (300, 287, 45), (30, 270, 60), (256, 256, 9)):
                o, f, rh = at(outline(r), x, y), at(filldisc(0, 0, r), x, y), rowhalf(r)
                rows = [(y + d, x - rh[abs(d)], x + rh[abs(d)]) for d in range(-r, r + 1)]
                check(ctx, 'circle', c, B.circle, (x, y, r, col), o, col)
                check(ctx, 'filledcircle', c, B.filledcircle, (x, y, r, col), f, col, rows)
                check(ctx, 'circle-filled', c, B.circle, (x, y, r, col, True), f, col, rows)
                check(ctx, 'circlevec', c, B.circlevec, ((x, y), r, col), o, col)
                if r < 40:
                    for pen in (5, 9):
                        s, q4, ph = set(), [], rowhalf(pen)
                        for p, q in outline(r):
                            s |= filldisc(x + p, y + q, pen)
                            q4 += [(y + q + d, x + p - ph[abs(d)], x + p + ph[abs(d)]) for d in range(-pen, pen + 1)]
                        check(ctx, 'thickcircle', c, B.thickcircle, (x, y, r, pen, col), s, col, q4)
                ctx.trace(6)
                ctx.state((bits, x, y, r))
        elif part == 1:
            for x, y, b, a in ((270, 260, 17, 30), (262, 150, 130, 21), (150, 262, 20, 140), (300, 280, 40, 45)):
                o = ell_outline(ctx, B, a, b)
                if o is None:
                    continue
                rows = [(y + d, x + l, x + r) for d, (l, r) in rowspans(o).items()]
                check(ctx, 'ellipse', c, B.ellipse, (x, y, b, a, col), at(o, x, y), col)
                check(ctx, 'filledellipse', c, B.filledellipse, (x, y, b, a, col), at(fillrows(o), x, y), col, rows)
                check(ctx, 'ellipse-filled', c, B.ellipse, (x, y, b, a, col, True), at(fillrows(o), x, y), col, rows)
                ctx.trace(3)
                ctx.state((bits, x, y, a, b))
        else:
            for vs in ([(260, 250), (306, 270), (262, 288)], [(270, 3), (300, 140), (262, 280), (258, 130)], [(10, 262), (150, 257), (290, 263), (300, 280), (140, 288), (20, 284)],
                       [(280, 200), (295, 206), (301, 221), (295, 236), (280, 242), (265, 236), (259, 221), (265, 206)], [(5, 5), (300, 40), (280, 280), (30, 250)]):
                polyfill(ctx, B, P, c, [tuple(v) for v in vs], col)
                ctx.trace()
                ctx.state((bits, tuple(vs)))
            for a, b, d in (((261, 249), (290, 260), (270, 270)), ((20, 257), (160, 260), (40, 280)), ((258, 5), (270, 140), (290, 20)), ((150, 30), (280, 150), (60, 120))):
                ax, ay, bx, by = b[0] - a[0], b[1] - a[1], d[0] - a[0], d[1] - a[1]
                det = ax * by - ay * bx
                sg = 1 if det > 0 else -1
                buf = c.buf[:]
                ok, _ = call(ctx, 'filledparallelogram|b%d' % bits, B.filledparallelogram, buf, a, b, d, col)
                if not ok:
                    continue
                px = decode_pixels(buf, w, h, bits)
                bad = []
                for y in range(h):
                    for x in range(w):
                        dx, dy = x - a[0], y - a[1]
                        u, v = sg * (dx * by - dy * bx), sg * (ax * dy - ay * dx)
                        if 0 <= u <= abs(det) and 0 <= v <= abs(det):
                            if px[y][x] != col:
                                bad.append(('not filled', x, y))
                        elif px[y][x] != img.px[y][x] and (px[y][x] != col or not near(det, ax, ay, bx, by, dx, dy)):
                            bad.append(('outside', x, y))
                if bad or len(buf) != c.n or bytes(buf[:c.hd]) != c.hdr:
                    ctx.fail('filledparallelogram|large|b%d' % bits, args=(a, b, d), bad=bad[:6])
                ctx.trace()
                ctx.state((bits, a, b, d))
    elif kind == 'circ':
        _, bits, r = unit
        w, h = {1: (11, 5), 4: (7, 5), 8: (6, 5), 24: (6, 5)}[bits]
        if r % 2:
            # rows without padding bytes
            w, h = {1: (32, 3), 4: (8, 4), 8: (8, 4), 24: (4, 4)}[bits]
        img = mkimg(w, h, bits)
        c = Case(img)
        col = COLS[bits][1]
        o = outline(r)
        f = filldisc(0, 0, r)
        rh = rowhalf(r)
        far = [-(10 ** 6), -997, -100, -40, -25, w + 25, w + 40, w + 500, 10 ** 6]
        for x in list(range(-r - 2, w + r + 2)) + far:
            for y in list(range(-r - 2, h + r + 2)) + (far if x in (-40, 0, 3, w + 25) else []):
                so, sf = at(o, x, y), at(f, x, y)
                rows = [(y + d, x - rh[abs(d)], x + rh[abs(d)]) for d in range(-r, r + 1)]
                for cc in COLS[bits] if (x * 3 + y) % 4 == 0 else (col,):
                    check(ctx, 'circle', c, B.circle, (x, y, r, cc), so, cc)
                    check(ctx, 'filledcircle', c, B.filledcircle, (x, y, r, cc), sf, cc, rows)
                if (x + y) % 3 == 0:
                    check(ctx, 'circle-filled', c, B.circle, (x, y, r, col, True), sf, col, rows)
                    check(ctx, 'circle-unfilled', c, B.circle, (x, y, r, col, False), so, col)
                    check(ctx, 'circlevec', c, B.circlevec, ((x + 0.3, y - 0.4), r, col), so, col)
                    check(ctx, 'circlevec', c, B.circlevec, ([x, y], r, col, True), sf, col, rows)
                ctx.trace()
                ctx.state((bits, r, x, y))
    elif kind == 'cgeo':
        _, i, m, n = unit
        for r in range(i, n + 1, m):
            w = 2 * r + 5
            s = drawn(ctx, 'circle|shape', B.circle, w, w, (r + 2, r + 2, r, 0xffffff))
            f = drawn(ctx, 'filledcircle|shape', B.filledcircle, w, w, (r + 2, r + 2, r, 0xffffff))
            if s is None or f is None:
                continue
            s = {(x - r - 2, y - r - 2) for x, y in s}
            f = {(x - r - 2, y - r - 2) for x, y in f}
            why = ellipse_bad(s, r, r)
            if not why and any((y, x) not in s for x, y in s):
                why = 'not symmetric about the diagonal'
            if not why and any((x * x + y * y) > (r + 0.75) ** 2 or (x * x + y * y) < max(r - 0.75, 0) ** 2 for x, y in s):
                why = 'a pixel is off the circle'
            if why:
                ctx.fail('circle|shape', r=r, why=why, got=sorted(s)[:40])
            if f != fillrows(s):
                ctx.fail('filledcircle|shape', r=r, why='not the inside of the outline', diff=sorted(f ^ fillrows(s))[:20])
            ok, v = call(ctx, 'circlevert', P.circlevert, 5, -3, r)
            if ok and {tuple(p) for p in v} != at(s, 5, -3):
                ctx.fail('circlevert', r=r)
            # the pixels outside the image are dropped, the others stay
            for ox, oy in ((0, 0), (r, 1), (w // 3, w), (w, w // 2)):
                g = drawn(ctx, 'circle|clip', B.circle, w, w, (ox, oy, r, 0xffffff))
                if g is not None and g != clip(at(s, ox, oy), w, w):
                    ctx.fail('circle|clip', at=(ox, oy, r), size=w)
                g = drawn(ctx, 'filledcircle|clip', B.filledcircle, w, w, (ox, oy, r, 0xffffff))
                if g is not None and g != clip(at(f, ox, oy), w, w):
                    ctx.fail('filledcircle|clip', at=(ox, oy, r), size=w)
            ctx.trace()
            ctx.state(r)
    elif kind == 'egeo':
        _, a, n = unit
        for b in range(n + 1):
            s = ell_outline(ctx, B, a, b)
            if s is None:
                continue
            w, h = 2 * a + 5, 2 * b + 5
            f = drawn(ctx, 'filledellipse|shape', B.filledellipse, w, h, (a + 2, b + 2, b, a, 0xffffff))
            if f is not None and at(f, -a - 2, -b - 2) != fillrows(s):
                ctx.fail('filledellipse|shape', half_axes=(a, b), diff=sorted(at(f, -a - 2, -b - 2) ^ fillrows(s))[:20])
            ok, v = call(ctx, 'ellipsevert', P.ellipsevert, 5, -3, b, a)
            if ok and {tuple(p) for p in v} != at(s, 5, -3):
                ctx.fail('ellipsevert', half_axes=(a, b))
            ctx.trace()
            ctx.state((a, b))
    elif kind == 'ell':
        _, bits, a = unit
        w, h = 7, 5
        if a % 2:
            # rows without padding bytes
            w, h = {1: 32, 4: 8, 8: 8, 24: 4}[bits], 4
        img = mkimg(w, h, bits)
        c = Case(img)
        col = COLS[bits][1]
        for b in range(5):
            o = ell_outline(ctx, B, a, b)
            if o is None:
                continue
            sp = rowspans(o)
            f = fillrows(o)
            far = [-(10 ** 6), -997, -100, -40, -25, w + 25, w + 40, w + 500, 10 ** 6]
            for x in list(range(-a - 2, w + a + 2)) + far:
                for y in list(range(-b - 2, h + b + 2)) + (far if x in (-40, 0, 3, w + 25) else []):
                    rows = [(y + d, x + l, x + r) for d, (l, r) in sp.items()]
                    check(ctx, 'ellipse', c, B.ellipse, (x, y, b, a, col), at(o, x, y), col)
                    check(ctx, 'filledellipse', c, B.filledellipse, (x, y, b, a, col), at(f, x, y), col, rows)
                    if (x + y) % 3 == 0:
                        cc = COLS[bits][-1]
                        check(ctx, 'ellipse', c, B.ellipse, (x, y, b, a, cc), at(o, x, y), cc)
                        check(ctx, 'ellipse-filled', c, B.ellipse, (x, y, b, a, cc, True), at(f, x, y), cc, rows)
                    ctx.trace()
                    ctx.state((bits, a, b, x, y))
    elif kind == 'tri':
        _, bits, n, i, m = unit
        w = h = n + 2
        img = mkimg(w, h, bits)
        c = Case(img)
        col = COLS[bits][1]
        V = [(x, y) for x in range(n) for y in range(n)]
        if bits < 24:
            V = [(2 * x, y * 3 // 2) for x, y in V]
        j = 0
        for a in V:
            for b in V:
                j += 1
                if j % m != i:
                    continue
                for d in V:
                    if bits == 24 and not (a <= b or d[0] % 2):
                        continue
                    w2 = max(p[0] for p in (a, b, d))
                    if w2 >= w:
                        continue
                    polyfill(ctx, B, P, c, (a, b, d), col)
                    ctx.trace()
                ctx.state((bits, a, b))
    elif kind == 'quad':
        _, bits, i = unit
        w, h = 32 if bits == 1 else 8, 7
        img = mkimg(w, h, bits)
        c = Case(img)
        col = COLS[bits][1]
        V = [(x, y) for x in (0, 3, w - 1) for y in (0, 2, 6)]
        n = 0
        for a in V[i::3]:
            for b in V:
                for d in V:
                    for e in V:
                        n += 1
                        if bits < 24 and n % 3:
                            continue
                        polyfill(ctx, B, P, c, (a, b, d, e), col)
                        ctx.trace()
                ctx.state((bits, a, b))
        if i == 0 and bits != 4:
            for sides in (3, 4, 5, 6, 8, 12):
                for r in (1, 2, 3):
                    for ang in (0, 15, 45, 200):
                        ok, vs = call(ctx, 'regpolygonvert', P.regpolygonvert, 4, 3, r, sides, ang)
                        if ok and all(0 <= x < w and 0 <= y < h for x, y in vs):
                            # rounding may dent a polygon; then only compare when still convex
                            if convex([tuple(v) for v in vs]):
                                polyfill(ctx, B, P, c, tuple(tuple(v) for v in vs), col)
                                ctx.trace()
    elif kind == 'polyout':
        bits = unit[1]
        w, h = 6, 5
        img = mkimg(w, h, bits)
        c = Case(img)
        col = COLS[bits][1]
        V = [(0, 0), (5, 0), (2, 4), (-1, 2), (6, 3), (3, -1), (1, 5)]
        for a in V:
            for b in V:
                for d in V:
                    if all(0 <= x < w and 0 <= y < h for x, y in (a, b, d)):
                        polyfill(ctx, B, P, c, (a, b, d), col)
                    else:
                        # a polygon that leaves the image is refused
                        check(ctx, 'plotpolyfill-outside', c, B.plotpolyfill, ([a, b, d], col), set(), col)
                    ctx.trace()
                    ctx.state((bits, a, b, d))
        # fractional vertices round
        check(ctx, 'plotpolyfill-float', c, B.plotpolyfill, ([(0.3, 0.4), (4.8, -0.4), (5.2, 3.6), (0.1, 4.4)], col),
              {(x, y) for x in range(6) for y in range(5)} if bits != 4 else None or {(x, y) for x in range(6) for y in range(5)},
              col, [(y, 0, 5) for y in range(1, 4)] if bits == 4 else None) if bits != 4 else None
    elif kind == 'para':
        _, bits, n, i, m = unit
        w, h = {1: 32, 4: 16, 8: 12, 24: 4 * n + 4}[bits], 4 * n + 1
        img = mkimg(w, h, bits)
        c = Case(img)
        col = COLS[bits][1]
        ox, oy = w - 1 - 2 * n, 2 * n
        for ax in range(-n, n + 1):
            if ax % m != i:
                continue
            for ay in range(-n, n + 1):
                for bx in range(-n, n + 1):
                    for by in range(-n, n + 1):
                        if (ax, ay) == (0, 0) or (bx, by) == (0, 0):
                            continue
                        args = ((ox, oy), (ox + ax, oy + ay), (ox + bx, oy + by))
                        det = ax * by - ay * bx
                        sig = 'filledparallelogram|b%d' % bits
                        buf = c.buf[:]
                        ok, _ = call(ctx, sig, B.filledparallelogram, buf, *args, col)
                        if not ok:
                            continue
                        if len(buf) != c.n or bytes(buf[:c.hd]) != c.hdr:
                            ctx.fail(sig + '|header', args=args)
                            continue
                        px = decode_pixels(buf, w, h, bits)
                        bad = []
                        for y in range(h):
                            for x in range(w):
                                dx, dy = x - ox, y - oy
                                if det:
                                    u, v = (dx * by - dy * bx), (ax * dy - ay * dx)
                                    if det < 0:
                                        u, v = -u, -v
                                    D = abs(det)
                                    inn = 0 <= u <= D and 0 <= v <= D
                                else:
                                    inn = False
                                if inn and px[y][x] != col:
                                    bad.append(('not filled', x, y))
                                elif not inn and px[y][x] != img.px[y][x] and bits != 4:
                                    # less than two pixels from the exact parallelogram
                                    if px[y][x] != col or not near(det, ax, ay, bx, by, dx, dy):
                                        bad.append(('outside', x, y))
                        if bad and bits == 4:
                            # the recorded defect of horizontal 4-bit lines leaves their end pixel out or paints one
                            # pixel too many; only a parallelogram with horizontal strokes may show it
                            ctx.fail(sig + ('|known4bit' if ay == 0 and all(b[0] == 'not filled' for b in bad) else ''), args=args, bad=bad[:6])
                        elif bad:
                            ctx.fail(sig, args=args, bad=bad[:6], got=show(px, bits))
                        ctx.trace()
                ctx.state((bits, ax, ay))
    elif kind == 'rot':
        _, bits, i = unit
        w, h = {1: 32, 4: 16, 8: 12, 24: 12}[bits] if i % 2 else 13, 11
        img = mkimg(w, h, bits)
        c = Case(img)
        col = COLS[bits][1]
        for a, b in [(4, 2), (1, 5), (3, 3), (0, 4)][i:i + 1]:
            o = ell_outline(ctx, B, a, b)
            if o is None:
                continue
            for deg in (0, 30, 45, 90, 137, 180, 270, -20):
                t = math.radians(deg)
                for x, y in ((6, 5), (0, 9), (w - 1, 0)):
                    pts, skip = set(), False
                    for dx, dy in o:
                        X, Y = dx * math.cos(t) - dy * math.sin(t), dx * math.sin(t) + dy * math.cos(t)
                        skip |= any(abs(abs(v - math.floor(v)) - 0.5) < 1e-6 for v in (X, Y))
                        pts.add((x + round(X), y + round(Y)))
                    if skip:
                        continue
                    for r in (0, 1, 2):
                        s = set()
                        for p in pts:
                            s |= filldisc(*p, r)
                        rh = rowhalf(r)
                        rows = [(p[1] + d, p[0] - rh[abs(d)], p[0] + rh[abs(d)]) for p in pts for d in range(-r, r + 1)]
                        check(ctx, 'thickellipserot', c, B.thickellipserot, (x, y, b, a, deg, r, col), s, col, rows)
                    ctx.trace()
                    ctx.state((bits, a, b, deg, x, y))
    elif kind == 'squircle':
        for r in range(1 + unit[1], 26, 3):
            w = 2 * r + 5
            s = drawn(ctx, 'squircle', B.squircle, w, w, (r + 2, r + 2, r, 0xffffff))
            if s is None:
                continue
            s = at(s, -r - 2, -r - 2)
            why = None
            if max(x for x, y in s) != r or min(x for x, y in s) != -r or max(y for x, y in s) != r or min(y for x, y in s) != -r:
                why = 'extent'
            elif not connected(s):
                why = 'gap'
            else:
                for x, y in s:
                    X, Y = abs(x), abs(y)
                    if max(X - 0.5, 0) ** 4 + max(Y - 0.5, 0) ** 4 > r ** 4 or (X + 1.5) ** 4 + (Y + 1.5) ** 4 < r ** 4:
                        why = 'pixel %s off the curve' % ((x, y),)
            if why:
                ctx.fail('squircle', r=r, why=why, got=sorted(s)[:40])
            ctx.trace()
            ctx.state(r)
    elif kind == 'thickc':
        bits = unit[1]
        w, h = {1: 32, 4: 16, 8: 12, 24: 12}[bits], 10
        img = mkimg(w, h, bits)
        c = Case(img)
        col = COLS[bits][1]
        for r in range(0, 5):
            o = outline(r)
            for pen in range(0, 4):
                f = filldisc(0, 0, pen)
                rh = rowhalf(pen)
                for x, y in ((6, 5), (0, 0), (11, 4), (w - 1, 1), (-2, 3), (5, 12)):
                    s = set()
                    rows = []
                    for p, q in o:
                        s |= at(f, x + p, y + q)
                        rows += [(y + q + d, x + p - rh[abs(d)], x + p + rh[abs(d)]) for d in range(-pen, pen + 1)]
                    check(ctx, 'thickcircle', c, B.thickcircle, (x, y, r, pen, col), s, col, rows)
                    ctx.trace()
                    ctx.state((bits, r, pen, x, y))


def near(det, ax, ay, bx, by, dx, dy):
    for ex in (-1, 0, 1):
        for ey in (-1, 0, 1):
            x, y = dx + ex, dy + ey
            if det:
                u, v = (x * by - y * bx), (ax * y - ay * x)
                if det < 0:
                    u, v = -u, -v
                D = abs(det)
                if 0 <= u <= D and 0 <= v <= D:
                    return True
            else:
                # a degenerate parallelogram is a segment
                if ax * y - ay * x == 0 and min(0, ax, bx, ax + bx) <= x <= max(0, ax, bx, ax + bx) \
                        and min(0, ay, by, ay + by) <= y <= max(0, ay, by, ay + by):
                    return True
    # less than two pixels from the exact figure
    P = [(0, 0), (ax, ay), (ax + bx, ay + by), (bx, by)]
    for i in range(4):
        (px, py), (qx, qy) = P[i], P[(i + 1) % 4]
        l2 = (qx - px) ** 2 + (qy - py) ** 2
        t = 0 if l2 == 0 else max(0, min(1, ((dx - px) * (qx - px) + (dy - py) * (qy - py)) / l2))
        if (dx - px - t * (qx - px)) ** 2 + (dy - py - t * (qy - py)) ** 2 < 4:
            return True
    return False
