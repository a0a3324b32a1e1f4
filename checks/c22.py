"""Curves, polygons and recursive curves against their equations."""
import cmath, itertools, math, os, tempfile
from mc.core import *

BOUNDS = {
    'quick': 'every curve generator on a grid of centres, sizes, shape parameters, steps and limits; Bezier and B-spline curves of all control point lists of 2 to 5 points from small grids and of 9 to 131 points, '
             'open and closed; regular polygons of 3 to 40 sides; spirals to five turns; Hilbert curves to order 5 and Koch curves to order 4, as vertices and as saved pictures at every depth; '
             'the curves drawn with four pens at every depth; each parameter also far outside its usual range (centres to 2014, sizes to 444, 14 and 44 lobes, pens to 19), control point lists of up to 13 far points',
    'thorough': 'as quick with denser control point and parameter grids, polygons to 120 sides, Hilbert order 6, Koch order 6'}
GEN = ['spirograph', 'lissajouscurve', 'circleinvolute', 'epicycloid', 'hypotrochoid', 'flower', 'squircle', 'superellipse', 'gearcurve', 'cornuspiral', 'heartcurve', 'eggcurve']
SPIRAL_STEPS = [(1, 1), (2, 1), (5, 1), (3, 2), (7, 1.5), (2, 0.5)]


def units(tier):
    u = [('gen', g) for g in GEN] + [('polygon', i) for i in range(4)] + [('spiral',)]
    u += [('bezier', n, i) for n in (2, 3, 4, 5) for i in range(1 if n < 4 else 4)]
    u += [('bspline', n, i) for n in (2, 3, 4, 5) for i in range(1 if n < 4 else 4)]
    u += [('hilbert', b) for b in DEPTHS] + [('koch', b) for b in DEPTHS] + [('draw', b) for b in DEPTHS] + [('flower', b) for b in DEPTHS]
    return u


def run_unit(unit, ctx, tier):
    bind()
    globals()[unit[0] + '_'](ctx, tier, *unit[1:])


def times(delta, lim):
    t, n = [], 0
    while n * delta < lim - 1e-9:
        t.append(n * delta)
        n += 1
    return t


def sg(w):
    return 0 if abs(w) < 1e-12 else (w > 0) - (w < 0)


def lines(*axes):
    """product of the axes; an axis may be a pair (values, further values tried with each of the others at its first and last)"""
    base = [a[0] if isinstance(a, tuple) and isinstance(a[0], (tuple, list)) and isinstance(a[-1], set) else a for a in axes]
    yield from itertools.product(*base)
    for i, a in enumerate(axes):
        if base[i] is not a:
            for v in sorted(a[1]):
                yield from itertools.product(*[[v] if j == i else [b[0], b[-1]] for j, b in enumerate(base)])


def params(name, tier):
    """(arguments, exact points of the curve in order)"""
    big = tier == 'thorough'
    C = ([(0, 0), (40, -7)] + ([(3, 100)] if big else []), {(149, 44), (-9, 19), (1004, 2014), (14, -144)})
    T = ([(0.1, 6.3), (0.25, 15), (1 / 120, 1), (0.5, 0), (0.3, 0.2)] + ([(0.05, 40), (1, 100)] if big else []), {(0.05, 44), (1, 90), (5, 100), (14, 60), (0.00314159, 12)})
    j = 1j
    if name == 'spirograph':
        for (x, y), r, l, k, (d, lim) in lines(C, ((1, 20, 111), {14, 419, -9}), ((0.5, 1, 1.8), {4, 14, -5, 44}), ((0.2, 0.25, 0.5, 1 / 3, 0.7), {4, 14, -5, 44}), T):
            yield (x, y, r, l, k, d, lim), [complex(x + r * ((1 - k) * math.cos(t) + l * k * math.cos((1 - k) / k * t)), y + r * ((1 - k) * math.sin(t) - l * k * math.sin((1 - k) / k * t))) for t in times(d, lim)]
    elif name == 'lissajouscurve':
        for (x, y), a, b, c, dd, e, (d, lim) in lines(C, ((1, 30), {14, 444, -9}), ((2, 45.5), {14, 444, -9}), ((1, 3), {14, 44, -9}), ((1, 2, 2.5), {14, 44, -9}), ((0, 1, -0.5), {14, 44, -9}), T):
            yield (x, y, a, b, c, dd, e, d, lim), [complex(x + a * math.cos(c * t + e), y + b * math.sin(dd * t)) for t in times(d, lim)]
        for e in (40, -25.5, 2 * math.pi, 100 * math.pi):      # phases of many turns
            for a, b in ((900, 900), (30, 700)):
                yield (3, 4, a, b, 1, 2, e, 0.5, 6.3), [complex(3 + a * math.cos(t + e), 4 + b * math.sin(2 * t)) for t in times(0.5, 6.3)]
    elif name == 'circleinvolute':
        for (x, y), a, (d, lim) in lines(C, ((0, 1, 5, 12.5), {14, 44, -9}), T):
            yield (x, y, a, d, lim), [complex(x + a * (math.cos(t) + t * math.sin(t)), y + a * (math.sin(t) - t * math.cos(t))) for t in times(d, lim)]
    elif name == 'epicycloid':
        for (x, y), a, b, (d, lim) in lines(C, ((10, 30, 60), {14, 4, 444, -9}), ((10, 20, 7.5), {14, 4, 444, -9}), T):
            yield (x, y, a, b, d, lim), [complex(x + (a + b) * math.cos(t) - b * math.cos((a + b) / b * t), y + (a + b) * math.sin(t) - b * math.sin((a + b) / b * t)) for t in times(d, lim)]
    elif name == 'hypotrochoid':
        for (x, y), a, b, c, (d, lim) in lines(C, ((30, 60, 100), {14, 4, 444, -9}), ((10, 20, 7.5), {14, 4, 444, -9}), ((0, 5, 10, 33), {14, 4, 444, -9}), T):
            yield (x, y, a, b, c, d, lim), [complex(x + (a - b) * math.cos(t) + c * math.cos((a - b) / b * t), y + (a - b) * math.sin(t) - c * math.sin((a - b) / b * t)) for t in times(d, lim)]
    elif name == 'flower':
        for (x, y), r, p, a in lines(C, ((1, 10, 77), {14, 444, -9}), ((1, 2, 3, 5, 8), {4, 14, 44}), ((0, 30, 45, -90), {4, 14, 414})):
            pts = []
            for i in range(360 * p):
                t = math.radians(i / p)
                f = r * math.cos(p * t / 2) ** 2
                pts.append(complex(x - f * math.sin(t + math.radians(a)), y - f * math.cos(t + math.radians(a))))
            yield (x, y, r, p, a), pts
    elif name in ('squircle', 'superellipse'):
        for (x, y), a, b, m, n in lines(C, ((0, 1, 20, 33), {14, 444}), ((1, 20, 60), {14, 444}), ((0.5, 1, 2, 4), {9, 14}), ((0.7, 2, 5), {9, 14})):
            if name == 'squircle':
                if (b, n) != (1, 0.7) or m != 4:
                    continue
                arg, b, m, n = (x, y, a), a, 4, 4
            else:
                arg = (x, y, a, b, m, n)
            tr = [math.radians(i) for i in range(360)]
            yield arg, [complex(x + a * abs(math.cos(t)) ** (2 / m) * sg(math.cos(t)), y + b * abs(math.sin(t)) ** (2 / n) * sg(math.sin(t))) for t in tr]
    elif name == 'gearcurve':
        for (x, y), a, b, n in lines(C, ((10, 40), {14, 444, -9}), ((1, 3, 12), {14, 44, -9}), ((1, 3, 8, 12), {14, 44, 4})):
            yield (x, y, a, b, n), [complex(x, y) + cmath.rect(a + b * math.tanh(b * math.sin(n * math.radians(i))), math.radians(i)) for i in range(360)]
    elif name == 'cornuspiral':
        for (x, y), r in lines(C, ((1, 10, 50, 123), {14, 444, -9})):
            z, pts, c = complex(x, y), [], math.pi / 180
            for i in range(360):
                z += cmath.rect(r * c, (i * c) ** 2)
                pts.append(z)
            yield (x, y, r), pts
    elif name == 'heartcurve':
        for (x, y), s in lines(C, ((0, 1, 2, 7), {14, 44, -9})):
            pts = []
            for i in range(360):
                t = math.radians(i)
                pts.append(complex(x + s * 16 * math.sin(t) ** 3, y - s * (13 * math.cos(t) - 5 * math.cos(2 * t) - 2 * math.cos(3 * t) - math.cos(4 * t))))
            yield (x, y, s), pts


def near(p, q, tol=1.0 + 1e-6):
    return abs(p[0] - q.real) < tol and abs(p[1] - q.imag) < tol


def gen_(ctx, tier, name):
    from pythonbmp import primitives2D as P
    it, vt = getattr(P, 'iter' + name), getattr(P, name + 'vert')
    if name == 'eggcurve':
        return egg(ctx, tier, it, vt)
    n = 0
    for args, want in params(name, tier):
        ok, got = call(ctx, 'iter' + name, lambda: list(it(*args)))
        ctx.step(len(want))
        if ok:
            if abs(len(got) - len(want)) > (1 if len(args) > 4 and name in ('spirograph', 'lissajouscurve', 'circleinvolute', 'epicycloid', 'hypotrochoid') else 0):
                ctx.fail('iter%s|number of vertices' % name, args=args, got=len(got), expected=len(want))
            for i, (p, q) in enumerate(zip(got, want)):
                if not near(p, q) or any(type(c) != int for c in p):
                    ctx.fail('iter%s|vertex' % name, args=args, number=i, got=p, expected=(q.real, q.imag))
                    break
            ok, lst = call(ctx, name + 'vert', vt, *args)
            if ok and lst != got:
                ctx.fail('%svert|differs from iterator' % name, args=args)
        ctx.state(args)
        ctx.trace(2)
        n += 1
    ctx.sample('%s: %d parameter lists, every vertex within one pixel of the equation' % (name, n))


def egg(ctx, tier, it, vt):
    """(x*x + y*y)**2 = a*x**3 + (a - b)*x*y*y, x from 0 to a, mirrored, centred on the length."""
    for (x, y), a in itertools.product([(0, 0), (40, -7), (100, 100), (-9, 144)], [1, 3, *range(2, 140, 1 if tier == 'thorough' else 6), 199, 444]):
        for b in sorted({0, a // 4, a // 2, 3 * a // 4, a - 1}):
            ok, got = call(ctx, 'itereggcurve', lambda: list(it(x, y, a, b)))
            if not ok:
                continue
            k = a - b
            want = {}
            for dx in range(a):
                u = dx * ((k - 2 * dx) + math.sqrt(k * k + 4 * b * dx)) / 2
                want[dx - (a >> 1) + x] = math.sqrt(max(0, u))
            for px, h in want.items():
                ys = sorted(q[1] - y for q in got if q[0] == px)
                if h >= 1.01 and not (len(ys) == 2 and ys[0] == -ys[1] and abs(ys[1] - h) < 1 + 1e-6) or h < 0.99 and len(ys) > 2 or any(abs(abs(i) - h) > 1 + 1e-6 for i in ys):
                    ctx.fail('itereggcurve|outline', args=(x, y, a, b), column=px, got=ys, expected=h)
                    break
            if any(q[0] not in want for q in got):
                ctx.fail('itereggcurve|outside its length', args=(x, y, a, b))
            ok, lst = call(ctx, 'eggcurvevert', vt, x, y, a, b)
            if ok and lst != got:
                ctx.fail('eggcurvevert|differs from iterator', args=(x, y, a, b))
            ctx.state((x, y, a, b))
            ctx.trace(2)


def polygon_(ctx, tier, part):
    """Exactly the asked number of corners, on the circle, evenly spaced, the first at the angle from straight up, turning left."""
    from pythonbmp import primitives2D as P
    for sides in range(3 + part, 121 if tier == 'thorough' else 41, 4):
        for (x, y), r, a in lines(([(0, 0), (50, -20), (2.5, 7.25)], {(-9, 144), (1004, 14)}), ((0, 1, 10, 80.5), {14, 444, -9}), ((0, 30, 45, 90, -17, 360), {4, 414, -404})):
            w = [(x - r * math.sin(math.radians(a) + 2 * math.pi * i / sides), y - r * math.cos(math.radians(a) + 2 * math.pi * i / sides)) for i in range(sides)]
            ok, v = call(ctx, 'floatregpolygonvert', P.floatregpolygonvert, x, y, r, sides, a)
            if ok and (len(v) != sides or any(abs(p[0] - q[0]) > 1e-6 or abs(p[1] - q[1]) > 1e-6 for p, q in zip(v, w))):
                ctx.fail('floatregpolygonvert|corners', args=(x, y, r, sides, a), got=v[:9], count=len(v), expected=w[:9])
            ok, v = call(ctx, 'regpolygonvert', P.regpolygonvert, x, y, r, sides, a)
            if ok and (len(v) != sides or any(type(c) != int or abs(c - e) > 0.5 + 1e-6 for p, q in zip(v, w) for c, e in zip(p, q))):
                ctx.fail('regpolygonvert|corners', args=(x, y, r, sides, a), got=v[:9], count=len(v), expected=w[:9])
            ctx.state((x, y, r, sides, a))
            ctx.trace(2)


def spiral_(ctx, tier):
    """Legs right, down, left, up, each longer than the one before by the increment, which grows by the factor every turn."""
    from pythonbmp import primitives2D as P
    for (x, y), (step, g), turns in lines(([(0, 0), (30, -4)], {(-9, 144), (1004, 14)}), (SPIRAL_STEPS, {(44, 1), (14, 4), (-9, 1), (4, 14)}), (tuple(range(6)), {9, 14, 44})):
        w, px, py, leg, inc = [[x, y]], x, y, step, step
        for t in range(turns):
            for dx, dy in ((1, 0), (0, 1), (-1, 0), (0, -1)):
                px, py = px + dx * leg, py + dy * leg
                w.append([px, py])
                leg += inc
            inc *= g
        ok, v = call(ctx, 'spiralcontrolpointsvert', P.spiralcontrolpointsvert, x, y, step, g, turns)
        if ok and (len(v) != len(w) or any(abs(a - b) > 1e-6 for p, q in zip(v, w) for a, b in zip(p, q))):
            ctx.fail('spiralcontrolpointsvert|points', args=(x, y, step, g, turns), got=v[:12], expected=w[:12])
        ctx.state((x, y, step, g, turns))
        ctx.trace()


def ctrl(n, part, parts, tier, far=False):
    if n == 2:
        c = [(p, q) for p in itertools.product((0, 7), (0, 20)) for q in itertools.product((-3, 0, 9), (0, 5))]
    elif n == 3:
        g = list(itertools.product((0, 9), (0, 14)))
        c = list(itertools.product(g, repeat=3))
    else:
        g = [(0, 0), (12, 3), (5, 15), (-4, 8)] + ([(20, 20)] if tier == 'thorough' else [])
        c = list(itertools.product(g, repeat=n))
    c = c[part::parts]
    far_ = []
    if part == 0:
        # longer lists and far points
        z = [(149, 44), (164, 71), (144, 104), (184, 99), (214, 79), (201, 41), (244, 14), (279, 64), (-9, -14)]
        far_ = [tuple(z[:n]), tuple(z[::-1][:n])] + ([tuple(z[:7]), tuple(z), tuple(z[i // 2] if i % 2 else z[-1 - i // 3] for i in range(13))] if n == 5 else [])
    return far_ + c + [tuple((9 * x - 20, 11 * y + 7) for x, y in p) for p in c[::5]] + [tuple((50 * x, 40 * y + 7) for x, y in p) for p in c[::9][:10] if far]


def bend(c, wrap=False):
    """Largest second difference of the control points."""
    e = list(c) + (list(c[:2]) if wrap else [c[-1], c[-1]])
    return max([0] + [max(abs(p[0] - 2 * q[0] + r[0]), abs(p[1] - 2 * q[1] + r[1])) for p, q, r in zip(e, e[1:], e[2:])])


def dense(c, per):
    """Samples needed for half a pixel between them."""
    return max(16, int(sum(math.dist(p, q) for p, q in zip(c, c[1:])) * 2 * per) + 1)


def cover(ctx, sig, args, got, exact, ends, sag=0):
    """Vertices lie on the curve, the curve is covered by vertices, the end points are there."""
    pts = {tuple(p) for p in got}
    buckets = {}
    for q in exact:
        buckets.setdefault((math.floor(q[0] / 2), math.floor(q[1] / 2)), []).append(q)

    def close(p, b, tol):
        i, j = math.floor(p[0] / 2), math.floor(p[1] / 2)
        return any(max(abs(p[0] - q[0]), abs(p[1] - q[1])) <= tol for di in (-1, 0, 1) for dj in (-1, 0, 1) for q in b.get((i + di, j + dj), ()))
    bad = [p for p in pts if not close(p, buckets, 1.25 + sag)]
    if bad or any(type(c) != int for p in pts for c in p):
        ctx.fail(sig + '|vertex off the curve', args=args, vertices=sorted(bad)[:5])
    pb = {}
    for p in pts:
        pb.setdefault((p[0] // 2, p[1] // 2), []).append(p)
    bad = [q for q in exact if not close(q, pb, 1.25 + sag)]
    if bad:
        ctx.fail(sig + '|gap in the curve', args=args, at=bad[:3], count=len(bad))
    for e in ends:
        if tuple(e) not in pts:
            ctx.fail(sig + '|end point missing', args=args, point=e)


def bez(c, k):
    n, out = len(c) - 1, []
    for i in range(k + 1):
        q = [tuple(map(float, p)) for p in c]
        u = i / k
        while len(q) > 1:
            q = [(a[0] + (b[0] - a[0]) * u, a[1] + (b[1] - a[1]) * u) for a, b in zip(q, q[1:])]
        out.append(q[0])
    return out


def bezier_(ctx, tier, n, part):
    from pythonbmp import primitives2D as P
    for c in itertools.chain(ctrl(n, part, 1 if n < 4 else 4, tier), LONG[:2] if (n, part) == (4, 0) else ()):
        cl = [list(p) for p in c]
        ok, got = call(ctx, 'iterbeziercurve', lambda: [tuple(p) for p in P.iterbeziercurve(cl)])
        if ok:
            cover(ctx, 'iterbeziercurve', c, got, bez(c, dense(c, 1.5)), (c[0], c[-1]), len(c) * (len(c) - 1) * bend(c) / 8 / (4 * len(c)) ** 2)
            ok, v = call(ctx, 'beziercurvevert', P.beziercurvevert, cl, True, True)
            if ok and [tuple(p) for p in v] != got:
                ctx.fail('beziercurvevert|differs from iterator', args=c)
        if cl != [list(p) for p in c]:
            ctx.fail('iterbeziercurve|arguments changed', args=c)
        ctx.state(c)
        ctx.trace(2)


def spl(c, closed, back, k):
    """Uniform cubic B-spline.  Back: the control points repeat; else the last one is repeated and, in front, the curve leads in straight from the first."""
    n, out = len(c), []
    at = (lambda i: c[i % n]) if back else (lambda i: c[min(i, n - 1)])
    segs = range(2, n + 2) if back and closed else range(2, n) if back else range(n + (2 if closed else 0))
    for i in segs:
        p = [at(i + m) for m in range(4)]
        for s in range(k + 1):
            u = s / k
            b = ((1 - u) ** 3 / 6, (3 * u ** 3 - 6 * u * u + 4) / 6, (-3 * u ** 3 + 3 * u * u + 3 * u + 1) / 6, u ** 3 / 6)
            out.append(tuple(sum(b[m] * p[m][d] for m in range(4)) for d in (0, 1)))
    if not back:
        q = out[0]
        m = 2 * int(math.dist(c[0], q)) + 2
        out += [(c[0][0] + (q[0] - c[0][0]) * i / m, c[0][1] + (q[1] - c[0][1]) * i / m) for i in range(m + 1)]
    return out


# many control points: more than a byte's half, not a multiple of any block
LONG = [tuple((7 * i, (i * 11) % 40 + (i & 1) * 9) for i in range(n)) for n in (9, 17, 35, 70, 131)]


def bspline_(ctx, tier, n, part):
    from pythonbmp import primitives2D as P
    for c in itertools.chain(ctrl(n, part, 1 if n < 4 else 4, tier, True), LONG if (n, part) == (5, 0) else ()):
        for closed, back in ((True, True), (False, False), (True, False)):
            cl = [list(p) for p in c]
            ok, got = call(ctx, 'iterbspline', lambda: [tuple(p) for p in P.iterbspline(cl, closed, back)])
            if ok:
                cover(ctx, 'iterbspline|%s%s' % ('closed ' if closed else 'open ', 'back' if back else ''), (c, closed, back), got, spl(c, closed, back, dense(c, 0.4 if max(map(max, c)) < 50 else 1)), () if back else (c[0], c[-1]), bend(c, True) / 8 / (4 * len(c)) ** 2)
                ok, v = call(ctx, 'bsplinevert', P.bsplinevert, cl, closed, back)
                if ok and [tuple(p) for p in v] != got:
                    ctx.fail('bsplinevert|differs from iterator', args=c)
            if cl != [list(p) for p in c]:
                ctx.fail('iterbspline|arguments changed', args=c)
            ctx.state((c, closed, back))
            ctx.trace(2)


def draw_(ctx, tier, bits):
    """A drawn curve is the round pen at every vertex; a squircle is the closed polygon of its vertices."""
    from pythonbmp import BITMAPlib as B, primitives2D as P
    from mc import draw as D
    w, h = 31, 27
    for img in (mkimg(w, h, bits, k=1), mkimg(160, 97, bits, k=1)):
        base = mkbuf(img)
        w, h = img.w, img.h
        jobs = []
        for c in ctrl(3, 0, 1, tier)[::5] + ctrl(4, 0, 8, tier) if w < 99 else [((84, 49), (99, 64), (119, 44)), ((-9, 14), (64, 104), (109, 19), (74, 54), (139, 84)), ((14, 4), (44, 74))]:
            c = [(x + 5, y + 4) for x, y in c]
            for pen in (0, 1, 2, 3, 5) if w < 99 else (1, 4, 14, 19):
                if bits == 4 and pen > 1:
                    continue
                jobs.append(('beziercurve', (c, pen), list(P.iterbeziercurve(c)), lambda b, c=c, pen=pen: B.beziercurve(b, c, pen, 7)))
                for f in ((True, True), (False, False)):
                    jobs.append(('bspline', (c, pen, f), list(P.iterbspline(c, *f)), lambda b, c=c, pen=pen, f=f: B.bspline(b, c, pen, 7, *f)))
        for sig, args, pts, run in jobs:
            pen = args[1]
            s = set()
            for p in {tuple(p) for p in pts}:
                s |= D.filldisc(p[0], p[1], pen) if pen > 1 else {p}
            buf = base[:]
            ok, _ = call(ctx, '%s|b%d' % (sig, bits), run, buf)
            if ok:
                ctx.expect_grid('%s|b%d' % (sig, bits), D.paint(img.px, s, 7, bits), decode_pixels(buf, w, h, bits), args=args)
            ctx.state(repr((sig, args)))
            ctx.trace()
        for x, y, r in ((15, 13, 9), (3, 20, 8), (15, 13, 0), (15, 13, 1)) if w < 99 else ((74, 49, 44), (-9, 84, 19), (119, 14, 14)):
            v = list(P.itersquircle(x, y, r))
            want, back, buf = base[:], base[:], base[:]
            for a, b in zip(v, v[1:] + v[:1]):
                B.linevec(want, a, b, 7)
            for a, b in [*zip(v, v[1:]), (v[0], v[-1])]:    # the closing side may be drawn the other way round
                B.linevec(back, a, b, 7)
            ok, _ = call(ctx, 'squircle|b%d' % bits, B.squircle, buf, x, y, r, 7)
            if ok and buf not in (want, back):
                ctx.fail('squircle|b%d' % bits, args=(x, y, r))
            ctx.state(('squircle', x, y, r))
            ctx.trace()


def flower_(ctx, tier, bits):
    """plotflower and plotfilledflower paint the vertices of their flowers, in true colour each in the colour of its distance."""
    from pythonbmp import BITMAPlib as B, primitives2D as P
    from mc.draw import paint
    w, h = 33, 29
    img = mkimg(w, h, bits, k=2)
    lums = ((255, 0), (40, 200))
    facs = ((1, 1, 1), (1, 0.5, 0))
    cases = [(x, y, r, p, a) for x, y in ((16, 14), (2, 25)) for r in (3, 9, 14) for p in (1, 2, 3, 4) for a in (0, 20)]
    jobs = [(img,) + j for j in itertools.product(cases, lums, facs)]
    # far from the corner of a bigger picture
    big = mkimg(128, 93, bits, k=3)
    jobs += [(big,) + j for j in (((84, 49, 24, 4, 14), (244, 9), (0.7, 0.2, 1)), ((49, 64, 44, 5, 404), (9, 154), (1, 1, 0.3)), ((-9, 104, 44, 14, -44), (250, 44), (1, 1, 1)))]
    for img, (x, y, r, p, a), (l1, l2), f in jobs:
        w, h = img.w, img.h
        for filled in (0, 1):
            if filled and (l1 == 40 or p in (2, 4) and a or p == 14):
                continue
            rr = range(r, 2, -1) if filled else (r,)
            buf = mkbuf(img)
            fn = B.plotfilledflower if filled else B.plotflower
            sig = '%s|b%d' % (fn.__name__, bits)
            ok, _ = call(ctx, sig, fn, buf, x, y, r, p, a, (l1, l2), f)
            if not ok:
                continue
            col = {}
            for q in rr:
                for vx, vy in P.iterflower(x, y, q, p, a):
                    lum = l1 + (l2 - l1) * math.hypot(vx - x, vy - y) / q
                    col[vx, vy] = lum
            g = decode_pixels(buf, w, h, bits)
            for yy in range(h):
                for xx in range(w):
                    v = g[yy][xx]
                    if (xx, yy) not in col:
                        if v != img.px[yy][xx]:
                            ctx.fail(sig + '|outside the flower', args=(x, y, r, p, a), at=(xx, yy))
                    elif bits == 24:
                        lum = min(max(col[xx, yy], -255), 255)
                        chan = (v >> 16 & 255, v >> 8 & 255, v & 255)
                        if any(abs(c - abs(lum) * k) > 1.6 for c, k in zip(chan, f)):
                            ctx.fail(sig + '|colour', args=(x, y, r, p, a, (l1, l2), f), at=(xx, yy), got='%06x' % v, expected=[abs(lum) * k for k in f])
            if bits < 24:
                # the same vertices whatever was there before
                other = mkbuf(mkimg(w, h, bits, k=5))
                fn(other, x, y, r, p, a, (l1, l2), f)
                o = decode_pixels(other, w, h, bits)
                if any(o[vy][vx] != g[vy][vx] for vx, vy in col if 0 <= vx < w and 0 <= vy < h):
                    ctx.fail(sig + '|vertex not painted', args=(x, y, r, p, a))
            ctx.state((x, y, r, p, a, l1, f, filled))
            ctx.trace()


def hilbert_(ctx, tier, bits):
    """Order n: the middles of the 2**n by 2**n cells, every one once, each next to the one before; the saved picture joins them."""
    from pythonbmp import BITMAPlib as B, fractals as F
    top = 6 if tier == 'thorough' else 5
    sizes = [(64, 64), (64, 32), (33, 47), (128, 128), (309, 274)]
    for (x, y), n, orient in itertools.product(sizes, range(top + 1), (0, 1)):
        l = []
        o = (0, y, x, 0) if orient else (x, 0, 0, y)
        ok, _ = call(ctx, 'hilbertvert', F.hilbertvert, l, (0, 0), o, n)
        if not ok:
            continue
        k = 2 ** n
        # cells along the two axes: which vertex belongs to which cell
        cells = []
        for p in l:
            c = (min(range(k), key=lambda i: abs((i + 0.5) * x / k - p[0])), min(range(k), key=lambda i: abs((i + 0.5) * y / k - p[1])))
            if abs((c[0] + 0.5) * x / k - p[0]) > 0.5 + 1e-9 or abs((c[1] + 0.5) * y / k - p[1]) > 0.5 + 1e-9:
                ctx.fail('hilbertvert|no cell middle', size=(x, y), order=n, vertex=p)
                break
            cells.append(c)
        if len(l) != k * k or x >= 2 * k and y >= 2 * k and len(set(cells)) != k * k:
            ctx.fail('hilbertvert|cells', size=(x, y), order=n, got=len(l), distinct=len(set(cells)))
        elif x >= 2 * k and y >= 2 * k and any(abs(a[0] - b[0]) + abs(a[1] - b[1]) != 1 for a, b in zip(cells, cells[1:])):
            ctx.fail('hilbertvert|jump', size=(x, y), order=n)
        if cells and x >= 2 * k and y >= 2 * k and k > 1 and (cells[0], cells[-1]) != (((0, 0), (k - 1, 0)) if orient else ((0, 0), (0, k - 1))):
            ctx.fail('hilbertvert|ends', size=(x, y), order=n, orientation=orient, got=(cells[0], cells[-1]))
        ctx.state((x, y, n, orient))
        ctx.trace()
        mask = (1 << bits) - 1
        for col, bg, pen in ((1, 0, 1), (0 if bits == 1 else 5, 1, 1), (1, 0, 2), (44, 9, 14)):
            if n > 4 and (x, y) != (64, 64) or pen > 1 and n > 2 or pen == 14 and (x < 128 or bits == 1 and n > 1 or bits == 1 and x > 128):
                continue
            picture(ctx, 'savehilbertcurve2file|b%d' % bits, x, y, bits, bg, hil(F, x - 1, y - 1, n, orient), col, pen, False,
                    lambda f: B.savehilbertcurve2file(f, x, y, n, bits, col, bg, pen, orient), (x, y, n, orient, col, bg, pen))


def hil(F, x, y, n, orient):
    l = []
    F.hilbertvert(l, (0, 0), (0, y, x, 0) if orient else (x, 0, 0, y), n)
    return l


def picture(ctx, sig, x, y, bits, bg, pts, col, pen, closed, run, args):
    """The saved file is a fresh image filled with the background, with the lines of the curve, and nothing else."""
    from pythonbmp import BITMAPlib as B
    want = B.newBMP(x, y, bits)
    if bg:
        B.filledrect(want, 0, 0, x - 1, y - 1, bg)
    seq = list(zip(pts, pts[1:])) + ([(pts[-1], pts[0])] if closed else [])
    for a, b in seq:
        if pen > 1:
            B.thickroundline(want, [round(a[0]), round(a[1])], [round(b[0]), round(b[1])], pen, col)
        else:
            B.linevec(want, a, b, col)
    with tempfile.TemporaryDirectory(prefix='c22') as d:
        f = os.path.join(d, 'f.bmp')
        ok, _ = call(ctx, sig, run, f)
        if ok:
            data = open(f, 'rb').read()
            if data != bytes(want):
                ctx.fail(sig + '|picture', args=args, length=(len(data), len(want)))
            if os.listdir(d) != ['f.bmp']:
                ctx.fail(sig + '|other files', args=args, files=os.listdir(d))
    ctx.state((sig, args))
    ctx.trace()


def kochref(u, v, n):
    """Every segment replaced by four of a third of its length, the middle two over the outside."""
    if n == 0:
        return [u]
    d = (v - u) / 3
    p = u + d + d * cmath.exp(1j * math.pi / 3)
    return kochref(u, u + d, n - 1) + kochref(u + d, p, n - 1) + kochref(p, v - d, n - 1) + kochref(v - d, v, n - 1)


def koch_(ctx, tier, bits):
    from pythonbmp import BITMAPlib as B, fractals as F, primitives2D as P
    top = 6 if tier == 'thorough' else 4
    if bits == 1:
        for u, v in [((0, 0), (9, 0)), ((3, 20), (81, -40)), ((5, 5), (5, 5)), ((10, 0), (-20.5, 7)), ((144, 49), (1009, 414)), ((-9, 344), (44, -14))]:
            for n in range(top + 1 if u != (144, 49) else 7):
                ok, l = call(ctx, 'kochcurvevert', F.kochcurvevert, u, v, n)
                want = kochref(complex(*u), complex(*v), n) + [complex(*v)]
                if ok and (len(l) != len(want) or any(abs(complex(*p) - q) > 1e-6 for p, q in zip(l, want))):
                    ctx.fail('kochcurvevert|vertices', args=(u, v, n), got=len(l), expected=len(want))
                ctx.state((u, v, n))
                ctx.trace()
            ok, t = call(ctx, 'koch', F.koch, u, v)
            w = kochref(complex(*u), complex(*v), 1)[1:]
            if ok and any(abs(complex(*p) - q) > 1e-6 for p, q in zip(t, w)):
                ctx.fail('koch|vertices', args=(u, v), got=t)
    for r, n, a in lines(((2, 9, 30, 61), {14, 144}), range(top + 1), ((0, 30, 90, -45), {4, 404})):
        x = y = 2 * r + 4
        t = [complex(round(x // 2 - r * math.sin(math.radians(a + k))), round(y // 2 - r * math.cos(math.radians(a + k)))) for k in (0, 120, 240)]
        ok, l = call(ctx, 'kochsnowflakevert', F.kochsnowflakevert, x // 2, y // 2, r, a, n)
        want = [q for i in range(3) for q in kochref(t[i], t[(i + 1) % 3], n) + [t[(i + 1) % 3]]]
        if ok and (len(l) != len(want) or any(abs(complex(*p) - q) > 1.01 for p, q in zip(l, want))):
            ctx.fail('kochsnowflakevert|vertices', args=(r, n, a), got=len(l), expected=len(want))
        if ok and any(math.dist(p, (x // 2, y // 2)) > r + 1.5 for p in l):
            ctx.fail('kochsnowflakevert|outside its circle', args=(r, n, a))
        ctx.state((r, n, a))
        for col, bg, pen in ((1, 0, 1), (0 if bits == 1 else 5, 1, 1), (1, 0, 2), (1, 0, 3), (44, 9, 14)):
            if n > 3 and a or pen > 1 and (n > 2 or a == -45) or pen == 14 and (n > 1 or r > 99 or bits == 1 and r > 14):
                continue
            m = 2 * r + 2 * pen + 2
            c = (m - 1) // 2
            v = F.kochsnowflakevert(c, c, r, a, n)
            picture(ctx, 'savekochsnowflake2file|b%d' % bits, m, m, bits, bg, v, col, pen, True,
                    lambda f: B.savekochsnowflake2file(f, r, n, a, bits, col, bg, pen), (r, n, a, col, bg, pen))
