"""Attractors: every orbit follows its map step by step and every picture is the histogram of its orbit."""
import cmath, contextlib, io, itertools, math, os, tempfile
from fractions import Fraction
from mc.core import *

BOUNDS = {
    'quick': '9 attractors, 6 to 20 parameter tuples each (published ones, zero, signs), orbits of 0, 1, 2 and 400 points judged step by step, further tuples well away from the published ones; pictures of 8 sizes from 2 by 2 to 79 by 4 and 44 by 44 at every depth from orbits of 1, 3 and 700 points, '
             'saved and returned; icons of degree 2 to 7 started at every rotation of their start',
    'thorough': 'as quick with orbits of 4000 points and three times the sizes'}
sin, cos = math.sin, math.cos


def sgn(x):
    return (x > 0) - (x < 0)


def mira(x, a):
    return a * x + 2 * (1 - a) * x * x / (1 + x * x) ** 2


def ikeda(z, a, b, k, p):
    return a + b * z * cmath.exp(1j * (k - p / (1 + abs(z) ** 2)))


def nstep(q, a, b, c, d):
    x = a * sin(a * q[1]) + b * cos(b * q[0])
    return x, c * sin(c * x) + d * cos(d * q[1])


def gumowski(q, a, b):
    x = b * q[1] + mira(q[0], a)
    return x, mira(x, a) - q[0]


def dejong(q, a, b, c, d):
    return sin(a * q[1]) - cos(b * q[0]), sin(c * q[0]) - cos(d * q[1])


def clifford(q, a, b, c, d):
    return sin(a * q[1]) + c * cos(a * q[0]), sin(b * q[0]) + d * cos(b * q[1])


def dream(q, a, b, c, d):
    return sin(b * q[1]) + c * sin(b * q[0]), sin(a * q[0]) + d * sin(a * q[1])


def hopalong(q, a, b, c):
    return q[1] - sgn(q[0]) * abs(b * q[0] - c) ** 0.5, a - q[0]


def icon(z, a, b, g, o, l, d):
    return (l + a * abs(z) ** 2 + b * (z ** d).real + 1j * o) * z + g * z.conjugate() ** (d - 1)


ABCD = [(1.641, 1.902, .316, 1.525), (-1.7, 1.3, -.1, -1.2), (0, 0, 0, 0), (1, 0, 0, 0), (-0.966918, 2.879879, 0.765145, 0.744728), (0, 1.5, -2, 0.3), (2.01, -2.53, 1.61, -0.33)]
# name: (list parameters -> start, step), parameter tuples of the list function without n
A = {
    'ikeda': [(0.85, 0.9, 0.4, 7.7), (1, 0.7, 0.4, 6), (0, 0.5, 1, 2), (0.3, -0.6, 0, 0), (2, 0.9, 0.4, 6)],
    'n': [(1.641, -1.902, 1.316, 1.525)] + ABCD,
    'gumowskimira': [(1, .34, .34, 1), (0.1, 0.1, -0.48, 0.93), (0, 0, 0.5, 1), (0.5, -2, 0, 0.9), (3, 1, -0.2, 1)],
    'peterdejong': ABCD, 'clifford': ABCD, 'fractaldream': ABCD,
    'hopalong': [(1.441, 1.802, -.316), (0, 0, 0), (2, 1, 0), (-11, 0.05, 0.5), (0.4, 1, 3), (1, -2, 4)],
    'symmetricicon': [(0.01, 0.01, 1.0, -0.1, 0.167, 0.0, -2.08, 7), (0.1, -0.2, 1.8, 0, 1, 0.1, -1.93, 5), (0.2, 0, -1, 0.1, -0.82, 0.12, 1.56, 3), (0.3, 0.1, 0, 0, 0, 0.5, 0.5, 4), (0.1, 0.3, 2, 0.2, 0.1, -0.3, -1.8, 2), (0.1, 0, 1, 0, 0.1, 0, -1, 4)],
    'duffing': [(0, 0, 0, 0.05, 0.25, 0.3, 1.0), (1, -0.5, 2, 0.01, 0.25, 0.3, 1.2), (0, 0, 0, 0.1, 0.3, 0, 1), (0.5, 0.5, 0, 0.02, 0, 2, 0.5)],
}
# parameters, starts and sizes well away from the published ones
for _n, _l in {'ikeda': [(14, 0.5, 9, 4), (4, -0.9, -6, 44), (44, 0.1, 14, -9)], 'n': [(4, 14, 44, 9), (-6, -14, -44, 19)], 'gumowskimira': [(14, 44, 0.4, 1), (-9, 4, -0.6, 0.9), (4, -6, 0.2, 1)],
               'peterdejong': [(4, 14, 44, 9), (-6, -14, -44, 19)], 'clifford': [(4, 14, 44, 9), (-6, -14, -44, 19)], 'fractaldream': [(4, 14, 44, 9), (-6, -14, -44, 19)],
               'hopalong': [(14, 4, 44), (-44, 9, -6), (-6, -14, 19)], 'symmetricicon': [(0.01, 0.02, 4, -0.1, 0.1, 0, -2.08, 14), (0.02, -0.1, -5, 0.1, 0.04, 0.1, 1.5, 9), (-6, 14, 0, 0, 0, 0.5, 0.5, 44), (0.2, 0.1, 44, 0.1, 0.1, 0.1, -2.08, 4)],
               'duffing': [(14, -9, 44, 0.001, 14, 44, 9), (-5, 4, -9, 0.0014, 0.2, -6, -14), (0, 0, 0, 0.004, 4, 14, 44), (0, 0, 0, 0.014, 0.9, -6, -14)]}.items():
    A[_n] += _l
for _n in ('n', 'peterdejong', 'clifford', 'fractaldream'):
    A[_n] += [(44, 9, 4, 14), (9, 44, -14, 4), (14, -4, 9, 44), (-9, -44, 14, -6)]
A['ikeda'] += [(-6, 0.5, 44, 14), (9, 0.4, -9, 44)]
A['symmetricicon'] += [(0.0004, 0.0002, -1, 0, 0.3, 0, 0.8, 2), (1e-5, 0, -1, 0.2, 0.3, 0.1, 0.6, 2), (-2e-4, 1e-4, 1, 0.1, 0.5, 0, -0.6, 3)]
A['gumowskimira'] += [(1e-5, 2e-4, -0.48, 0.93), (-3e-4, 0, 0.3, 1)]
A['duffing'] += [(1e-5, -2e-4, 0, 0.05, 0.25, 0.3, 1.0)]
STEP = {'ikeda': ikeda, 'n': nstep, 'gumowskimira': gumowski, 'peterdejong': dejong, 'clifford': clifford, 'fractaldream': dream, 'hopalong': hopalong, 'symmetricicon': icon}


def units(tier):
    return [(k, n) for n in A for k in ('orbit', 'picture')] + [('symmetry',), ('points',)]


def run_unit(unit, ctx, tier):
    bind()
    with contextlib.redirect_stdout(io.StringIO()):
        globals()[unit[0] + '_'](ctx, tier, *unit[1:])


def steps(name, par, orbit):
    """the point after each point of the orbit, by the map"""
    if name == 'duffing':
        x, y, t, dt, a, b, w = par
        for i, q in enumerate(orbit):
            T = t + i * dt
            yield x + y * dt, y + (x - x ** 3 - a * y + b * cos(w * T)) * dt
            x, y = q
        return
    if name in ('ikeda', 'symmetricicon'):
        z, par = (0j, par) if name == 'ikeda' else (complex(*par[:2]), par[2:])
        for q in orbit:
            w = STEP[name](z, *par)
            yield w.real, w.imag
            z = complex(*q)
        return
    q0 = (0.1, 0.1) if name == 'fractaldream' else (0, 0)
    if name == 'gumowskimira':
        q0, par = par[:2], par[2:]
    for q in orbit:
        yield STEP[name](q0, *par)
        q0 = q


def orbit_(ctx, tier, name):
    from pythonbmp import fractals as F
    f = getattr(F, name + 'attractorlist')
    for par in A[name]:
        for n in (0, 1, 2, 14, 400 if tier == 'quick' else 4000):
            ok, v = call(ctx, name, f, *par, n)
            if not ok:
                continue
            pts = [(z.real, z.imag) if isinstance(z, complex) else tuple(z) for z in v]
            if len(pts) != n:
                ctx.fail(name + '|count', parameters=par, got=len(pts), expected=n)
                continue
            for i, (g, e) in enumerate(zip(pts, steps(name, par, pts))):
                ctx.trace()
                # an earlier error of one ulp is amplified by a square root at its branch point
                tol = 1e-9 * (1 + abs(e[0]) + abs(e[1]))
                if abs(g[0] - e[0]) > tol or abs(g[1] - e[1]) > tol:
                    ctx.fail(name, parameters=par, step=i, got=g, expected=e)
                    break
                ctx.state((name, par, g))
    ctx.sample('%s%r: %r' % (name, par, pts[:2]))


def bins(v, k):
    """bin choices of every coordinate: floor of its place among k - 1 equal steps"""
    lo, hi = min(v), max(v)
    s = (hi - lo) / (k - 1) or 1
    out = []
    for c in v:
        q = (c - lo) / s
        r = round(q)
        near = abs(q - r) < 1e-9 * (1 + abs(q))
        out.append(tuple(sorted({j for j in (r - 1, r) if 0 <= j < k})) if near and r and c != lo else (int(q),) if not near else (r,))
    return out


def pictures(pts, w, h, bits):
    """the images this orbit may give; several only when a point lies on the border of two bins"""
    bx, by = bins([p[0] for p in pts], w), bins([p[1] for p in pts], h)
    open_ = [(i, j) for i in range(len(pts)) for j in (0, 1) if len((bx, by)[j][i]) > 1]
    if len(open_) > 8:
        return None
    res = []
    for pick in itertools.product((0, 1), repeat=len(open_)):
        ch = dict(zip(open_, pick))
        g = [[0] * w for _ in range(h)]
        for i in range(len(pts)):
            g[by[i][ch.get((i, 1), 0)]][bx[i][ch.get((i, 0), 0)]] += 1
        lo = min(map(min, g))
        hi = max(map(max, g))
        top = 2 ** bits - 1
        res.append([[(c - lo) * top / ((hi - lo) or 1) for c in r] for r in g])
    return res


LARGE = [(79, 4), (4, 49), (44, 44), (14, 19)]


def wrapper_args(name, par):
    """drawing arguments of the orbit's parameters"""
    if name == 'duffing':
        return par[4:] + par[3:4] if par[:3] == (0, 0, 0) else None
    return par


def picture_(ctx, tier, name):
    from pythonbmp import fractals as F
    import pythonbmp.BITMAPlib as B
    f, g, lst = getattr(B, name + 'attractor'), getattr(B, 'save%sattractor2file' % name), getattr(F, name + 'attractorlist')
    sizes = [(2, 2), (9, 7), (16, 12), (3, 11)] + ([(33, 8), (8, 33), (50, 50)] if tier == 'thorough' else [])
    judged = 0
    with tempfile.TemporaryDirectory(prefix='c23') as t:
        p = os.path.join(t, 'a.bmp')
        for k, par in enumerate(A[name]):
            a = wrapper_args(name, par)
            if a is None:
                continue
            for n in (1, 3, 700 if tier == 'quick' else 4000):
                pts = [(z.real, z.imag) if isinstance(z, complex) else tuple(z) for z in lst(*par, n)]
                for (w, h), bits in [*itertools.product(sizes, DEPTHS), *(zip(LARGE, DEPTHS[k % 4:] + DEPTHS[:k % 4]) if n > 9 else ())]:
                    ok, buf = call(ctx, name + '|picture', f, w, h, bits, *a, n)
                    if not ok:
                        continue
                    ctx.trace()
                    try:
                        img = decode(buf)
                    except BadImage as e:
                        ctx.fail(name + '|image', error=str(e), size=(w, h), bits=bits)
                        continue
                    if (img.w, img.h, img.bits) != (w, h, bits):
                        ctx.fail(name + '|form', got=(img.w, img.h, img.bits), expected=(w, h, bits))
                        continue
                    want = pictures(pts, w, h, bits)
                    if want is not None:
                        judged += 1
                        if not any(all(img.px[y][x] == int(e[y][x]) or abs(e[y][x] - round(e[y][x])) < 1e-6 and abs(img.px[y][x] - e[y][x]) < 1.1 for y in range(h) for x in range(w)) for e in want):
                            ctx.fail(name + '|histogram', parameters=par, points=n, size=(w, h), bits=bits, got=img.px[:4], expected=want[0][:4])
                    ok, _ = call(ctx, name + '|save', g, p, w, h, bits, *a, n)
                    if ok:
                        data = open(p, 'rb').read() if os.path.exists(p) else None
                        if data != bytes(buf):
                            ctx.fail(name + '|saved', parameters=par, size=(w, h), bits=bits)
                        elif data:
                            os.unlink(p)
                    ctx.state(bytes(buf))
        if os.listdir(t):
            ctx.fail(name + '|litter', files=os.listdir(t))
    if not judged:
        ctx.fail('machinery: nothing decided', name=name)


def points_(ctx, tier):
    """the picture of any list of points, real or complex: every small multiset of points, bins all visited, many points in a bin, a line, one point"""
    import pythonbmp.BITMAPlib as B
    corners = [(0, 0), (1, 0), (0, 1), (1, 1)]
    lists = [[q for q, n in zip(corners, k) for _ in range(n)] for k in itertools.product(range(4), repeat=4) if sum(k)]
    lists += [[q for q, n in zip(corners, k) for _ in range(n)] for k in ((300, 1, 1, 1), (7, 7, 7, 7), (1000, 999, 998, 2), (256, 255, 2, 3), (17, 16, 15, 40))]
    grid = [(x, y) for y in range(4) for x in range(5)]
    lists += [[q for i, q in enumerate(grid) for _ in range(a + i * b % m)] for a in (0, 1, 3, 20) for b in (0, 1, 7) for m in (2, 5, 19)]
    lists += [[(x * s + o, y * s - o) for x, y in grid for _ in range(1 + (x * y) % 3)] for s, o in ((0.25, 3), (-128, 0.5), (1 << 30, 44))]
    lists += [[(i, 0) for i in range(5) for _ in range(i)], [(2.5, i) for i in range(4) for _ in range(i + 1)], [(-3, 7)] * 9]
    for pts in lists:
        if not pts:
            continue
        w, h = (2, 2) if set(pts) <= set(corners) else (5, 4)
        for bits in DEPTHS:
            # every step below is exact: the spans are the number of steps times a power of two
            g = [[0] * w for _ in range(h)]
            at = []
            for i, k in ((0, w), (1, h)):
                lo, hi = min(p[i] for p in pts), max(p[i] for p in pts)
                st = Fraction(hi - lo) / (k - 1) or 1
                at.append([int((Fraction(p[i]) - Fraction(lo)) / st) for p in pts])
            for a, b in zip(*at):
                g[b][a] += 1
            lo, hi = min(map(min, g)), max(map(max, g))
            want = [[[Fraction((c - lo) * (2 ** bits - 1), (hi - lo) or 1) for c in r] for r in g]]
            for name, v in (('plotattractor', pts), ('plotattractorcomplex', [complex(*q) for q in pts])):
                ok, buf = call(ctx, name + '|points', getattr(B, name), v, w, h, bits)
                if not ok:
                    continue
                ctx.trace()
                try:
                    img = decode(buf)
                except BadImage as e:
                    ctx.fail(name + '|points|image', error=str(e), points=pts[:20])
                    continue
                if not any(all(img.px[y][x] == int(e[y][x]) or abs(e[y][x] - round(e[y][x])) < 1e-6 and abs(img.px[y][x] - e[y][x]) < 1.1 for y in range(h) for x in range(w)) for e in want):
                    ctx.fail(name + '|points', points=len(pts), first=pts[:8], size=(w, h), bits=bits, got=img.px, expected=want[0])
                ctx.state((name, len(pts), bytes(buf)))


def symmetry_(ctx, tier):
    """turning the start of an icon by one of its symmetries turns the whole orbit (first steps, before rounding grows)"""
    from pythonbmp import fractals as F
    for d in range(2, 8):
        for a, b, g, o, l in ((1, -0.1, 0.167, 0, -2.08), (1.8, 0, 1, 0.1, -1.93), (-1, 0.1, -0.8, 0.3, 1.5)):
            for x, y in ((0.1, 0.05), (-0.3, 0.2)):
                ok, u = call(ctx, 'icon', F.symmetriciconattractorlist, x, y, a, b, g, o, l, d, 6)
                for k in range(1, d):
                    t = cmath.exp(2j * math.pi * k / d)
                    s = complex(x, y) * t
                    ok2, v = call(ctx, 'icon', F.symmetriciconattractorlist, s.real, s.imag, a, b, g, o, l, d, 6)
                    ctx.trace()
                    if ok and ok2 and any(abs(q - p * t) > 1e-6 * (1 + abs(p)) for p, q in zip(u, v) if abs(p) < 1e3):
                        ctx.fail('icon|symmetry', degree=d, turn=k, parameters=(a, b, g, o, l), start=(x, y), got=v, expected=[p * t for p in u])
                    ctx.state((d, k, a, o, x))
