"""Vector, statistics, interpolation, coordinate and bit functions against their definitions in exact arithmetic."""
import cmath, functools, itertools, math, random
from fractions import Fraction as Fr
from mc.core import *

BOUNDS = {
    'quick': 'every function of the mathematics module on every vector of small grids (2, 3 and 4 dimensions, integers -3..3 and fractions), every data list of up to five '
             'points of a small grid, every byte, every angle in 5 degree steps, every triple of a value grid for limits and interpolation, Fourier transforms of all '
             'vectors of length 1, 2, 4 over five values and unit vectors to length 32; the same argument lists moved and stretched far away',
    'thorough': 'as quick with denser grids and data lists of six points'}
G = (-3, -2, -1, 0, 1, 2, 3)
H = (-2, 0, 0.5, 3)


def close(a, b, tol=1e-9):
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(b, bool) or b is None or isinstance(b, (str, dict)):
        return a == b
    try:
        return abs(complex(a) - complex(b)) <= tol * max(1, abs(complex(b)))
    except (TypeError, ValueError, OverflowError):
        return False


def vecs(n, vals):
    return itertools.product(vals, repeat=n)


def pairs(n, vals):
    return itertools.product(vecs(n, vals), repeat=2)


def table(tier):
    """name -> (argument tuples, oracle).  The oracle gets the same arguments; a returned Skip means no judgement."""
    V = G
    F3 = (-2, 0.25, 1, 3)
    t = {}

    def add(name, args, oracle, tol=1e-9):
        t[name] = (args, oracle, tol)
    vp = lambda: itertools.chain(pairs(2, V), pairs(3, H), ((a, b) for a in vecs(4, (0, 1, -2)) for b in ((1, 2, 3, 4), (0, 0, 0, 0))), [((3, -1, 4, 1, -5, 9, 2, 6, 5), (2, 7, -1, 8, 2, 8, 1, 8, 2))])
    v1 = lambda: itertools.chain(((v,) for v in vecs(2, V)), ((v,) for v in vecs(3, H)), ((v,) for v in vecs(4, (-1, 0, 2))), [((3, -1, 4, 1, -5, 9, 2, 6, 5),), ((14,) * 44,)])
    nz = lambda it: (a for a in it if any(a[0]))
    two = lambda f: (lambda u, v: [f(i, j) for i, j in zip(u, v)])
    add('addvect', vp, two(lambda i, j: i + j))
    add('subvect', vp, two(lambda i, j: i - j))
    add('mulvect', vp, two(lambda i, j: i * j))
    add('divvect', lambda: (a for a in vp() if all(a[1])), two(lambda i, j: i / j))
    add('dotprod', vp, lambda u, v: sum(i * j for i, j in zip(u, v)))
    tiny = lambda: ((tuple(i * k for i in a), tuple(j * k for j in b)) for k in (2.0 ** -3, 2.0 ** -7, 2.0 ** -15, 2.0 ** -30, 2.0 ** 30) for a, b in pairs(2, V) if any(a) and any(b))
    add('isorthogonal', lambda: itertools.chain(vp(), tiny()), lambda u, v: sum(i * j for i, j in zip(u, v)) == 0)
    add('dist', vp, lambda u, v: math.sqrt(sum((i - j) ** 2 for i, j in zip(u, v))))
    add('cosaffin', lambda: (a for a in vp() if any(a[0]) and any(a[1])), lambda u, v: sum(i * j for i, j in zip(u, v)) / math.sqrt(sum(i * i for i in u) * sum(i * i for i in v)))
    for n, op in (('xorvect', lambda i, j: i ^ j), ('andvect', lambda i, j: i & j), ('orvect', lambda i, j: i | j)):
        add(n, lambda: itertools.chain(pairs(2, (0, 1, 5, 0x0f, 0xf0, 255)), (([a], [b]) for a in range(256) for b in range(0, 256, 5))), two(op))
    add('bitmaskvect', lambda: (([a, 255 - a, 0x55], m) for a in range(256) for m in (0, 1, 0x0f, 0xaa, 255)), lambda v, m: [i & m for i in v])
    add('vmag', v1, lambda v: math.sqrt(sum(i * i for i in v)))
    add('normvec', lambda: nz(v1()), lambda v: [i / math.sqrt(sum(j * j for j in v)) for i in v])
    add('dircos', lambda: nz(v1()), lambda v: [i / math.sqrt(sum(j * j for j in v)) for i in v])
    add('diracos', lambda: ((v,) for v in vecs(3, (-1, -0.5, 0, 0.3, 1))), lambda v: [math.acos(i) for i in v])
    add('dirdeg', lambda: ((v,) for v in vecs(3, (-1, -0.5, 0, 0.3, 7))), lambda v: [i * 180 / math.pi for i in v])
    add('vectiszero', v1, lambda v: all(i == 0 for i in v))
    add('mean', v1, lambda v: sum(v) / len(v))
    add('variance', v1, lambda v: [i - sum(v) / len(v) for i in v])
    add('StdDev', v1, lambda v: math.sqrt(sum((i - sum(v) / len(v)) ** 2 for i in v) / len(v)))
    add('coefvar', lambda: (a for a in v1() if abs(sum(a[0])) > 1e-9), lambda v: math.sqrt(sum((i - sum(v) / len(v)) ** 2 for i in v) / len(v)) / (sum(v) / len(v)))
    add('meanlist', lambda: (([u, v],) for u, v in pairs(2, (-1, 0, 5))), lambda l: [sum(v) / len(v) for v in l])
    add('pivotlist', lambda: itertools.chain((([u, v],) for u, v in pairs(3, (0, 7))), (([[a, b]] * k,) for a in (1, 2) for b in (3, 'x') for k in (1, 2, 4))), lambda l: [[r[i] for r in l] for i in range(len(l[0]))])
    vs = lambda: itertools.product(vecs(2, V), (-2, 0.5, 1, 3))
    add('scalarmulvect', lambda: itertools.chain(vs(), itertools.product(vecs(3, (0, 1, -2)), (0, 2))), lambda v, s: [i * s for i in v])
    add('scalardivvect', vs, lambda v, s: [i / s for i in v])
    add('intscalarmulvect', lambda: itertools.product(vecs(2, (-3, 0, 1.3, 2)), (-2, 0.4, 1, 1.7)), lambda v, s: [round(i * s) for i in v], 0)
    add('roundvect', lambda: ((v,) for v in vecs(2, (-2.6, -1, -0.4, 0, 0.5, 1.5, 2.4, 7))), lambda v: [round(i) for i in v], 0)
    add('roundvectlist', lambda: (([u, v],) for u, v in pairs(2, (-2.6, 0.4, 3))), lambda l: [[round(i) for i in v] for v in l], 0)
    add('trans', lambda: (([a, b], c) for a in vecs(2, (0, 1)) for b in vecs(2, (-3, 5)) for c in vecs(2, V)), lambda l, u: [[i + j for i, j in zip(v, u)] for v in l])
    L = lambda: itertools.product((-5, -1, 0, 0.5, 2, 9), repeat=3)
    add('setmax', lambda: itertools.product((-5, 0, 1.5, 9), repeat=2), lambda v, m: min(v, m), 0)
    add('setmin', lambda: itertools.product((-5, 0, 1.5, 9), repeat=2), lambda v, m: max(v, m), 0)
    lim = lambda: (a for a in L() if a[1] <= a[2])
    add('setminmax', lim, lambda v, a, b: max(a, min(b, v)), 0)
    add('clamp', lim, lambda v, a, b: max(a, min(b, v)), 0)
    add('intsetminmax', lambda: ((v, a, b) for v in (-7.6, -1, -0.4, 0.5, 1.5, 2.6, 99, 7) for a in (-5, 0, 2) for b in (2, 7, 255)), lambda v, a, b: max(a, min(b, round(v))), 0)
    add('setmaxvec', lambda: (([a, b, 3], m) for a in (-5, 0, 9) for b in (1, 2.5) for m in (-6, 0, 2, 9)), lambda v, m: [min(i, m) for i in v], 0)
    add('setminmaxvec', lambda: (([a, b, 3], m, M) for a in (-5, 0, 9) for b in (1, 2.5) for m in (-6, 0, 2) for M in (2, 4, 20)), lambda v, m, M: [max(m, min(M, i)) for i in v], 0)
    add('intsetminmaxvec', lambda: (([a, b, 3], m, M) for a in (-5.4, 0, 9.6) for b in (1, 2.5) for m in (-6, 0, 2) for M in (2, 4, 20)), lambda v, m, M: [max(m, min(M, round(i))) for i in v], 0)
    add('isinrange', lambda: itertools.product((-1, 0, 0.5, 1, 2), repeat=3), lambda v, hi, lo: lo < v < hi)
    add('sign', lambda: ((v,) for v in (-9, -1, -0.01, 0, 0.0, 0.01, 1, 77)), lambda v: (v > 0) - (v < 0), 0)
    add('range2baseanddelta', lambda: ((v,) for v in vecs(2, V)), lambda r: (r[0], r[1] - r[0]))
    add('delta', lambda: ((v,) for v in vecs(2, V)), lambda r: r[1] - r[0])
    add('swapxy', lambda: ((v,) for v in vecs(2, V)), lambda v: [v[1], v[0]])
    add('slope', lambda: (a for a in pairs(2, V) if a[0][0] != a[1][0]), lambda u, v: (v[1] - u[1]) / (v[0] - u[0]))
    add('centerpoint', lambda: vecs(4, (-5, 0, 1, 2, 8)), lambda a, b, c, d: (a + (c - a) // 2, b + (d - b) // 2), 0)
    add('mirror', lambda: vecs(2, H), lambda p, d: (p - d, p + d))
    add('mirrorx', lambda: itertools.product(vecs(2, V), H), lambda p, x: ([p[0] - x, p[1]], [p[0] + x, p[1]]))
    add('mirrory', lambda: itertools.product(vecs(2, V), H), lambda p, y: ([p[0], p[1] - y], [p[0], p[1] + y]))
    add('mirrorvec', lambda: pairs(2, (-2, 0, 1, 3)), lambda c, v: [[i - j for i, j in zip(c, v)], [i + j for i, j in zip(c, v)]])
    add('mirror1stquad', lambda: itertools.product((-3, 0, 2), (1, 5), vecs(2, (0, 1, 3))), lambda x, y, v: [[x - v[0], y + v[1]], [x + v[0], y + v[1]], [x - v[0], y - v[1]], [x + v[0], y - v[1]]])
    add('adddimz', lambda: (([a, b], z) for a in vecs(2, (0, 2)) for b in vecs(2, (-1, 5)) for z in (-1, 0, 9)), lambda l, z: [[v[0], v[1], z] for v in l])
    add('addvectinlist', lambda: (([a, b, c],) for a in vecs(2, (0, 1)) for b in vecs(2, (2, -3)) for c in vecs(2, (0, 5))), lambda l: [sum(v[i] for v in l) for i in range(2)])
    add('addvectpairlist', lambda: (((a, b),) for a in vecs(2, (0, 1)) for b in vecs(2, (2, -3))), lambda l: [sum(v[i] for v in l) for i in range(2)])
    add('addvecttripletlist', lambda: (((a, b, c),) for a in vecs(2, (0, 1)) for b in vecs(2, (2, -3)) for c in vecs(2, (0, 5))), lambda l: [sum(v[i] for v in l) for i in range(2)])
    add('addvectlist', lambda: (([a, b], [c, b]) for a in vecs(2, (0, 1)) for b in vecs(2, (2, -3)) for c in vecs(2, (0, 5))), lambda l, m: [[i + j for i, j in zip(u, v)] for u, v in zip(l, m)])
    c3 = lambda u, v: [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    add('crossprod3d', lambda: itertools.chain(pairs(3, (-1, 0, 2)), pairs(3, (0.5, 1, 3))), c3)
    add('getnormvec', lambda: ((a, b, c) for a in vecs(3, (0, 1)) for b in vecs(3, (0, 2)) for c in vecs(3, (-1, 1))), lambda a, b, c: c3([j - i for i, j in zip(a, b)], [j - i for i, j in zip(a, c)]))

    def det(a, b, c):
        return sum(a[i] * x for i, x in enumerate(c3(b, c)))
    add('det3D', lambda: ((a, b, c) for a in vecs(3, (-1, 0, 2)) for b in vecs(3, (0, 1)) for c in itertools.chain(vecs(3, (0, 3)), vecs(3, (1, -2)))), det)
    # regression and correlation, on data with a defined answer
    npts = 6 if tier == 'thorough' else 5
    grid = [(x, y) for x in (0, 1, 3) for y in (-1, 0, 2)]
    data = lambda: ((list(map(list, d)),) for n in range(2, npts + 1) for d in itertools.combinations(grid, n))
    data2 = lambda: itertools.chain(data(), (([[1, 1], [1, 1], [2, 3]],), ([[1, 2], [5, 3], [0, 9], [1, 2]],), ([[0, 4], [3, 3], [0, 4]],), ([[2.5, 1], [0.5, 4], [7, -1]],), ([[44, 14], [99, 204], [149, 4], [209, 19]],), ([[1049, -44], [-94, 9], [54.5, 1e4], [62, 14], [49, 44], [77, 0.5], [90, 3]],), ([[-1e4, 94], [-5000, 104.25], [44, 99], [144, 149]],)))

    def sums(d):
        n = len(d)
        X, Y = [Fr(p[0]) for p in d], [Fr(p[1]) for p in d]
        mx, my = sum(X) / n, sum(Y) / n
        return sum((x - mx) * (y - my) for x, y in zip(X, Y)), sum((x - mx) ** 2 for x in X), sum((y - my) ** 2 for y in Y), mx, my
    hasx = lambda it: (a for a in it if sums(a[0])[1])
    hasxy = lambda it: (a for a in it if sums(a[0])[1] and sums(a[0])[2])
    add('LSMslope', lambda: hasx(data2()), lambda d: float(sums(d)[0] / sums(d)[1]))
    add('LSMYint', lambda: hasx(data2()), lambda d: float(sums(d)[4] - sums(d)[0] / sums(d)[1] * sums(d)[3]))
    R = lambda d: float(sums(d)[0]) / math.sqrt(sums(d)[1] * sums(d)[2])
    add('PearsonsR', lambda: hasxy(data2()), R)
    add('Rsquare', lambda: hasxy(data2()), lambda d: R(d) ** 2)
    add('TTest', lambda: (a for a in hasxy(data2()) if len(a[0]) > 2 and 1 - R(a[0]) ** 2 > 1e-9), lambda d: R(d) * math.sqrt((len(d) - 2) / (1 - R(d) ** 2)), 1e-6)
    # distances
    vl = lambda: ((list(c),) for n in (1, 2, 3, 4) for c in itertools.combinations([(0, 0), (3, 4), (1, 1), (0, 5), (-2, 0)], n))
    add('distancetable', vl, lambda l: [[i, j, math.dist(u, v)] for i, v in enumerate(l) for j, u in enumerate(l) if i != j])

    def cd(l):
        d = {}
        for i in l:
            d[i[2]] = d.get(i[2], 0) + 1
        return d
    add('countdist', lambda: (([[0, 1, d] for d in c],) for c in itertools.product((1.0, 2.5, 3), repeat=4)), cd)
    # coordinates: results must describe the same point, angles as documented
    add('spherical2rectcoord3D', lambda: (([r, a, b],) for r in (0, 1, 2.5) for a in angs(15) for b in angs(30)), lambda s: [s[0] * math.sin(s[2]) * math.cos(s[1]), s[0] * math.sin(s[2]) * math.sin(s[1]), s[0] * math.cos(s[2])])
    add('cylindrical2rectcoord3D', lambda: (([r, a, z],) for r in (0, 1, 2.5) for a in angs(5) for z in (-1, 2)), lambda s: [s[0] * math.cos(s[1]), s[0] * math.sin(s[1]), s[2]])
    add('polar2rectcoord2D', lambda: (([r, a],) for r in (0, 1, 2.5) for a in angs(5)), lambda s: [s[0] * math.cos(s[1]), s[0] * math.sin(s[1])])
    add('computerotvec', lambda: ((d,) for d in range(-360, 725, 5)), lambda d: (math.sin(math.radians(d)), math.cos(math.radians(d))))
    add('rotvec2D', lambda: ((v, (math.sin(a), math.cos(a))) for v in vecs(2, (-2, 0, 1, 3)) for a in angs(30)), lambda v, r: [v[0] * r[1] - v[1] * r[0], v[0] * r[0] + v[1] * r[1]])
    add('polarcoordangle2D', lambda: ((v,) for v in vecs(2, G) if any(v)), lambda v: math.atan2(v[0], -v[1]) % (2 * math.pi))
    add('rect2polarcoord2Dwithcenter', lambda: ((c, (c[0] + v[0], c[1] + v[1])) for c in ((0, 0), (5, -3)) for v in vecs(2, G) if any(v)),
        lambda c, p: [math.dist(c, p), math.atan2(p[0] - c[0], c[1] - p[1]) % (2 * math.pi)])
    # bits
    add('enumbits', lambda: ((b,) for b in range(256)), lambda b: [b >> i & 1 for i in range(7, -1, -1)], 0)
    add('rotatebits', lambda: ((b,) for b in range(256)), lambda b: sum((b >> i & 1) << 7 - i for i in range(8)), 0)
    # numbers
    add('tetration', lambda: ((x, n) for x in (1, 1.2, 1.5, 2, 0.3) for n in range(4 if x > 1.4 else 40)), lambda x, n: functools.reduce(lambda w, _: x ** w, range(n), 1))
    add('ravel2D', lambda: (([[a, b], [], [c]],) for a in (1, 2) for b in ('x', 3) for c in (0, None)), lambda l: [i for r in l for i in r])
    add('getdomainbounds', lambda: (([a, b, (0, 1)],) for a in vecs(2, V) for b in vecs(2, (-9, 0, 9))), lambda l: (min(p[0] for p in l), max(p[0] for p in l), min(p[1] for p in l), max(p[1] for p in l)))
    add('getcomplexdomainbounds', lambda: (([complex(*a), complex(*b), 1j],) for a in vecs(2, V) for b in vecs(2, (-9, 0, 9))), lambda l: (min(p.real for p in l), max(p.real for p in l), min(p.imag for p in l), max(p.imag for p in l)))
    add('initmatrix', lambda: ((i, j, v) for i in range(5) for j in range(5) for v in (0, 7)), lambda i, j, v: [[v] * i for _ in range(j)], 0)
    # interpolation
    T3 = lambda: ((a, b, f) for a in (-2, -1, 0, 0.5, 1, 2, 3) for b in (-2, 0, 0.25, 1, 2, 2.5, 7) for f in (0, 0.1, 0.25, 0.5, 0.75, 1, -0.5, 1.5))
    dif = lambda: (a for a in T3() if a[0] != a[1])
    same = lambda: (a for a in T3() if a[0] == a[1])
    il = lambda a, b, v: 1 if a == b else (v - a) / (b - a)
    s1 = lambda v: v * v * (3 - 2 * v)
    s2 = lambda v: v ** 3 * (v * (v * 6 - 15) + 10)
    s3 = lambda v: v ** 4 * (35 + v * (-84 + v * (70 - 20 * v)))
    add('lerp', T3, lambda a, b, f: a + (b - a) * f)
    add('invlerp', T3, il)
    for n, s in (('smoothstep', s1), ('smootherstep', s2), ('smootheststep', s3)):
        add(n, T3, lambda a, b, v, s=s: s(il(a, b, v)))
        add(n + 'lerp', T3, lambda a, b, f, s=s: a + (b - a) * s(1 if a == b else f))
    add('invsmoothstep', lambda: ((i / 64,) for i in range(65)), lambda x: Inverse(s1, x))
    return t


# the same arguments moved far away: every number v becomes a * v + b, which keeps orders, differences and zeros of none
MOVES = ((14, 4), (7, -44), (1, 149))
SMALL = ('polarcoordangle2D', 'rect2polarcoord2Dwithcenter', 'cosaffin', 'dircos', 'normvec', 'dist', 'vmag', 'slope', 'invlerp', 'lerp', 'StdDev', 'mean', 'crossprod3d', 'rotvec2D', 'sign',
         'smoothstep', 'smootherstep', 'smootheststep', 'clamp', 'setminmax', 'PearsonsR', 'LSMslope', 'LSMYint', 'coefvar', 'getnormvec', 'anglebetween2Dlines')
BOUNDED = ('enumbits', 'rotatebits', 'diracos', 'tetration', 'invsmoothstep', 'initmatrix')


def moved(a, m, b):
    if isinstance(a, (list, tuple)):
        return type(a)(moved(i, m, b) for i in a)
    return a if isinstance(a, (str, bool)) or a is None else m * a + b


def stretched(name, args, big):
    if name not in BOUNDED:
        l = list(args())
        for m, b in MOVES + (((2 ** -11, 0), (2 ** 13, 0)) if name in SMALL else ()):
            yield from (tuple(moved(a, m, b)) for a in l[::max(1, len(l) // (2000 if big else 300))])


LISTS = ('mean', 'variance', 'StdDev', 'coefvar', 'vmag', 'normvec', 'dircos', 'dirdeg', 'vectiszero', 'roundvect', 'meanlist', 'pivotlist', 'roundvectlist', 'setmaxvec', 'setminmaxvec', 'intsetminmaxvec', 'scalarmulvect', 'scalardivvect',
         'intscalarmulvect', 'bitmaskvect', 'adddimz', 'addvectinlist', 'LSMslope', 'LSMYint', 'PearsonsR', 'Rsquare', 'TTest', 'countdist', 'ravel2D', 'getdomainbounds', 'getcomplexdomainbounds')
TWOLISTS = ('addvect', 'subvect', 'mulvect', 'divvect', 'dotprod', 'isorthogonal', 'dist', 'cosaffin', 'xorvect', 'andvect', 'orvect', 'addvectlist', 'trans')


def longer(name, args):
    """the same lists joined to lists of 7 to 60 entries"""
    if name not in LISTS + TWOLISTS:
        return
    k = 1 + (name in TWOLISTS and name != 'trans')
    groups = {}
    for a in args():
        if len(a[0]):
            form = (len(a[0][0]) if isinstance(a[0][0], (list, tuple)) else 0), repr(a[k:]), type(a[0])
            groups.setdefault(form, []).append(a)
    for g in groups.values():
        for n, jump in ((3, 1), (4, 7), (5, 3), (9, 11), (20, 5)):
            for i in range(0, len(g), max(1, len(g) // 9)):
                pick = [g[(i + j * jump) % len(g)] for j in range(n)]
                yield tuple(sum((p[j] for p in pick[1:]), pick[0][j]) for j in range(k)) + g[i][k:]


def deep(a, kind):
    return kind(deep(i, kind) for i in a) if isinstance(a, (list, tuple)) else a


def relisted(args):
    """argument lists whose vectors and point lists are all lists, or all tuples, instead"""
    l = list(args())
    for a in l[::max(1, len(l) // 150)]:
        for kind in (list, tuple):
            b = tuple(deep(i, kind) for i in a)
            if repr(b) != repr(a):
                yield b


class Inverse:
    """Accepts any y in 0..1 with f(y) = x."""
    def __init__(self, f, x):
        self.f, self.x = f, x

    def ok(self, y):
        return -1e-9 <= y <= 1 + 1e-9 and abs(self.f(y) - self.x) < 1e-9

    def __repr__(self):
        return 'y with f(y)=%r' % self.x


def angs(step):
    return [math.radians(d) for d in range(-360, 361, step)]


def units(tier):
    names = list(table(tier))
    return [('fn', n) for n in names] + [('spread',), ('coords',), ('newton',), ('fft',), ('hist',), ('angle',), ('random',)]



def run_unit(unit, ctx, tier):
    from pythonbmp import mathlib as M
    bind()
    kind = unit[0]
    if kind == 'fn':
        name = unit[1]
        args, oracle, tol = table(tier)[name]
        n = 0
        for a in itertools.chain(args(), stretched(name, args, tier == 'thorough'), longer(name, args), relisted(args)):
            keep = repr(a)
            try:
                want = oracle(*a)
            except ZeroDivisionError:
                continue        # undefined
            ok, got = call(ctx, name, getattr(M, name), *a)
            ctx.step()
            if not ok:
                continue
            if name == 'enumbits':
                got = list(got)
            good = want.ok(got) if isinstance(want, Inverse) else (close(got, want, tol) if tol else got == want)
            if name == 'rotatebits' and not good:
                # recorded defect: bit 0 is lost; anything else is new
                ctx.fail('rotatebits|bit0 lost' if got == want & 0x7f else 'rotatebits|value', args=a, got=got, expected=want)
            elif not good:
                ctx.fail('%s|value' % name, args=a, got=got, expected=want)
            if repr(a) != keep:
                ctx.fail('%s|arguments changed' % name, args=keep, now=repr(a))
            ctx.state(repr((name, got))[:300])
            n += 1
        ctx.trace(n)
        ctx.sample('%s: %d argument lists' % (name, n))
    else:
        random_(ctx, M) if kind == 'random' else globals()[kind](ctx, M, tier)


def spread(ctx, M, tier):
    """Values that are big against their differences: the deviations do not drown in the rounding of the squares."""
    for d in itertools.chain(itertools.product((0, 0.25, 0.5, 3), repeat=3), [(0.125, 0.25, 0.375, 0.75, 1), tuple(i / 8 for i in range(20))]):
        for b in (0, 4096, 1e6, 1e8, -1e8, 1e9):
            v = [b + i for i in d]
            m = sum(map(Fr, v)) / len(v)
            dev = [float(Fr(i) - m) for i in v]
            std = math.sqrt(sum(i * i for i in dev) / len(v))
            for fn, want in (('variance', dev), ('StdDev', std)) + ((('coefvar', std / float(m)),) if b else ()):
                ok, got = call(ctx, fn, getattr(M, fn), list(v))
                ctx.step()
                one = abs(float(m)) if fn == 'coefvar' else 1
                l = zip(got, want) if fn == 'variance' and ok else [(got, want)]
                if ok and any(isinstance(p, complex) or not abs(p - q) * one <= 1e-5 * (1 + std) for p, q in l):
                    ctx.fail(fn + '|value', args=v, got=got, expected=want)
            ctx.state((d, b))
    ctx.trace()
    for a in itertools.product((0, 0.25, 1), repeat=4):
        for b in (1e6, -1e8):
            u, v = [b + a[0], b + a[1]], [b + a[2], b - a[3]]
            ok, got = call(ctx, 'dist', M.dist, u, v)
            if ok and abs(got - math.hypot(u[0] - v[0], u[1] - v[1])) > 1e-6:
                ctx.fail('dist|value', args=(u, v), got=got)
            if u[0] != v[0]:
                ok, got = call(ctx, 'slope', M.slope, u, v)
                if ok and not close(got, (v[1] - u[1]) / (v[0] - u[0]), 1e-6):
                    ctx.fail('slope|value', args=(u, v), got=got)
            ctx.state((a, b))
    ctx.trace()


def coords(ctx, M, tier):
    """From rectangular coordinates and back is the identity; magnitude and angles are the documented ones."""
    for v in itertools.chain(vecs(2, G), vecs(2, (-444, -64, 14, 149)), vecs(2, (0, 0.04, 44))):
        if any(v):
            ok, p = call(ctx, 'rect2polarcoord2D', M.rect2polarcoord2D, list(v))
            if ok and not (close(p[0], math.hypot(*v)) and close([p[0] * math.cos(p[1]), p[0] * math.sin(p[1])], v)):
                ctx.fail('rect2polarcoord2D|other point', vector=v, got=p)
            ctx.state(v)
            ctx.trace()
    for v in itertools.chain(vecs(3, (-2, -1, 0, 1, 3)), vecs(3, (-444, -64, 14, 149)), vecs(3, (0, 0.04, 44))):
        ctx.state(v)
        if v[0] or v[1]:
            ok, p = call(ctx, 'rect2cylindricalcoord3D', M.rect2cylindricalcoord3D, list(v))
            if ok and not (close(p[0], math.hypot(v[0], v[1])) and close([p[0] * math.cos(p[1]), p[0] * math.sin(p[1]), p[2]], v)):
                ctx.fail('rect2cylindricalcoord3D|other point', vector=v, got=p)
            ok, p = call(ctx, 'rect2sphericalcoord3D', M.rect2sphericalcoord3D, list(v))
            if ok and not (close(p[0], math.sqrt(sum(i * i for i in v))) and close([p[0] * math.sin(p[2]) * math.cos(p[1]), p[0] * math.sin(p[2]) * math.sin(p[1]), p[0] * math.cos(p[2])], v)):
                ctx.fail('rect2sphericalcoord3D|other point', vector=v, got=p)
            ctx.trace(2)


def angle(ctx, M, tier):
    """The angle of the line through two points is its direction, up to half a turn."""
    for u, v in itertools.chain(pairs(2, (-3, -1, 0, 1, 2)), pairs(2, (-444, -64, 14, 149))):
        if u != v:
            ok, a = call(ctx, 'anglebetween2Dlines', M.anglebetween2Dlines, u, v)
            w = math.atan2(v[1] - u[1], v[0] - u[0])
            if ok and abs(math.sin(a - w)) > 1e-9:
                ctx.fail('anglebetween2Dlines|direction', points=(u, v), got=a)
            ctx.state((u, v))
            ctx.trace()


def newton(ctx, M, tier):
    """The returned value is a root within the tolerance, found within the step count; flat or wandering functions give (None, None)."""
    fs = {'z3': (lambda z: z ** 3 - 1, lambda z: 3 * z * z), 'z4': (lambda z: z ** 4 - z, lambda z: 4 * z ** 3 - 1), 'q': (lambda z: z * z - 2, lambda z: 2 * z), 'flat': (lambda z: z * 0 + 5, lambda z: z * 0), 'noroot': (lambda z: z * z + 1, lambda z: 2 * z),
          'tiny': (lambda z: 1e-10 * (z * z - 2), lambda z: 2e-10 * z), 'huge': (lambda z: 1e12 * (z ** 3 - 8), lambda z: 3e12 * z * z), 'power': (lambda z: z ** 9, lambda z: 9 * z ** 8),
          'double': (lambda z: (z - 3) ** 2, lambda z: 2 * (z - 3)), 'far': (lambda z: z - 1e6, lambda z: 1)}
    for n, (f, fp) in fs.items():
        for x0 in [complex(a / 2, b / 2) for a in range(-5, 6) for b in range(-5, 6)] + [a / 4 for a in range(-12, 13)] + [44, -149, 14.5, 64 + 14j, -9 - 44j]:
            if n == 'noroot' and isinstance(x0, complex):
                continue
            for mi in (0, 1, 5, 40):
                ok, r = call(ctx, 'newtonmethod|%s' % n, M.newtonmethod, x0, f, fp, mi)
                if not ok:
                    continue
                # definition
                x, want = x0, (None, None)
                for i in range(mi):
                    if fp(x) == 0:
                        break
                    dx = f(x) / fp(x)
                    if abs(dx) < 1e-8:
                        want = (x, i)
                        break
                    x -= dx
                if (r[0] is None) != (want[0] is None) or r[0] is not None and not (abs(r[0] - want[0]) < 1e-6 and r[1] == want[1]):
                    ctx.fail('newtonmethod|%s' % n, start=x0, maxiter=mi, got=r, expected=want)
                ctx.state((n, str(x0), mi))
                ctx.trace()


def dft(v, s):
    n = len(v)
    return [sum(v[k] * cmath.exp(s * 2j * math.pi * k * m / n) for k in range(n)) for m in range(n)]


def fft(ctx, M, tier):
    vals = (0, 1, -1, 2j, 0.5 + 1j)
    cases = [list(v) for n in (1, 2, 4) for v in itertools.product(vals, repeat=n)]
    cases += [[1 if i == k else 0 for i in range(n)] for n in (8, 16, 32) for k in range(n)] + [[complex(i % 3, i % 5) for i in range(64)]]
    cases += [[complex(i * i % 149 - 44, i * 14 % 409 - 204) for i in range(n)] for n in (1, 2, 4, 8, 16, 128, 256)] + [[444 * (i % 3) - 149 for i in range(n)] for n in (2, 4, 8, 32)]
    for v in cases:
        a = list(v)
        ok, _ = call(ctx, 'fft', M.fft, a)
        if ok and not close(a, dft(v, -1), 1e-8 * max(1, max(map(abs, v)))):
            ctx.fail('fft|value', vector=v, got=a)
        b = list(v)
        ok, _ = call(ctx, 'ifft', M.ifft, b)
        if ok and not close(b, dft(v, 1), 1e-8 * max(1, max(map(abs, v)))):
            ctx.fail('ifft|value', vector=v, got=b)
        c = list(v)
        M.fft(c)
        M.ifft(c)
        if not close(c, [i * len(v) for i in v], 1e-8 * max(1, max(map(abs, v)))):
            ctx.fail('ifft after fft', vector=v, got=c)
        ctx.state(repr(v))
        ctx.trace(3)


def hist(ctx, M, tier):
    """Every point is counted once, in the bin of its place (bin edges may fall either way); bins: smallest value first, largest in the last."""
    pts = [(x, y) for x in (0, 1, 2, 4) for y in (0, 3, 4)]
    far = [(44, -14), (149, 64), (84, 9), (444, -9), (-64, 204), (14, 14), (94, 44)]
    for n in (2, 3, 5 if tier == 'quick' else 6):
        for d in itertools.chain(itertools.combinations(pts, n), itertools.combinations(far, n), [tuple(far)]):
            if len({p[0] for p in d}) < 2 or len({p[1] for p in d}) < 2:
                continue
            for xb, yb in ((2, 2), (3, 5), (4, 3), (7, 2)) if d[0] in pts else ((44, 3), (4, 49), (79, 14)):
                for cx in (0, 1):
                    src = [complex(*p) for p in d] if cx else list(d)
                    fn = M.histogram2Dcomplex if cx else M.histogram2D
                    ok, h = call(ctx, fn.__name__, fn, src, xb, yb)
                    if not ok:
                        continue
                    x0, x1 = min(p[0] for p in d), max(p[0] for p in d)
                    y0, y1 = min(p[1] for p in d), max(p[1] for p in d)
                    want = [[0] * xb for _ in range(yb)]
                    for x, y in d:
                        want[math.floor(Fr(y - y0, y1 - y0) * (yb - 1))][math.floor(Fr(x - x0, x1 - x0) * (xb - 1))] += 1
                    if len(h) != yb or any(len(r) != xb for r in h) or sum(map(sum, h)) != len(d):
                        ctx.fail('%s|shape or total' % fn.__name__, data=d, bins=(xb, yb), got=h)
                    elif h != want and not tolerant(h, d, x0, x1, y0, y1, xb, yb):
                        ctx.fail('%s|bins' % fn.__name__, data=d, bins=(xb, yb), got=h, expected=want)
                    ctx.trace()
                    ctx.state((d, xb, yb, cx))


def tolerant(h, d, x0, x1, y0, y1, xb, yb):
    """h counts every point in its bin, up to a float rounding at an exact bin edge."""
    opts = []
    for x, y in d:
        fx, fy = Fr(x - x0, x1 - x0) * (xb - 1), Fr(y - y0, y1 - y0) * (yb - 1)
        ax = {math.floor(fx)} | ({int(fx) - 1} if fx.denominator == 1 and fx > 0 else set())
        ay = {math.floor(fy)} | ({int(fy) - 1} if fy.denominator == 1 and fy > 0 else set())
        opts.append([(i, j) for i in ax for j in ay])
    for c in itertools.product(*opts):
        w = [[0] * xb for _ in range(yb)]
        for i, j in c:
            w[j][i] += 1
        if w == h:
            return True
    return False


def random_(ctx, M):
    for lo, hi in ((0, 0), (5, 5), (0, 1), (-2, 2), (44, 149), (-64, -14), (2, 9), (1, 2), (2, 3)):
        seen = set()
        for s in range(400):
            random.seed(s)
            ok, v = call(ctx, 'randomvect', M.randomvect, lo, hi)
            if not ok:
                return
            if len(v) != 3 or any(not isinstance(i, int) or not lo <= i <= hi for i in v):
                ctx.fail('randomvect|range', limits=(lo, hi), got=v)
            seen.add(tuple(v))
            ok, w = call(ctx, 'addrndtovert', M.addrndtovert, [[1, 2, 3], [10, 20, 30]], lo, hi)
            if ok and (len(w) != 2 or any(not lo <= i - j <= hi for p, q in zip(w, ([1, 2, 3], [10, 20, 30])) for i, j in zip(p, q))):
                ctx.fail('addrndtovert|range', limits=(lo, hi), got=w)
            ctx.trace(2)
        if len(seen) < min((hi - lo + 1) ** 3, 8):
            ctx.fail('randomvect|values never drawn', limits=(lo, hi), seen=len(seen))
        ctx.state((lo, hi))


