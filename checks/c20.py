"""Escape time pictures, Newton basins and iterated function systems against their definitions."""
import cmath, contextlib, io, itertools, math, os, random, tempfile
from mc.core import *

BOUNDS = {
    'quick': 'every point function on a 15 by 15 grid of the plane (axes, origin and both signs included) for 2 to 4 parameters and iteration limits 1, 2, 7 and 40; every pixel iterator on 7 rectangles and 3 domains; '
             'every drawing wrapper at every depth, with three factors and with two colours, on 5 rectangles inside, across and outside a 9 by 7 image, with limits of 9 and 300; every saving wrapper at every depth; '
             'Newton basins of 8 polynomials; iterated function systems on every sequence of up to 5 map choices from a boundary value of each probability interval; '
             'parameters up to 90, points up to 70000, and far rectangles on images up to 123 by 129',
    'thorough': 'as quick on a 41 by 41 grid, more parameters, limits to 255 and map choice sequences of length 6'}
EPS = 1e-10
PERT = ((0, 0, 1), (EPS, 0, 1), (-EPS, 0, 1), (0, EPS, 1), (0, -EPS, 1), (0, 0, 1 + 1e-9), (0, 0, 1 - 1e-9))


def escape(z, step, out, n, stay=None):
    """number of steps survived; n when the orbit never leaves"""
    for i in range(n):
        z = step(z)
        if out(z):
            return i
    return n


def two(R):
    return lambda z: abs(z) > 2 * R


def multibrot(P, Q, R, d, n):
    return escape(0, lambda z: z ** d + complex(P, Q), two(R), n)


def multicorn(P, Q, R, d, n):
    return escape(0j, lambda z: complex(z.real, -z.imag) ** d + complex(P, Q), two(R), n)


def multijulia(P, Q, R, c, d, n):
    return escape(complex(P, Q), lambda z: z ** d + c, two(R), n)


def spiral(P, Q, R, c, n):
    return escape(complex(P, Q), lambda z: cmath.tan(z * z + c), two(R), n)


def lam(P, Q, R, c, n):
    return escape(complex(P, Q), lambda z: c * z * (1 - z), two(R), n)


def barnsley(P, Q, R, d, n):
    return escape(complex(P, Q), lambda z: d * (z - ((z.real > 0) - (z.real < 0))), two(R), n)


def ngon(P, Q, R, c, k, n):
    z = complex(P, Q)
    for i in range(n):
        if z == 0:
            return i
        z = (z ** k + c) / z
        if abs(z) > 2 * R:
            return i
    return n


def trig(f):
    def g(P, Q, R, c, n):
        z, s = complex(P, Q), 0
        for i in range(50):
            z = c * f(z)
            s += z.imag
            if abs(s) > 50 * R:
                return i % n
        return n
    return g


def dragon(P, Q, R, d, n):
    z, s = complex(P, Q), 0
    for i in range(65):
        z = z * (d + z)
        s += abs(z.imag)
        if s > 65 * R:
            return i % n
    return n


def tetr(P, Q, R, d, n):
    z, y = complex(P, Q), 0
    for i in range(d):
        try:
            z = z ** z
        except OverflowError:
            return i % n
        y += z.imag
        if abs(y) > d * R:
            return i % n
    return n


def circle(P, Q, R, d, n):
    return round(abs(complex(P, Q) ** d)) % n


def hyper(P, Q, R, d, n):
    return round(abs(P ** d - Q ** d)) % n


def superell(P, Q, R, d, n):
    return abs(P ** d + Q ** d) % n


def astroid(P, Q, R, r, n):
    return round(abs((P * P + Q * Q - r * r) ** 3 + 27 * P * P * Q * Q * r * r)) % n


def lemnis(P, Q, R, r, n):
    return int(abs((P * P + Q * Q) ** 2 - 2 * r * r * (P * P - Q * Q))) % n


def xor(P, Q, R, d, n):
    return (int(P) ^ int(Q)) % d % n


def xordiv(P, Q, R, d, n):
    return (int(P) ^ int(Q)) // d % n


def bio(f):
    def g(P, Q, R, c, d, n):
        z = complex(P, Q)
        for i in range(n):
            z = f(z, d) + c
            o = (abs(z.real) > 5 * R) + (abs(z.imag) > 5 * R)
            if o:
                return i if o == 2 else n
        return n
    return g


def variant(P, Q, R, c, d, n):
    z = complex(P, Q)
    for _ in range(n):
        z = z ** d + c
        if max(abs(z.real), abs(z.imag)) > 5 * R:
            return round(abs(z)) % n
    return n


C1 = [0.3 + 0.5j, -0.8 + 0.156j, 1j, -1]
D1 = [2, 3, 2.5, 5]
W = 'wide'
# name: (point function, iterator, draw wrapper, save wrapper, model, parameter tuples, plane)
T = {
    'mandelbrot': ('multibrot', 'itermandelbrot', 'mandelbrot', 'savemandelbrotfractal2file', multibrot, None, 2),
    'tricorn': ('multicorn', 'itertricorn', 'tricorn', 'savetricornfractal2file', multicorn, None, 2),
    'multibrot': ('multibrot', 'itermultibrot', 'multibrot', 'savemultibrotfractal2file', multibrot, [(d,) for d in D1], 2),
    'multicorn': ('multicorn', 'itermulticorn', 'multicorn', 'savemulticornfractal2file', multicorn, [(d,) for d in D1], 2),
    'multicircle': ('multicircle', 'itermulticircle', 'multicircle', 'savemulticirclefractal2file', circle, [(2,), (2.5,), (3,)], 20),
    'multihyperbola': ('multihyperbola', 'itermultihyperbola', 'multihyperbola', 'savemultihyperbolafractal2file', hyper, [(2,), (3,), (2.5,)], 20),
    'multisuperellipse': ('multisuperellipse', 'itermultisuperellipse', 'multisuperellipse', 'savemultisuperellipsefractal2file', superell, [(4,), (3,), (2.5,)], 5),
    'astroid': ('astroid', 'iterastroid', 'astroidfractal', 'saveastroidfractal2file', astroid, [(1,), (2.5,), (4,)], 5),
    'lemniscate': ('lemniscate', 'iterlemniscate', 'lemniscatefractal', 'savelemniscatefractal2file', lemnis, [(1,), (2.5,), (4,)], 5),
    'xor': ('xorfn', 'iterxorfractal', 'xorfractal', 'savexorfractal2file', xor, [(13,), (7,), (64,)], 200),
    'xordiv': ('xordivfn', 'iterxordivfractal', 'xordivfractal', 'savexordivfractal2file', xordiv, [(13,), (7,), (1,)], 200),
    'tetration': ('tetrationfn', 'itertetration', 'tetrationfractal', 'savetetrationfractal2file', tetr, [(5,), (12,), (40,)], 3),
    'sinjulia': ('sinjulia', 'itersinjulia', 'sinjulia', 'savesinjulia2file', trig(cmath.sin), [(1 + 0.3j,), (1 + 0.5j,), (0.2 - 1j,)], 3),
    'cosjulia': ('cosjulia', 'itercosjulia', 'cosjulia', 'savecosjulia2file', trig(cmath.cos), [(1 + 0.3j,), (1 + 0.5j,), (0.2 - 1j,)], 3),
    'spiraljulia': ('spiraljulia', 'iterspiraljulia', 'spiraljulia', 'savespiraljulia2file', spiral, [(c,) for c in C1], 2),
    'lambda': ('lambdafn', 'iterlamdbafractal', 'lambdafractal', 'savelambdafractal2file', lam, [(0.85 + 0.6j,), (1 + 0.5j,), (0.2 - 1j,), (3,)], 2),
    'barnsley': ('barnsleytree', 'iterbarnsleytree', 'barnsleytree', 'savebarnsleytreefractal2file', barnsley, [(0.6 + 1.1j,), (1 + 0.3j,), (1.2,)], 2),
    'dragon': ('marekdragon', 'itermarekdragon', 'marekdragon', 'savemarekdragon2file', dragon, [(0.25,), (0.618,), (0.1,)], 2),
    'julia': ('multijulia', 'iterjulia', 'julia', 'savejuliafractal2file', multijulia, [(c,) for c in C1], 2),
    'multijulia': ('multijulia', 'itermultijulia', 'multijulia', 'savemultijuliafractal2file', multijulia, [(c, d) for c in C1 for d in (2, 3, 2.5)], 2),
    'ngon': ('ngonfunc', 'iterngonfractal', 'ngonfractal', 'savengonfractal2file', ngon, [(c, d) for c in C1[:3] for d in (3, 5)], 2),
    'biovariant': ('multibiomorphvariant', 'itermultibiomorphvariant', 'multibiomorphvariant', 'savemultibiomorphvariantfractal2file', variant, [(c, d) for c in C1[:3] for d in (2, 3, 5)], 3),
}
for _n, _f in (('', lambda z, d: z ** d), ('phasevariant', lambda z, d: z ** (d + abs(cmath.phase(z)))), ('sin', lambda z, d: cmath.sin(z) + z ** d), ('cos', lambda z, d: cmath.cos(z) + z ** d),
               ('sinh', lambda z, d: cmath.sinh(z) + z ** d), ('cosh', lambda z, d: cmath.cosh(z) + z ** d), ('tan', lambda z, d: cmath.tan(z) + z ** d), ('tanh', lambda z, d: cmath.tanh(z) + z ** d),
               ('exp', lambda z, d: cmath.exp(z) + z ** d), ('2ndtetration', lambda z, d: z ** z + z ** d), ('zconjugate', lambda z, d: z.conjugate() ** d)):
    _m = 'multibiomorph' + _n if _n == 'phasevariant' else 'multi%sbiomorph' % _n
    T['bio' + _n] = (_m, 'iter' + _m, _m, 'save%sfractal2file' % _m, bio(_f), [(c, d) for c in C1[:3] for d in (2, 3)], 3)
FULL = {'mandelbrot': (2,), 'tricorn': (2,)}


def units(tier):
    return [(k, n) for n in T for k in ('point', 'iter', 'plot', 'save')] + [('newton', i) for i in range(3)] + [('params',)] + [('ifs', i) for i in range(4)] + [('fern',), ('ifslong',)]


def run_unit(unit, ctx, tier):
    bind()
    with contextlib.redirect_stdout(io.StringIO()):
        globals()[unit[0] + '_'](ctx, tier, *unit[1:])


def pars(name):
    """(parameters as passed to a wrapper, parameters of the model)"""
    p = T[name][5]
    for a in p or [()]:
        if p is None:
            yield a, (2,)
        elif name == 'julia':
            yield a, a + (2,)
        elif name == 'dragon':
            yield a, (cmath.exp(2j * math.pi * a[0]),)
        else:
            yield a, a


class Whole(int):
    def __rmod__(self, v):
        return v


REMAIN = (circle, hyper, superell, astroid, lemnis, variant)


def values(model, P, Q, par, n, scale=1):
    """values acceptable at a point: the definition there and at hardly different points"""
    s = set()
    for dp, dq, R in PERT:
        if model is barnsley and P == 0:
            dp = 0      # the side of a start on the imaginary axis is exact: none
        try:
            s.add(model(P + dp, Q + dq, R * scale, *par, n))
        except (OverflowError, ZeroDivisionError):
            s.add('?')
    if model in REMAIN and '?' not in s and (model(P, Q, 1, *par, Whole(n)) > 1e6 if model is not superell else len(s) > 2 and max(s) - min(s) > 2):
        s.add('?')      # the remainder of a number too big for its rounding
    return s


def near(v, s):
    return v in s or any(isinstance(w, float) and abs(v - w) < 1e-5 for w in s)


# parameters well away from the usual ones
C2 = [5.5 + 0.25j, -6 - 14j, 0.1 + 44j]
D2 = [14, 19, 44, -5, 1, 0.5]
BIG = {'multibrot': [(d,) for d in D2], 'multicorn': [(d,) for d in D2], 'multicircle': [(14,), (44,), (1,)], 'multihyperbola': [(14,), (44,), (1,)], 'multisuperellipse': [(14,), (44,), (1,)],
       'astroid': [(14,), (44,), (-5,)], 'lemniscate': [(14,), (44,), (-5,)], 'xor': [(44,), (14,), (1000,)], 'xordiv': [(44,), (14,), (1000,)], 'tetration': [(4,), (44,), (14,), (90,)],
       'dragon': [(cmath.exp(2j * math.pi * a),) for a in (5.6, -6.1, 44.3)], 'multijulia': [(c, d) for c in C2 + C1[:1] for d in (14, 19, 44)], 'ngon': [(c, d) for c in C2 for d in (4, 14, 44)],
       'biovariant': [(c, d) for c in C2 + C1[:1] for d in (4, 14, 44)]}
BIG.update({n: [(c,) for c in C2] for n in ('sinjulia', 'cosjulia', 'spiraljulia', 'lambda', 'barnsley')})
BIG['julia'] = [(c, 2) for c in C2]
BIG.update({n: [(c, d) for c in C2 + C1[:1] for d in (4, 14, 44)] for n in T if n.startswith('bio') and n != 'biovariant'})


def bigpars(name):
    """the same pairs as pars, far from the usual values"""
    for par in BIG.get(name, ()):
        if name.startswith('multi') and par[-1] == -5:
            continue        # no value at the origin, where every orbit starts
        if name == 'dragon':
            a = cmath.phase(par[0]) / (2 * math.pi)
            yield (a,), (cmath.exp(2j * math.pi * a),)
        else:
            yield (par[:1] if name == 'julia' else par), par


def fardomains(lim):
    """wide, one-sided and thin parts of the plane"""
    if lim == 200:
        return [(7000.5, -4400.25, 919.5, -1449.25), (-44.5, -144.25, 414.25, 44.5), (3.25, 3, 9, -9.5)]
    k = lim / 2
    return [(44.5 * k, -14.25 * k, 9.75 * k, -64.5 * k), (-0.9 * k, -4.75 * k, 14.25 * k, 0.4 * k), (0.31 * k, 0.3 * k, 0.02 * k, -0.01 * k)]


def point_(ctx, tier, name):
    from pythonbmp import fractals as F
    fn, _, _, _, model, _, lim = T[name]
    k = 7 if tier == 'quick' else 20
    axis = [lim * i / k for i in range(-k, k + 1)] + [lim * 0.123]
    if lim == 200:
        axis = [v + 0.5 for v in axis[::1]] + [0, 17]
    lims = (1, 2, 7, 40) if tier == 'quick' else (1, 2, 3, 7, 40, 255)
    sure = 0
    for _, par in pars(name):
        for n in lims:
            for P, Q in itertools.product(axis, repeat=2):
                want = values(model, P, Q, par, n)
                if '?' in want:
                    continue
                sure += max(want) - min(want) < 1e-5
                ctx.trace()
                ok, v = call(ctx, fn, getattr(F, fn), P, Q, *par, n)
                if ok and not near(v, want):
                    ctx.fail(fn, P=P, Q=Q, parameters=par, maxiter=n, got=v, expected=sorted(want))
                ctx.state((name, par, n, v))
    # a wider plane, bigger parameters and longer runs
    k = {200: 6, 20: 3, 5: 1}.get(lim, 3)
    far = [v * k for v in (-14.5, -6.25, -5.75, -2.5, -1, -0.75, -0.25, 0, 0.25, 0.5, 0.75, 1, 2.25, 4.75, 13.5)] if lim != 200 else [-5000.5, -417, -64, -44, -5, 0, 3, 14, 44, 419.25, 70000]
    for par, lims2 in [(par, (44, 300)) for _, par in pars(name)][:2] + [(par, (9, 44)) for par in BIG.get(name, ())]:
        for n in lims2 if tier == 'quick' else lims2 + (1000,):
            for P, Q in itertools.product([v / k for v in far] if par in BIG.get(name, ()) else far, repeat=2):
                want = values(model, P, Q, par, n)
                if '?' in want:
                    continue
                ctx.trace()
                ok, v = call(ctx, fn, getattr(F, fn), P, Q, *par, n)
                if ok and not near(v, want):
                    ctx.fail(fn, P=P, Q=Q, parameters=par, maxiter=n, got=v, expected=sorted(want))
                ctx.state((name, par, n, v))
    # starts and parameters close to zero
    if lim != 200:
        small = [lim * v for v in (-0.4, -0.004, -0.0003, 0, 0.00011, 0.0021, 0.031)]
        for _, par in pars(name):
            for q in {par, (par[0] * 0.001, *par[1:]) if par and isinstance(par[0], complex) and name != 'dragon' else par}:
                for P, Q in itertools.product(small, repeat=2):
                    want = values(model, P, Q, q, 20)
                    if '?' in want:
                        continue
                    ctx.trace()
                    ok, v = call(ctx, fn, getattr(F, fn), P, Q, *q, 20)
                    if ok and not near(v, want):
                        ctx.fail(fn + '|near zero', P=P, Q=Q, parameters=q, got=v, expected=sorted(want))
                    ctx.state((name, q, P, Q, v))
    # other limits of a biomorph than the usual 5
    if name.startswith('bio'):
        for (_, par), lim2 in itertools.product(list(pars(name))[:2] + [(0, p) for p in BIG[name][:1]], (0.5, 2, 9, 14, 44, 400.5)):
            for n in (7, 44):
                for P, Q in itertools.product([-14.5, -5.25, -3.5, -1.25, -0.5, 0.25, 0.75, 1.5, 2.75, 6.5, 18.25], repeat=2):
                    want = values(model, P, Q, par, n, lim2 / 5)
                    if '?' in want:
                        continue
                    ctx.trace()
                    ok, v = call(ctx, fn, getattr(F, fn), P, Q, *par, n, lim2)
                    if ok and not near(v, want):
                        ctx.fail(fn + '|limit', P=P, Q=Q, parameters=par, maxiter=n, limit=lim2, got=v, expected=sorted(want))
                    ctx.state((name, par, n, lim2, v))
    if not sure:
        ctx.fail('machinery: nothing decided', name=name)
    ctx.sample('%s%r over %d points: %d settled values' % (fn, par, len(axis) ** 2, sure))


RECTS = [(0, 0, 4, 3), (2, 1, 7, 7), (7, 7, 2, 1), (3, 9, 8, 2), (-3, -2, 2, 2), (0, 0, 1, 1), (5, 0, 4, 6), (-3, 4, 0, 0), (0, 3, 4, 0)]
FAR = [(14, 44, 21, 49), (-9, -7, -5, -3), (49, 19, 44, 14), (409, 1004, 412, 1009), (19, -14, 24, -9)]


def domains(lim):
    if lim == 200:
        return [(200.25, -200.25, 150.25, -150.25), (75.5, -125.3, 125.5, -50.25), (-50.5, 50.25, -40.5, 30.25)]
    k = lim / 2
    return [(1.75 * k, -1.75 * k, 1.5 * k, -1.5 * k), (0.75 * k, -1.25 * k, 1.25 * k, -0.5 * k), (-0.5 * k, 0.6 * k, -0.4 * k, 0.3 * k)]


def field(rect, domain, model, par, n):
    """{pixel: acceptable values}; the picture covers the rectangle without its last column and row"""
    x1, y1, x2, y2 = rect
    x1, x2, y1, y2 = min(x1, x2), max(x1, x2), min(y1, y2), max(y1, y2)
    Pm, P0, Qm, Q0 = domain
    return {(x, y): values(model, P0 + (Pm - P0) * (x - x1) / (x2 - x1), Q0 + (Qm - Q0) * (y - y1) / (y2 - y1), par, n) for y in range(y1, y2) for x in range(x1, x2)}


def iter_(ctx, tier, name):
    from pythonbmp import fractals as F
    it, model, lim = T[name][1], T[name][4], T[name][6]
    for rect, dom in list(itertools.product(RECTS, domains(lim))) + list(zip(FAR, itertools.cycle(domains(lim)))):
        for a, par in pars(name):
            for n in (6, 30) if rect in RECTS else (44,):
                ok, got = call(ctx, it, lambda: list(getattr(F, it)(*rect, *a, dom, n)))
                if not ok:
                    continue
                want = field(rect, dom, model, par, n)
                ctx.trace()
                if sorted(p[:2] for p in got) != sorted(want):
                    ctx.fail(it + '|pixels', rect=rect, domain=dom, got=sorted(p[:2] for p in got)[:60], expected=sorted(want)[:60])
                    continue
                for x, y, v in got:
                    if '?' not in want[x, y] and not near(v, want[x, y]):
                        ctx.fail(it, rect=rect, domain=dom, parameters=a, maxiter=n, pixel=(x, y), got=v, expected=sorted(want[x, y]))
                        break
                ctx.state((it, rect, dom, a, n))
    rects = itertools.cycle(((-9, 3, -4, 8), (4, -14, 9, -9), (2, 1, 7, 5), (44, 49, 40, 45)))
    for (a, par), dom in list(itertools.product(bigpars(name), fardomains(lim)[:1] + domains(lim)[1:2])) + list(itertools.product(pars(name), fardomains(lim))):
        rect = next(rects)
        ok, got = call(ctx, it, lambda: list(getattr(F, it)(*rect, *a, dom, 9)))
        if not ok:
            continue
        want = field(rect, dom, model, par, 9)
        ctx.trace()
        if sorted(p[:2] for p in got) != sorted(want):
            ctx.fail(it + '|pixels', rect=rect, domain=dom, got=sorted(p[:2] for p in got)[:60], expected=sorted(want)[:60])
            continue
        for x, y, v in got:
            if '?' not in want[x, y] and not near(v, want[x, y]):
                ctx.fail(it, rect=rect, domain=dom, parameters=a, maxiter=9, pixel=(x, y), got=v, expected=sorted(want[x, y]))
                break
        ctx.state((it, rect, dom, a, 9))


FAC = [0.3, 0.7, 1.0]
TWO = [0x8b0000, 0x9acd32]


def shade(v, bits, three):
    if bits == 24:
        l = (255 - v) * 20 % 256
        r, g, b = (int(f * l) for f in FAC)
        return r << 16 | g << 8 | b
    m = 2 ** bits
    if bits == 1 or three:
        return int(v) % m
    return (m - 1 - int(v)) % m


def shades(s, bits, three):
    r = set()
    for v in s:
        for w in ((v,) if isinstance(v, int) else (v, v - 1e-6, v + 1e-6)):
            if w >= 0:
                r.add(shade(w, bits, three))
    return r


def judge(ctx, sig, base, got, w, h, want, bits, three, **d):
    """every pixel of the picture is one of its shades and every other pixel is as it was"""
    ctx.trace()
    bad = []
    for y in range(h):
        for x in range(w):
            s = want.get((x, y))
            if s is None:
                if got[y][x] != base[y][x]:
                    bad.append((x, y, got[y][x], 'kept %d' % base[y][x]))
            elif '?' not in s and got[y][x] not in shades(s, bits, three):
                bad.append((x, y, got[y][x], sorted(shades(s, bits, three))))
    if bad:
        ctx.fail(sig, pixels=bad[:6], bits=bits, three=three, **d)
    return not bad


def plot_(ctx, tier, name):
    import pythonbmp.BITMAPlib as B
    fn, model, lim = T[name][2], T[name][4], T[name][6]
    f = getattr(B, fn)
    w, h = 9, 7
    for bits in DEPTHS:
        base = mkimg(w, h, bits)
        for rect in ((0, 0, w, h), (3, 1, 7, 5), (8, 6, 2, 2), (-3, -2, 5, 4), (6, 3, 13, 11)):
            for a, par in pars(name):
                for dom, n in zip(domains(lim), (9, 300, 9)):
                    for three in ((True, False) if bits < 24 else (True,)):
                        buf = mkbuf(base)
                        ok, _ = call(ctx, fn, f, buf, *rect, *a, dom, FAC if three else TWO, n)
                        if not ok:
                            continue
                        try:
                            got = decode(buf)
                        except BadImage as e:
                            ctx.fail(fn + '|image', error=str(e), rect=rect, bits=bits)
                            continue
                        judge(ctx, fn, base.px, got.px, w, h, field(rect, dom, model, par, n), bits, three, rect=rect, domain=dom, parameters=a, maxiter=n)
                        if got.pal != base.pal:
                            ctx.fail(fn + '|palette', rect=rect, bits=bits)
                        ctx.state(bytes(buf))
    # far from the corner of a bigger picture
    # (96 columns: rows without padding bytes)
    w, h = 96, 49
    for bits in DEPTHS:
        base = mkimg(w, h, bits)
        for i, rect in enumerate(((84, 0, 96, 6), (24, 49, 14, 44), (84, 44, 104, 59), (44, 19, 49, 14))):
            a, par = list(pars(name))[i % len(list(pars(name)))]
            dom = domains(lim)[i % 3]
            for three in ((True, False) if bits < 24 else (True,)):
                buf = mkbuf(base)
                ok, _ = call(ctx, fn, f, buf, *rect, *a, dom, FAC if three else TWO, 44)
                if ok:
                    got = decode(buf)
                    judge(ctx, fn, base.px, got.px, w, h, field(rect, dom, model, par, 44), bits, three, rect=rect, domain=dom, parameters=a, maxiter=44)
                    ctx.state(bytes(buf))
    # rectangles cut on every side, parameters and parts of the plane far from the usual ones
    w, h = 14, 11
    rects = itertools.cycle(((-9, -7, 4, 3), (-14, 4, 5, 9), (4, -9, 9, 4), (9, 5, 24, 7), (5, 6, 8, 19), (-6, -8, -5, -7), (2, 3, 9, 8)))
    for (a, par), dom in list(itertools.product(bigpars(name), fardomains(lim)[:1] + domains(lim)[1:2])) + list(itertools.product(pars(name), fardomains(lim))):
        rect = next(rects)
        want = field(rect, dom, model, par, 9)
        for bits in DEPTHS:
            base = mkimg(w, h, bits)
            for three in ((True, False) if bits < 24 else (True,)):
                buf = mkbuf(base)
                ok, _ = call(ctx, fn, f, buf, *rect, *a, dom, FAC if three else TWO, 9)
                if ok:
                    got = decode(buf)
                    judge(ctx, fn, base.px, got.px, w, h, want, bits, three, rect=rect, domain=dom, parameters=a, maxiter=9)
                    ctx.state(bytes(buf))


def fresh(B, w, h, bits, three):
    b = B.newBMP(w, h, bits)
    if bits < 24:
        if three:
            B.setBMP2invshiftedmonochrome(b, FAC)
        else:
            B.setBMP2dichromaticpal(b, *TWO)
    return decode(b)


def save_(ctx, tier, name):
    import pythonbmp.BITMAPlib as B
    fn, model, lim = T[name][3], T[name][4], T[name][6]
    f = getattr(B, fn)
    with tempfile.TemporaryDirectory(prefix='c20') as t:
        p = os.path.join(t, 'a.bmp')
        for w, h in ((6, 5), (9, 4), (79, 4), (3, 49), (14, 14)):
            for a, par in list(pars(name))[:3 if w < 10 and h < 9 else 1]:
                dom = domains(lim)[1]
                for bits in DEPTHS + (None,):
                    for three in ((True, False) if bits and bits < 24 else (True,)):
                        n = 255 if bits is None else 60
                        ok, _ = call(ctx, fn, f, p, w, h, *a, dom, FAC if three else TWO, *([bits, n] if bits else []))
                        if not ok:
                            continue
                        try:
                            got = decode(open(p, 'rb').read())
                        except (BadImage, OSError) as e:
                            ctx.fail(fn + '|file', error=str(e), bits=bits)
                            continue
                        os.unlink(p)
                        if (got.w, got.h) != (w, h) or bits and got.bits != bits:
                            ctx.fail(fn + '|form', got=(got.w, got.h, got.bits), expected=(w, h, bits))
                            continue
                        base = fresh(B, w, h, got.bits, three)
                        judge(ctx, fn, base.px, got.px, w, h, field((0, 0, w, h), dom, model, par, n), got.bits, three, domain=dom, parameters=a, size=(w, h))
                        if got.pal != base.pal:
                            ctx.fail(fn + '|palette', bits=bits, three=three)
                        ctx.state((fn, w, h, a, bits, three))
                if os.listdir(t):
                    ctx.fail(fn + '|litter', files=os.listdir(t))
        k = 0
        for (a, par), dom in list(itertools.product(bigpars(name), fardomains(lim)[:1] + domains(lim)[1:2])) + list(itertools.product(pars(name), fardomains(lim))):
            k += 1
            w, h, bits, three = 4 + k % 3, 3 + k % 2, DEPTHS[k % 4], bool(k % 8 < 4 or DEPTHS[k % 4] == 24)
            ok, _ = call(ctx, fn, f, p, w, h, *a, dom, FAC if three else TWO, bits, 9)
            if not ok:
                continue
            try:
                got = decode(open(p, 'rb').read())
            except (BadImage, OSError) as e:
                ctx.fail(fn + '|file', error=str(e), bits=bits)
                continue
            base = fresh(B, w, h, bits, three)
            if (got.w, got.h, got.bits) != (w, h, bits) or got.pal != base.pal:
                ctx.fail(fn + '|form', got=(got.w, got.h, got.bits), expected=(w, h, bits))
                continue
            judge(ctx, fn, base.px, got.px, w, h, field((0, 0, w, h), dom, model, par, 9), bits, three, domain=dom, parameters=a, size=(w, h))
            ctx.state((fn, w, h, a, bits, three, dom))


# ---- Newton basins
def basin(z, f, fp, n):
    for i in range(n):
        d = fp(z)
        if d == 0:
            return None
        s = f(z) / d
        if abs(s) < 1e-8:
            return z, i
        z -= s
    return None


POLY = {3: [-1, 0, 0, 1], 4: [-1, 0, 0, 0, 1], 4.1: [0, -1, 0, 0, 1], 5: [-1, 0, 0, 0, 0, 1], 5.1: [0, -1, 0, 0, 0, 1], 5.3: [0, 0, 0, -1, 0, 1], 6: [-1, 0, 0, 0, 0, 0, 1], 6.3: [-1, 0, 0, -1, 0, 0, 1]}


def horner(c):
    def f(z):
        v = 0
        for k in reversed(c):
            v = v * z + k
        return v
    return f


def deriv(c):
    return [i * k for i, k in enumerate(c)][1:]


def newton_(ctx, tier, part):
    import pythonbmp.BITMAPlib as B
    from pythonbmp import fractals as F
    from pythonbmp import mathlib as M
    D = F.funcparamdict()
    facs = [[0.1 * i, 1 - 0.1 * i, 0.05 * i] for i in range(1, 9)]
    for k, c in POLY.items():
        f, fp = horner(c), horner(deriv(c))
        if part == 0:
            for n in (1, 5, 40):
                for P, Q in itertools.product([i / 4 for i in range(-8, 9)], repeat=2):
                    opts = [basin(complex(P + a, Q + b), f, fp, n) for a, b, _ in PERT[:5]]
                    ok, got = call(ctx, 'newtonmethod', M.newtonmethod, complex(P, Q), *D[k], n)
                    ok2, got2 = call(ctx, 'newton', F.newton, P, Q, D[k], n)
                    ctx.trace()
                    for g, o in ((got, ok), (got2, ok2)):
                        if o and not any((g == (None, None)) if w is None else g[0] is not None and abs(g[0] - w[0]) < 1e-6 and g[1] == w[1] for w in opts):
                            ctx.fail('newton|%s' % k, P=P, Q=Q, maxiter=n, got=g, expected=opts)
            continue
        for dom in ((2.1, -1.9, 1.6, -1.7), (0.9, 0.3, 0.8, 0.11)):
            for n in (4, 40):
                for bits in DEPTHS:
                    w, h = (9, 7)
                    rects = ((0, 0, w, h), (7, 6, 2, 1), (-3, -2, 5, 4), (88, 0, 96, 4), (19, 9, 14, 4)) if part == 1 else ((0, 0, w, h), (0, 0, 79, 3), (0, 0, 3, 44))
                    for x1, y1, x2, y2 in rects:
                        w, h = (x2, y2) if part == 2 else (9, 7) if x1 < 9 else (96, 49)
                        if part == 1:
                            base = mkimg(w, h, bits)
                            buf = mkbuf(base)
                            ok, roots = call(ctx, 'newtonsfractal', B.newtonsfractal, buf, x1, y1, x2, y2, D[k], dom, facs, n)
                        else:
                            with tempfile.TemporaryDirectory(prefix='c20') as t:
                                p = os.path.join(t, 'n.bmp')
                                fac = facs if bits == 24 else facs[:3]
                                base = decode(B.newBMP(w, h, bits))
                                ok, roots = call(ctx, 'savenewtonsfractal2file', B.savenewtonsfractal2file, p, w, h, D[k], dom, facs, bits, n)
                                if ok:
                                    buf = open(p, 'rb').read()
                        if not ok:
                            continue
                        got = decode(buf)
                        ctx.trace()
                        a1, a2, b1, b2 = min(x1, x2), max(x1, x2), min(y1, y2), max(y1, y2)
                        bad, sure, seen = [], True, []
                        px = {}
                        for y in range(b1, b2):
                            for x in range(a1, a2):
                                P = dom[1] + (dom[0] - dom[1]) * (x - a1) / (a2 - a1)
                                Q = dom[3] + (dom[2] - dom[3]) * (y - b1) / (b2 - b1)
                                opts = [basin(complex(P + a, Q + b), f, fp, n) for a, b, _ in PERT[:5]]
                                o = opts[0]
                                if any((v is None) != (o is None) or v and (v[1] != o[1] or abs(v[0] - o[0]) > 1e-3) for v in opts):
                                    sure = False
                                    continue
                                px[x, y] = o
                                if o and not any(abs(o[0] - r) < 0.01 for r in seen):
                                    seen.append(o[0])
                        if part == 1 or roots is not None:
                            if sure and (len(roots) != len(seen) or any(abs(a - b) > 0.01 for a, b in zip(roots, seen))):
                                ctx.fail('newtonsfractal|roots', got=roots, expected=seen, key=k, domain=dom, maxiter=n)
                                continue
                        else:
                            roots = seen
                        for y in range(h):
                            for x in range(w):
                                inside = a1 <= x < a2 and b1 <= y < b2
                                if inside and (x, y) not in px:
                                    continue
                                o = px.get((x, y))
                                if o is None:
                                    want = base.px[y][x]
                                elif bits == 24:
                                    i = [j for j, r in enumerate(roots) if abs(r - o[0]) < 0.02][0]
                                    l = (255 - o[1]) * 20 % 256
                                    r, g, b = (int(q * l) for q in facs[i])
                                    want = r << 16 | g << 8 | b
                                else:
                                    want = 2 ** bits - 1 - o[1] % 2 ** bits
                                if got.px[y][x] != want:
                                    bad.append((x, y, got.px[y][x], want))
                        if bad:
                            ctx.fail('newtonsfractal', pixels=bad[:6], key=k, domain=dom, maxiter=n, bits=bits)
                        ctx.state((part, k, dom, n, bits, x1))


# the maps and cumulative choice limits of the four published systems, and the named rectangles of the plane
SYSTEMS = {
    'fern': (((0, 0, 0, .16, 0, 0), (.2, -.26, .23, .22, 0, 1.6), (-.15, .28, .26, .24, 0, .44), (.85, .04, -.04, .85, 0, 1.6)), (.009, .073, .137, 1)),
    'tree': (((0, .2, 0, .5, 0, 0), (.1, 0, 0, .1, 0, .2), (.42, -.42, .42, .42, 0, .2), (.42, .42, -.42, .42, 0, .2)), (.05, .2, .6, 1)),
    'cantortree': (((1 / 3, 0, 0, 1 / 3, 0, 0), (1 / 3, 0, 0, 1 / 3, 1, 0), (2 / 3, 0, 0, 2 / 3, .5, .5)), (1 / 3, 2 / 3, 1)),
    'sierpinskitriangle': (((.5, 0, 0, .5, 0, 0), (.5, 0, 0, .5, 1, 0), (.5, 0, 0, .5, .5, .5)), (1 / 3, 2 / 3, 1))}
PLANES = {'maxdefault': (1.75, -1.75, 1.5, -1.5), 'maxeqdim': (1.75, -1.75, 1.75, -1.75), 'middefault': (.75, -1.25, 1.25, -1.25),
          'mindefault': (.75, -.75, .5, -.5), 'mineqdim': (.5, -.5, .5, -.5), 'custom1': (-.5, -.7, -.5, -.7)}


def params_(ctx, tier):
    """the parameter tables are what they say: derivatives, domains, cumulative probabilities"""
    from pythonbmp import fractals as F
    D = F.funcparamdict()
    for k, c in POLY.items():
        f, fp = horner(c), horner(deriv(c))
        for P, Q in itertools.product([i / 3 for i in range(-7, 8)], repeat=2):
            z = complex(P, Q)
            ctx.trace()
            a, b = D[k][0](z), D[k][1](z)
            if abs(a - f(z)) > 1e-9 * (1 + abs(a)) or abs(b - fp(z)) > 1e-9 * (1 + abs(b)):
                ctx.fail('funcparamdict', key=k, z=z, got=(a, b), expected=(f(z), fp(z)))
                break
        ctx.state(k)
    for k, (P, p, Q, q) in F.fractaldomainparamdict().items():
        ctx.trace()
        if not (P > p and Q > q):
            ctx.fail('fractaldomainparamdict', key=k, got=(P, p, Q, q))
        if k.endswith('eqdim') and abs((P - p) - (Q - q)) > 1e-9:
            ctx.fail('fractaldomainparamdict|equal', key=k, got=(P, p, Q, q))
    def same(a, b):
        return len(a) == len(b) and all(abs(u - v) < 1e-9 for u, v in zip(a, b))
    got = F.fractaldomainparamdict()
    for k, v in PLANES.items():
        if k not in got or not same(got[k], v):
            ctx.fail('fractaldomainparamdict|value', key=k, got=got.get(k), expected=v)
    got = F.getIFSparams()
    for k, (maps, pr) in SYSTEMS.items():
        ctx.trace()
        if k not in got:
            ctx.fail('getIFSparams|missing', key=k)
            continue
        # the maps that can be chosen, with the chance of each
        use = lambda maps, pr: [(m, hi - lo) for m, lo, hi in zip(maps, (0,) + tuple(pr), pr) if hi > lo]
        a, b = use(*got[k]), use(maps, pr)
        if len(a) != len(b) or not all(same(m, n) and abs(p - q) < 1e-9 for (m, p), (n, q) in zip(a, b)):
            ctx.fail('getIFSparams|value', key=k, got=got[k], expected=(maps, pr))
    for k, (maps, pr) in F.getIFSparams().items():
        ctx.trace()
        if len(maps) != len(pr) or any(len(m) != 6 for m in maps) or list(pr) != sorted(pr) or abs(pr[-1] - 1) > 1e-12:
            ctx.fail('getIFSparams', key=k, maps=maps, probabilities=pr)
        for (a, b, c, d, e, f), lo, hi in zip(maps, (0,) + tuple(pr), pr):
            if hi > lo and not (a * a + c * c < 1 + 1e-12 and b * b + d * d < 1 + 1e-12):
                ctx.fail('getIFSparams|contraction', key=k, map=(a, b, c, d, e, f))


class dice:
    """random numbers handed out from a script"""
    def __init__(self, seq):
        self.seq, self.used = iter(seq), 0

    def __call__(self):
        self.used += 1
        return next(self.seq)

    def __enter__(self):
        from pythonbmp import fractals as F
        self.F, self.old, self.std = F, getattr(F, 'random', None), random.random
        random.random = self
        if callable(self.old):
            F.random = self
        return self

    def __exit__(self, *a):
        random.random = self.std
        if self.old is not None:
            self.F.random = self.old


def orbit(maps, pr, seq):
    x = y = 0
    for j in seq:
        i = sum(j >= p for p in pr[:3])
        a, b, c, d, e, f = maps[i]
        x, y = a * x + b * y + e, c * x + d * y + f
        yield x, y


def options(x, y, rect, xs, ys, xo, yo):
    """where the point may be plotted; None: not inside"""
    x1, y1, x2, y2 = rect
    r = set()
    for u in (-1e-9, 0, 1e-9):
        for v in (-1e-9, 0, 1e-9):
            px, py = int(x * xs + xo + x1 + u), int(y2 - y1 - y * ys + yo + y1 + v)
            r.add((px, py) if x1 < px < x2 and y1 < py < y2 else None)
    return r


def ifs_(ctx, tier, i):
    from pythonbmp import fractals as F
    import pythonbmp.BITMAPlib as B
    name, (maps, pr) = sorted(F.getIFSparams().items())[i]
    lo = (0,) + tuple(pr[:3])
    # one value at the very start of each interval and one at its very end
    faces = [lo[k] for k in range(4) if lo[k] < 1 and lo[k] < pr[k]] + [pr[k] - 2 ** -53 for k in range(4) if pr[k] > lo[k]]
    depth = 4 if tier == 'quick' else 5
    for rect in ((0, 0, 40, 30), (10, 5, 33, 45), (33, 45, 10, 5), (93, 71, 134, 119), (-29, -14, 4, 9)):
        R = (min(rect[0], rect[2]), min(rect[1], rect[3]), max(rect[0], rect[2]), max(rect[1], rect[3]))
        for xs, ys, xo, yo in ((4, 4, 12, 0), (13.7, 21.3, 3.4, -2.2), (44, 49, 14, 19), (14, 5, -9, -8)):
            for n in range(1, depth + 1 - (rect[0] in (93, -29) or xs in (44, 14))):
                for seq in itertools.product(faces, repeat=n):
                    with dice(seq) as dd:
                        ok, got = call(ctx, 'iterIFS', lambda: list(F.iterIFS((maps, pr), *rect, xs, ys, xo, yo, n)))
                    if not ok:
                        continue
                    ctx.trace()
                    pos = {0}
                    for x, y in orbit(maps, pr, seq):
                        o = options(x, y, R, xs, ys, xo, yo)
                        nxt = set()
                        for p in pos:
                            if None in o:
                                nxt.add(p)
                            if p < len(got) and tuple(got[p]) in o:
                                nxt.add(p + 1)
                        pos = nxt
                    if len(got) not in pos:
                        ctx.fail('iterIFS', system=name, rect=rect, scale=(xs, ys, xo, yo), random=seq, got=got, expected=[sorted(map(str, options(x, y, R, xs, ys, xo, yo))) for x, y in orbit(maps, pr, seq)])
                    ctx.state((name, rect, xs, tuple(got)))
    # the picture: every depth, all points of a longer run, nothing else
    for bits in DEPTHS:
        for rect in ((1, 1, 18, 12), (4, 2, 19, 13)):
            seq = [(k * 0.6180339887498949) % 1 for k in range(400)]
            base = mkimg(32, 14, bits)
            buf = mkbuf(base)
            with dice(seq):
                ok, _ = call(ctx, 'IFS', B.IFS, buf, (maps, pr), *rect, 5, 4, 3, 0, 1, 400)
            if ok:
                picture(ctx, 'IFS', base, buf, maps, pr, seq, rect, 5, 4, 3, 0, 1)
        for rect, sc in (((72, 44, 119, 79), (14, 19, 14, 5)), ((14, 19, 44, 84), (4, 44, -6, 14))):
            seq = [(k * 0.6180339887498949 + k * k * 0.0137) % 1 for k in range(404)]
            base = mkimg(128, 89, bits)
            buf = mkbuf(base)
            with dice(seq):
                ok, _ = call(ctx, 'IFS', B.IFS, buf, (maps, pr), *rect, *sc, COLF[bits], 404)
            if ok:
                picture(ctx, 'IFS', base, buf, maps, pr, seq, rect, *sc, COLF[bits])


def ifslong_(ctx, tier):
    """a long run: as many points as asked for"""
    from pythonbmp import fractals as F
    import pythonbmp.BITMAPlib as B
    import random
    ps = F.getIFSparams()['fern']
    for n in (60001,) if tier == 'quick' else (60001, 131073):
        random.seed(5)
        ok, got = call(ctx, 'iterIFS', lambda: list(F.iterIFS(ps, 0, 0, 400, 400, 38, 38, 200, 0, n)))
        random.seed(5)
        ok2, few = call(ctx, 'iterIFS', lambda: list(F.iterIFS(ps, 0, 0, 400, 400, 38, 38, 200, 0, n - 20000)))
        if not (ok and ok2):
            continue
        if got[:len(few)] != few or len(got) - len(few) < 15000:
            ctx.fail('iterIFS|long', points=n, got=len(got), shorter=len(few))
        buf = mkbuf(mkimg(410, 410, 8, [[0] * 410 for _ in range(410)]))
        random.seed(5)
        ok, _ = call(ctx, 'IFS', B.IFS, buf, ps, 0, 0, 400, 400, 38, 38, 200, 0, 7, n)
        px = decode(buf).px
        if ok and {(x, y) for y, r in enumerate(px) for x, c in enumerate(r) if c} != {(x, y) for x, y in got if 0 <= x < 410 and 0 <= y < 410}:
            ctx.fail('IFS|long', points=n)
        ctx.trace(3)
        ctx.state((n, len(got)))


COLF = {1: 1, 4: 14, 8: 0xa4, 24: 0x123454}


def picture(ctx, sig, base, buf, maps, pr, seq, rect, xs, ys, xo, yo, col):
    got = decode(buf)
    must, may = set(), set()
    for x, y in orbit(maps, pr, seq):
        o = options(x, y, rect, xs, ys, xo, yo)
        may |= o
        if len(o) == 1:
            must |= o
    ctx.trace()
    bad = []
    for y in range(base.h):
        for x in range(base.w):
            g = got.px[y][x]
            ok = ([col] if (x, y) in may else []) + ([base.px[y][x]] if (x, y) not in must else [])
            if g not in ok:
                bad.append((x, y, g, ok))
    if bad:
        ctx.fail(sig, pixels=bad[:6], rect=rect, bits=base.bits)


def fern_(ctx, tier):
    from pythonbmp import fractals as F
    import pythonbmp.BITMAPlib as B
    maps, pr = F.getIFSparams()['fern']
    for bits in (DEPTHS if tier == 'thorough' else (1, 24)):
        for rect in ((0, 0, 40, 60), (13, 7, 44, 58), (84, 71, 119, 124)):
            seq = [(k * 0.6180339887498949 + k * k * 0.0137) % 1 for k in range(100000)]
            base = mkimg(64, 64, bits) if rect[0] < 80 else mkimg(128, 129, bits)
            buf = mkbuf(base)
            with dice(seq) as dd:
                ok, _ = call(ctx, 'fern', B.fern, buf, *rect, 1)
            if ok:
                s = abs(rect[3] - rect[1]) // 10
                picture(ctx, 'fern', base, buf, maps, pr, seq[:dd.used], rect, s, s, (rect[2] - rect[0]) // 2, 0, 1)
