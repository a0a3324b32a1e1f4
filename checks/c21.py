"""Charts: pie slices, arcs, axes, tick numbers, coordinates, scatter plots and their regression line."""
import itertools, math
from fractions import Fraction
from mc.core import *
from mc.gridop import *

BOUNDS = {
    'quick': 'charts away from the corner of pictures to 449x329 with radii to 57; pie charts: all slice lists of 1-4 parts over {1,2,3,5}, lists with 0, 50 and 97 percent slices, radii 1-11 (3 lists at 20 and 37), at 4, 8 and 24 bits; '
             'arcs: all start <= end on a 15 degree grid plus odd angles, radii 1-12, outline and filled; axes over origins, steps, limits, number lines and grid at every depth; '
             'tick numbers over all flag combinations; coordinates over a grid of values and scales; scatter plots over all data lists of <= 3 points of a small grid, with the regression line',
    'thorough': 'as quick with pies of 5 parts, radii to 20, arcs on a 10 degree grid to radius 18, data lists of 4 points'}
PARTS = (1, 2, 3, 5)


def units(tier):
    q = tier == 'quick'
    u = [('pie', n, r) for n in range(1, 5 if q else 6) for r in (range(1, 12) if q else range(1, 21))]
    u += [('pielist', r) for r in (2, 5, 9, 20, 37)]
    u += [('arc', r, f) for r in (range(1, 13) if q else range(1, 19)) for f in (0, 1)]
    u += [('axis', b) for b in DEPTHS]
    u += [('number', b) for b in DEPTHS]
    u += [('coord',)] + [('far', k, b) for k in ('pie', 'arc', 'axis', 'number', 'scatter') for b in DEPTHS]
    u += [('scatter', b, n) for b in DEPTHS for n in ((1, 2, 3) if q else (1, 2, 3, 4))]
    return u


def run_unit(unit, ctx, tier):
    B = bind()
    q = tier == 'quick'
    k = unit[0]
    if k == 'pie':
        n, r = unit[1:]
        lists = list(itertools.product(PARTS, repeat=n))
        if n >= 4 and q:
            lists = lists[::(1 if r < 6 else 5)]
        if n >= 5:
            lists = lists[::17]
        for i, d in enumerate(lists):
            pie(ctx, B, r, d, (24, 8, 4)[i % 3])
        ctx.sample('pie of %s, radius %d' % (lists[-1], r))
    elif k == 'pielist':
        for d in ([20, 30, 50], [50, 50], [50, 20, 30], [1, 2, 97], [97, 2, 1], [1] * 10, [12, 13, 14, 15, 46], [100], [7.5, 12.25, 0.25], [30, 0, 70], [0, 50, 50], [25, 25, 25, 25], [1] * 12,
                  [49.999, 50.001], [1, 1, 1, 1, 1, 5],
                  [50.001, 49.999], [498, 251, 251], [251, 498, 251], [1000, 500, 500], [499, 1, 501], [3, 1, 2], [1e-3, 1e3], [1e9, 1e9 + 1]):
            if unit[1] > 15 and len(d) > 5:
                continue
            for b in (24, 8, 4):
                pie(ctx, B, unit[1], d, b)
            # colours used again by later slices
            for rep in (1, 2, 3):
                pie(ctx, B, unit[1], d, (24, 8, 4)[rep % 3], rep=rep)
                pie(ctx, B, unit[1], sorted(d), (24, 8, 4)[rep % 3], rep=rep)
    elif k == 'arc':
        step = 15 if q else 10
        angs = sorted(set(range(0, 361, step)) | {7, 44.5, 91, 179, 181, 268, 359})
        for a in angs:
            for e in angs:
                if a <= e :
                    arc(ctx, B, unit[1], a, e, unit[2])
    elif k == 'axis':
        axis(ctx, B, unit[1])
    elif k == 'number':
        number(ctx, B, unit[1])
    elif k == 'coord':
        coord(ctx, B)
    elif k == 'far':
        far(ctx, B, unit[1], unit[2], q)
    else:
        scatter(ctx, B, unit[1], unit[2], q)


def far(ctx, B, kind, bits, q):
    """The same away from the corner of a bigger picture."""
    if kind == 'pie' and bits > 1:
        for d in ([20, 30, 50], [1, 2, 97], [14, 4, 44, 9], [100], [4] * 9):
            for r, off in ((9, (64, 49)), (14, (99, 14)), (19, (14, 79)), (44, (49, 24))):
                pie(ctx, B, r, d, bits, (171, 143), off)
    elif kind == 'arc' and bits > 1:
        for a, e in ((14, 74), (44, 134), (0, 209), (4, 44), (199, 344), (304, 354), (100, 290), (10, 250), (14, 199), (44, 225), (9, 349)):
            for r, off in ((9, (64, 49)), (14, (99, 14)), (33, (54, 24)), (44, (49, 24)), (57, (19, 14))):
                for f in (0, 1):
                    arc(ctx, B, r, a, e, f, bits, (171, 143), off)
    elif kind == 'axis':
        axis(ctx, B, bits, 448, 329, list(zip(((49, 299), (304, 84), (94, 314)), ((44, 14), (9, 4), (79, 44)), ((439, 49), (444, 24), (374, 4)))), (((44, -94), (14, 9)), ((0, 1), (0.5, 44))))
    elif kind == 'number':
        number(ctx, B, bits, 320, 154, ([(149, 44), (84, 99), (9, 134), (254, 14), (204, 64)], [(14 * i, 9 * i + 4) for i in range(14)]), ((44, 9), (-14, 44), (994, 4)), ((14, -9), (44, 19)), (1, 4))
    elif kind == 'scatter':
        P = [(0, 0), (44, 14), (99, 204), (14, 49), (149, 4), (79, 74), (4, 144), (209, 19)]
        I = [((49, 194), (44, 19), (279, 9), (0, 0), (40, 24), (200, 180)), ((104, 154), (14, 9), (289, 14), (-44, -9), (9, 14), (60, 190))]
        for n in (1, 2, 3):
            scatter(ctx, B, bits, n, q, 288, 211, P, I, [(14, 3, False), (4, 5, True), (44, 6, False)], 9 if n == 3 else 1)


def near_ray(dx, dy, rho, a, edges, tol):
    for e in edges:
        d = math.radians(a - e)
        if math.cos(d) >= 0 and abs(math.sin(d)) * rho < tol:
            return True
    return rho < tol


def ang(dx, dy):
    return math.degrees(math.atan2(dx, -dy)) % 360


COLS = {4: [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], 8: list(range(1, 13)), 24: [0x10101 * i for i in range(1, 13)]}


def pie(ctx, B, r, data, bits, size=None, off=(0, 0), rep=12):
    w, h = size or (2 * r + 5,) * 2
    cx, cy = r + 2 + off[0], r + 2 + off[1]
    white = (1 << bits) - 1
    sig = 'piechart|b%d' % bits
    cols = [COLS[bits][i % rep] for i in range(len(data))]
    buf = mkbuf(mkimg(w, h, bits, [[white] * w for _ in range(h)]))
    hdr = buf[:HDR[bits]]
    n = len(buf)
    dl = [[d, cols[i]] for i, d in enumerate(data)]
    ok, res = call(ctx, sig, B.piechart, buf, cx, cy, r, dl)
    ctx.trace()
    if not ok:
        return
    det = dict(data=list(data), r=r)
    if len(buf) != n or buf[:HDR[bits]] != hdr:
        ctx.fail(sig + '|length or header', **det)
        return
    # the returned slice table
    tot = sum(Fraction(d) for d in data)
    acc, edges = Fraction(0), [0.0]
    want = []
    for i, d in enumerate(data):
        p = Fraction(d) / tot
        want.append((float(acc * 360), float((acc + p) * 360), cols[i], d, float(p * 100)))
        acc += p
        edges.append(float(acc * 360))
    got = res[0] if res else None
    if not got or len(got) != len(want) or any(abs(g[0] - t[0]) > 1e-6 or abs(g[1] - t[1]) > 1e-6 or abs(g[4] - t[4]) > 1e-6 or g[2] != t[2] or g[3] != t[3] for g, t in zip(got, want)):
        ctx.fail('piechart|slice table', got=res, want=want, **det)
    big = [i for i, t in enumerate(want) if Fraction(data[i]) * 2 >= tot]
    if res and not (res[1] in big if big else res[1] == -1):
        ctx.fail('piechart|big slice', got=res[1], want=big, **det)
    px = decode_pixels(buf, w, h, bits)
    ctx.state(bytes(buf))
    for y in range(h):
        for x in range(w):
            dx, dy = x - cx, y - cy
            rho = math.hypot(dx, dy)
            if rho > r + 1:
                if px[y][x] != white:
                    ctx.fail(sig + '|outside', at=(dx, dy), got=px[y][x], **det)
                    return
                continue
            if rho > r - 1:
                continue
            a = ang(dx, dy)
            if near_ray(dx, dy, rho, a, edges, 1.6):
                continue
            k = max(i for i in range(len(data)) if edges[i] <= a and data[i])
            if px[y][x] != cols[k]:
                ctx.fail(sig, at=(dx, dy), want_slice=k, got=px[y][x], picture=show(px, bits), **det)
                return


def arc(ctx, B, r, sa, ea, filled, bits=8, size=None, off=(0, 0)):
    w, h = size or (2 * r + 5,) * 2
    cx, cy = r + 2 + off[0], r + 2 + off[1]
    sig = 'drawarc|' + ('filled' if filled else 'outline')
    case = Case(mkimg(w, h, bits, [[0] * w for _ in range(h)]))
    det = dict(r=r, start=sa, end=ea)
    buf = case.buf[:]
    ok, _ = call(ctx, sig, B.drawarc, buf, cx, cy, r, sa, ea, 1, True, 2, bool(filled))
    ctx.trace()
    if not ok:
        return
    if len(buf) != case.n or bytes(buf[:case.hd]) != case.hdr:
        ctx.fail(sig + '|length or header', **det)
        return
    px = decode_pixels(buf, w, h, bits)
    ctx.state(bytes(buf))
    P = {(x - cx, y - cy): px[y][x] for y in range(h) for x in range(w) if px[y][x]}
    ok, lst = call(ctx, 'arcvert', B.arcvert, cx, cy, r, sa, ea)
    if not ok:
        return
    line = {(p[0] - cx, p[1] - cy) for p in lst}
    full = ea - sa >= 360
    def inside(dx, dy, slack):
        """Angle within the arc, widened (slack > 0) or narrowed by slack pixels."""
        rho = math.hypot(dx, dy)
        a = ang(dx, dy)
        if near_ray(dx, dy, rho, a, (sa, ea), abs(slack)):
            return slack > 0
        return sa <= a <= ea or sa <= a + 360 <= ea
    circle = set(disc_outline(B, r))
    # outline pixels lie on the circle within the angles or on the two straight edges
    for dx, dy in line:
        rho = math.hypot(dx, dy)
        if rho > r - 1 and inside(dx, dy, 1.8 + 0.03 * r):
            continue
        if near_ray(dx, dy, rho, ang(dx, dy), (sa, ea), 1.0 + 0.03 * r) and rho <= r + 1:
            continue
        ctx.fail('arcvert|stray pixel', at=(dx, dy), **det)
        return
    for dx, dy in circle:
        if inside(dx, dy, -0.8) and (dx, dy) not in line:
            ctx.fail('arcvert|missing arc pixel', at=(dx, dy), **det)
            return
    if ea > sa:
        for e in (sa, ea):
            ux, uy = math.sin(math.radians(e)), -math.cos(math.radians(e))
            for t in range(0, r + 1):
                if not any(math.hypot(x - ux * t, y - uy * t) < 1.5 for x, y in line):
                    ctx.fail('arcvert|gap in a straight edge', edge=e, at=(ux * t, uy * t), **det)
                    return
    if not filled:
        if set(P) != line or any(v != 1 for v in P.values()):
            ctx.fail(sig, painted=sorted(P), want=sorted(line), picture=show(px, bits), **det)
        return
    # filled: the whole sector and nothing else
    if not set(P) >= line:
        ctx.fail(sig + '|outline pixel unpainted', missing=sorted(line - set(P)), **det)
        return
    bad = None
    for dx in range(-r - 1, r + 2):
        for dy in range(-r - 1, r + 2):
            rho = math.hypot(dx, dy)
            if rho < r - 1 and inside(dx, dy, -1.6) and ea > sa:
                if (dx, dy) not in P:
                    bad = ('sector pixel not filled', (dx, dy))
                    break
            if (dx, dy) in P and (rho > r + 1 or not full and not inside(dx, dy, 1.8 + 0.03 * r)):
                bad = ('pixel outside the sector filled', (dx, dy))
                break
    if bad:
        hull = set()
        for yy in {p[1] for p in line}:
            xs = [p[0] for p in line if p[1] == yy]
            hull |= {(x, yy) for x in range(min(xs), max(xs) + 1)}
        known = '|knownhull' if ea - sa > 180 and set(P) == hull else ''
        ctx.fail(sig + '|' + bad[0] + known, at=bad[1], picture=show(px, bits), **det)


_out = {}


def disc_outline(B, r):
    if r not in _out:
        from mc.core import mkimg
        w = 2 * r + 3
        buf = mkbuf(mkimg(w, w, 8, [[0] * w for _ in range(w)]))
        B.circle(buf, r + 1, r + 1, r, 1)
        px = decode_pixels(buf, w, w, 8)
        _out[r] = {(x - r - 1, y - r - 1) for y in range(w) for x in range(w) if px[y][x]}
    return _out[r]


# ---------------------------------------------------------------- axes and numbers

def same(ctx, sig, got, want, w, h, bits, **det):
    if got != want:
        if len(got) == len(want) and got[:HDR[bits]] == want[:HDR[bits]]:
            a, b = decode_pixels(want, w, h, bits), decode_pixels(got, w, h, bits)
            ctx.fail(sig, diff=grid_diff(a, b), **det)
        else:
            ctx.fail(sig + '|length or header', **det)


AXES = list(itertools.product(((30, 60), (12, 50), (40, 69)), ((10, 10), (17, 9), (3, 25), (40, 40)), ((80, 5), (85, 20), (50, 0))))
LABELS = (((0, 0), (1, 1)), ((-5, 100), (10, 25)), ((0.5, -2), (0.5, 1)), ((-1, 0.125), (0.0625, 0.125)))


def axis(ctx, B, bits, w=90, h=70, axes=AXES, labels=LABELS):
    from pythonbmp import fonts
    font = fonts.font8x14
    m = (1 << bits) - 1
    for (ox, oy), (sx, sy), (lx, ly) in axes:
        for (vx, vy), (ix, iy) in labels:
            for grid in (False, True):
                c, tc, gc = 9 & m, 7 & m, 4 & m
                buf = mkbuf(mkimg(w, h, bits, [[0] * w for _ in range(h)]))
                sig = 'XYaxis|b%d' % bits
                ok, res = call(ctx, sig, B.XYaxis, buf, (ox, oy), (sx, sy), (lx, ly), (vx, vy), (ix, iy), c, tc, grid, gc)
                ctx.trace()
                if not ok:
                    continue
                want = mkbuf(mkimg(w, h, bits, [[0] * w for _ in range(h)]))
                xt = list(range(ox, lx, sx))
                yt = list(range(oy, ly, -sy))
                if grid:
                    B.xygrid(want, ox, oy, lx, ly, (sx, sy), gc)
                B.drawvec(want, (ox, oy), (ox, ly), 10, c)
                B.drawvec(want, (ox, oy), (lx, oy), 10, c)
                for x in xt:
                    B.vertline(want, x, oy, oy + 3, c)
                for y in yt:
                    B.horiline(want, y, ox, ox - 3, c)
                for i, y in enumerate(yt):
                    s = str(vy + i * iy)
                    B.plotstring(want, ox - 15 - 8 * (len(s) - 1), y - 4, s, 1, 0, 0, tc, font)
                for i, x in enumerate(xt):
                    B.plotstring(want, x - 4, oy + 7, str(vx + i * ix), 1, 0, 0, tc, font)
                det = dict(origin=(ox, oy), steps=(sx, sy), limits=(lx, ly), starts=(vx, vy), increments=(ix, iy), grid=grid)
                same(ctx, sig, buf, want, w, h, bits, **det)
                ctx.state(bytes(buf))
                ends = (vx + (len(xt) - 1) * ix, vy + (len(yt) - 1) * iy)
                if tuple(map(tuple, res)) != ((ox, oy), (sx, sy), (lx, ly), (vx, vy), (ix, iy), ends):
                    ctx.fail('XYaxis|returned information', got=res, **det)
    ctx.sample('axes at (30,60) with steps (10,10)')


LISTS = ([], [(30, 10)], [(30, 10), (30, 20)], [(40, 5), (20, 15), (50, 25)], [(30, 10), (40, 20), (30, 10)], [(30, 10), (30, 10), (50, 30)])


def number(ctx, B, bits, w=70, h=40, lists=LISTS, seqs=((0, 1), (5, -3), (98, 4), (0.5, 0.25), (0.5, 0.125), (-1000, 0.0625), (999999, 250000)), adjs=((0, 0), (-4, 7)), scales=(1, 2)):
    from pythonbmp import fonts
    font = fonts.font8x8
    for vl in lists:
        for start, step in seqs:
            for sz, sl, rj in itertools.product((False, True), repeat=3):
                for xadj, yadj in adjs:
                    for scale in scales:
                        sig = 'numbervert|b%d' % bits
                        buf = mkbuf(mkimg(w, h, bits, [[0] * w for _ in range(h)]))
                        want = buf[:]
                        ok, _ = call(ctx, sig, B.numbervert, buf, vl, xadj, yadj, scale, start, step, 0, 1, 1, font, sz, sl, rj)
                        ctx.trace()
                        if not ok:
                            continue
                        for i, (x, y) in enumerate(vl):
                            if i == 0 and sz or i == len(vl) - 1 and sl:
                                continue
                            s = str(start + i * step)
                            B.plotstring(want, x + xadj - (8 * (len(s) - 1) if rj else 0), y + yadj, s, scale, 0, 1, 1, font)
                        same(ctx, sig, buf, want, w, h, bits, vertices=vl, start=start, step=step, flags=(sz, sl, rj), adjust=(xadj, yadj), scale=scale)
                        ctx.state(bytes(buf))


def coord(ctx, B):
    for (ox, oy), (sx, sy), (lx, ly) in itertools.product(((80, 570), (0, 100), (13, 37)), ((40, 40), (7, 11), (1, 1)), ((570, 18), (90, 5), (None, None))):
        if lx is None:
            # limits which points reach exactly
            lx, ly = ox + 4 * sx, oy - 5 * sy
        for (vx, vy), (ix, iy) in itertools.product(((0, 0), (-10, 25), (100, -3)), ((10, 10), (1, 4), (3, 7))):
            info = ((ox, oy), (sx, sy), (lx, ly), (vx, vy), (ix, iy), (0, 0))
            for a in range(-2, 18, 2):
                for b in range(-2, 18, 3):
                    x, y = Fraction(vx) + Fraction(a * ix, 2), Fraction(vy) + Fraction(b * iy, 2)
                    for cast in (float, int):
                        x1, y1 = cast(x), cast(y)
                        ok, r = call(ctx, 'userdef2Dcooordsys2screenxy', B.userdef2Dcooordsys2screenxy, x1, y1, info)
                        ctx.trace()
                        if not ok:
                            continue
                        wx = ox + (Fraction(x1) - vx) / ix * sx
                        wy = oy - (Fraction(y1) - vy) / iy * sy
                        exact = all(Fraction((v - v0) / i) == (Fraction(v) - v0) / i for v, v0, i in ((x1, vx, ix), (y1, vy, iy)))
                        if not exact and (abs(wx - lx) < Fraction(1, 10**6) or abs(wy - ly) < Fraction(1, 10**6)):
                            continue
                        want = [-1, -1] if wx > lx or wy < ly else [wx, wy]
                        if len(r) != 2 or any(abs(Fraction(p) - q) > Fraction(1, 10**6) for p, q in zip(r, want)):
                            ctx.fail('userdef2Dcooordsys2screenxy', at=(x1, y1), info=info, got=list(r), want=[float(v) for v in want])
            ctx.state(info)


# ---------------------------------------------------------------- scatter plots

def scatter(ctx, B, bits, n, quick, w=60, h=50, pts=None, infos=None, styles=None, every=1):
    m = (1 << bits) - 1
    pts = pts or [(0, 0), (10, 5), (20, 35), (5, 20), (30, 0), (15, 45), (45, 10), (2.5, 7.25), (12, 39), (31, 7)]
    styles = [(r, c & m or 1, f) for r, c, f in styles or ()] or [(1, 3 & m or 1, False), (3, 5 & m, True), (9, 6 & m or 1, False), (0, 1, True)]
    infos = infos or [((8, 44), (10, 10), (56, 4), (0, 0), (10, 10), (40, 30)), ((10, 40), (8, 6), (55, 2), (-10, -5), (10, 8), (30, 43))]
    k = 0
    combos = list(itertools.product(range(len(pts)), repeat=n))
    if n >= 4:
        combos = combos[::7]
    combos = combos[::every]
    for combo in combos:
        k += 1
        data = [list(pts[i]) + list(styles[(k + j) % len(styles)]) for j, i in enumerate(combo)]
        for reg, info in itertools.product((False, True), infos):
            xs = [Fraction(d[0]) for d in data]
            ys = [Fraction(d[1]) for d in data]
            if reg and len(set(xs)) < 2:
                continue
            sig = 'XYscatterplot|b%d' % bits
            buf = mkbuf(mkimg(w, h, bits, [[0] * w for _ in range(h)]))
            ok, _ = call(ctx, sig, B.XYscatterplot, buf, data, info, reg, 2 & m or 1)
            ctx.trace()
            if not ok:
                continue
            (ox, oy), (sx, sy), (lx, ly), (vx, vy), (ix, iy), (ex, ey) = info

            def mp(x, y):
                return ox + (x - vx) / ix * sx, oy - (y - vy) / iy * sy
            want = mkbuf(mkimg(w, h, bits, [[0] * w for _ in range(h)]))
            unsure = False
            for d, x, y in zip(data, xs, ys):
                a, b = mp(x, y)
                if a > lx or b < ly:
                    continue
                if (a - math.floor(a)) == Fraction(1, 2) or (b - math.floor(b)) == Fraction(1, 2):
                    unsure = True
                a, b = round(a), round(b)
                if d[2] > 1:
                    B.circle(want, a, b, min(d[2], 5), d[3], d[4])
                else:
                    B.plotxybit(want, a, b, d[3])
            if unsure:
                continue
            det = dict(data=data, info=info, regression=reg)
            if not reg:
                same(ctx, sig, buf, want, w, h, bits, **det)
                ctx.state(bytes(buf))
                continue
            # least squares line, exact
            N = len(data)
            ex_, ey_ = sum(xs), sum(ys)
            slope = (N * sum(a * b for a, b in zip(xs, ys)) - ex_ * ey_) / (N * sum(a * a for a in xs) - ex_ ** 2)
            icpt = ey_ / N - slope * ex_ / N
            p, q = (Fraction(vx), vx * slope + icpt), (Fraction(ex), ex * slope + icpt)

            def outside(s):
                a, b = mp(*s)
                return a > lx or b < ly
            if any(abs(v) < Fraction(1, 10**6) for s in (p, q) for v in (mp(*s)[0] - lx, mp(*s)[1] - ly)):
                continue
            if outside(q) and slope > 0:
                q = ((ey - icpt) / slope, Fraction(ey))
            if outside(p) and slope < 0:
                p = ((ey - icpt) / slope, Fraction(ey))
            if not outside(p) and not outside(q):
                a, b = mp(*p), mp(*q)
                cands = []
                for da, db in itertools.product((-1, 0, 1), repeat=2):
                    e = Fraction(1, 10**7)
                    t = want[:]
                    B.line(t, round(a[0]), round(a[1] + da * e), round(b[0]), round(b[1] + db * e), 2 & m or 1)
                    cands.append(t)
                if buf not in cands:
                    same(ctx, sig + '|regression', buf, cands[4], w, h, bits, **det)
            else:
                same(ctx, sig + '|regression', buf, want, w, h, bits, **det)
            ctx.state(bytes(buf))
    ctx.sample('scatter plot of %d points with regression line' % n)
