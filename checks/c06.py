"""Straight lines and everything made of them: exact end points, no gaps, nothing outside."""
from mc.core import *
from mc.gridop import *
from mc.draw import *
from mc.disc import *
import math

BOUNDS = {
    'quick': 'horizontal and vertical lines with every pair of ends from 3 pixels outside to 3 outside, every byte alignment, all depths; every pair of end '
             'points (2 pixels outside included) on images to 7x5 at all depths; every direction vector to 24 steps; rectangles, polygons and polylines over every '
             'vertex triple of a small grid; pens of radius 0-3; arrow heads in every direction; every grid step; long lines, polygons, rectangles, arrows, grids and pens of radius 7 and 11 far from the origin of a 307x289 image, and single lines of up to 5000 pixels, at every depth',
    'thorough': 'as quick with images to 10x8, vectors to 60 steps and denser vertex grids'}

WID = {1: [1, 2, 7, 8, 32, 9, 17, 33], 4: [1, 2, 3, 8, 5, 4, 9], 8: [1, 2, 4, 5], 24: [1, 2, 3, 4, 5]}
COLS = {1: [0, 1], 4: [0, 5, 15, 16, 255, 0x1b], 8: [0, 0xa5, 255, 256, 0x1b3], 24: [0, 0x123456, 0xffffff]}
# sizes whose rows carry no padding bytes
FLATS = {1: (32, 2), 4: (8, 3), 8: (8, 3), 24: (4, 3)}
LSIZE = [(1, 1), (2, 1), (1, 3), (3, 3), (7, 5)]


def units(tier):
    q = tier == 'quick'
    u = [('h', b, w) for b in DEPTHS for w in WID[b]] + [('v', b, w) for b in DEPTHS for w in WID[b][:5]]
    for b in DEPTHS:
        for w, h in LSIZE + ([] if q else [(10, 8), (9, 4)]):
            u.append(('line', b, w, h))
        u.append(('line', b, *FLATS[b]))
    n = 24 if q else 60
    u += [('iter', n, i, 4) for i in range(4)]
    u += [('fan', i) for i in range(4)]
    u += [('float',)]
    u += [('poly', b, i) for b in DEPTHS for i in range(4)]
    u += [('rect', b) for b in DEPTHS]
    u += [('thick', b, r) for b in DEPTHS for r in (0, 1, 2, 3)]
    u += [('vec', i) for i in range(4)] + [('vecdraw', b) for b in DEPTHS]
    u += [('grid', b) for b in DEPTHS]
    u += [('par', i) for i in range(3)]
    u += [('verts',)] + [('large', b, i) for b in DEPTHS for i in range(3)]
    return u


def do(ctx, sig, case, fn, args, want, known=None):
    buf = apply_inplace(ctx, sig, case, fn, args, want, known=known)
    if buf is not None and pad_bits(buf, case.img.w, case.img.h, case.img.bits).strip(b'\0'):
        ctx.fail(sig + '|padding', args=args)
    return buf


_line = {}


def line_set(ctx, B, w, h, p, q):
    """Pixels of line p-q on a w x h image, from a blank 24-bit drawing whose shape is verified."""
    k = (w, h, p, q)
    if k in _line:
        return _line[k]
    c1 = (clamp(p[0], 0, w - 1), clamp(p[1], 0, h - 1))
    c2 = (clamp(q[0], 0, w - 1), clamp(q[1], 0, h - 1))
    sig = 'line|shape'
    s = drawn(ctx, sig, B.line, w, h, (*p, *q, 0xffffff))
    if s is not None:
        why = line_ok(s, c1, c2)
        if why:
            ctx.fail(sig, p=p, q=q, size=(w, h), why=why, got=show_set(s, w, h))
            s = None
    _line[k] = s
    return s


def poly_model(ctx, B, w, h, segs, px, c, bits):
    """Union of segments; for 4 bits also the grid the recorded horizontal line defect gives."""
    s = set()
    for p, q in segs:
        t = line_set(ctx, B, w, h, p, q)
        if t is None:
            return None, None
        s |= t
    want = paint(px, s, c, bits)
    kn = None
    if bits == 4:
        g = [r[:] for r in px]
        for p, q in segs:
            y1, y2 = clamp(p[1], 0, h - 1), clamp(q[1], 0, h - 1)
            x1, x2 = clamp(p[0], 0, w - 1), clamp(q[0], 0, w - 1)
            if y1 == y2 and x1 != x2:
                row4(g, y1, x1, x2, c)
            else:
                g = paint(g, line_set(ctx, B, w, h, p, q), c, 4)
        kn = {'|known4bit': g}
    return want, kn


def run_unit(unit, ctx, tier):
    B = bind()
    from pythonbmp import primitives2D as P
    kind = unit[0]
    if kind == 'h':
        _, bits, w = unit
        h = 3
        for k in (0, 1):
            img = mkimg(w, h, bits, k=k)
            c = Case(img)
            for col in COLS[bits]:
                for y in list(range(-2, h + 2)) + [-40, -7, 30, 500]:
                    for x1 in list(range(-3, w + 3)) + [-60, -25, w + 25, w + 800] if w < 12 else [-900, -40, -2, 0, 1, 3, 7, 8, 9, 14, 15, 16, 17, 20, 31, 32, 33, 35]:
                        for x2 in list(range(-3, w + 3)) + ([-999, -50, -20, w + 20, w + 60, 999] if col == COLS[bits][-1] else []):
                            want = paint(img.px, hline(y, x1, x2), col, bits)
                            kn = None
                            if bits == 4:
                                g = [r[:] for r in img.px]
                                row4(g, y, x1, x2, col)
                                kn = {'|known4bit': g}
                            do(ctx, 'horiline|b%d' % bits, c, B.horiline, (y, x1, x2, col), want, kn)
                            ctx.trace()
            ctx.state((unit, k))
    elif kind == 'large':
        _, bits, part = unit
        w, h = 307, 289
        img = mkimg(w, h, bits, k=1)
        c = Case(img)
        col = COLS[bits][1]
        P_ = [(290, 271), (301, 13), (9, 283), (150, 140), (306, 288), (77, 260), (263, 100), (340, 150), (200, -30), (256, 257)]
        if part == 0:
            for p, q in itertools.product(P_, repeat=2):
                want, kn = poly_model(ctx, B, w, h, [(p, q)], img.px, col, bits)
                if want is not None:
                    do(ctx, 'line|b%d' % bits, c, B.line, (*p, *q, col), want, kn)
                x1, x2, y = p[0], q[0], q[1]
                g = [r[:] for r in img.px]
                row4(g, y, x1, x2, col)
                do(ctx, 'horiline|b%d' % bits, c, B.horiline, (y, x1, x2, col), paint(img.px, hline(y, x1, x2), col, bits), {'|known4bit': g} if bits == 4 else None)
                do(ctx, 'vertline|b%d' % bits, c, B.vertline, (p[0], p[1], q[1], col), paint(img.px, vline(p[0], p[1], q[1]), col, bits))
                ctx.trace(3)
                ctx.state((bits, p, q))
            long_ = mkimg(5000, 2, bits, k=1)
            cl = Case(long_)
            for x1, x2 in ((0, 4999), (4990, 3), (17, 4123), (-4, 6000), (800, 2900)):
                g = [r[:] for r in long_.px]
                row4(g, 1, x1, x2, col)
                do(ctx, 'horiline|b%d' % bits, cl, B.horiline, (1, x1, x2, col), paint(long_.px, hline(1, x1, x2), col, bits), {'|known4bit': g} if bits == 4 else None)
                ctx.trace()
                ctx.state((bits, 'long', x1, x2))
            tall = mkimg(2, 5000, bits, k=1)
            ct = Case(tall)
            for y1, y2 in ((0, 4999), (4990, 3), (17, 4123), (-4, 6000), (800, 2900)):
                do(ctx, 'vertline|b%d' % bits, ct, B.vertline, (1, y1, y2, col), paint(tall.px, vline(1, y1, y2), col, bits))
                ctx.trace()
                ctx.state((bits, 'tall', y1, y2))
        elif part == 1:
            for i in range(len(P_)):
                vs = (P_ + P_)[i:i + 3 + 2 * (i % 4)]
                want, kn = poly_model(ctx, B, w, h, list(zip(vs, vs[1:])), img.px, col, bits)
                if want is not None:
                    do(ctx, 'plotlines|b%d' % bits, c, B.plotlines, (vs, col), want, kn)
                want, kn = poly_model(ctx, B, w, h, list(zip(vs, vs[1:])) + [(vs[0], vs[-1])], img.px, col, bits)
                if want is not None:
                    do(ctx, 'plotpoly|b%d' % bits, c, B.plotpoly, (vs, col), want, kn)
                (x1, y1), (x2, y2) = P_[i], P_[(i + 3) % len(P_)]
                X1, X2, Y1, Y2 = clamp(x1, 0, w - 1), clamp(x2, 0, w - 1), clamp(y1, 0, h - 1), clamp(y2, 0, h - 1)
                kn = poly_model(ctx, B, w, h, [((x1, y1), (x2, y1)), ((x2, y1), (x2, y2)), ((x2, y2), (x1, y2)), ((x1, y1), (x1, y2))], img.px, col, 4)[1] if bits == 4 else None
                do(ctx, 'rectangle|b%d' % bits, c, B.rectangle, (x1, y1, x2, y2, col), paint(img.px, hline(Y1, X1, X2) | hline(Y2, X1, X2) | vline(X1, Y1, Y2) | vline(X2, Y1, Y2), col, bits), kn)
                for head in (0, 25):
                    ok, segs = call(ctx, 'iterdrawvec', lambda: [tuple((round(e[0]), round(e[1])) for e in sg) for sg in P.iterdrawvec(P_[i], P_[(i + 3) % len(P_)], head)])
                    if ok:
                        want, kn = poly_model(ctx, B, w, h, segs, img.px, col, bits)
                        if want is not None:
                            do(ctx, 'drawvec|b%d' % bits, c, B.drawvec, (P_[i], P_[(i + 3) % len(P_)], head, col), want, kn)
                ctx.trace(5)
                ctx.state((bits, i))
        else:
            for (x1, y1, x2, y2), (sx, sy) in itertools.product([(0, 0, w - 1, h - 1), (263, 201, 300, 288), (290, 280, 13, 258)], [(7, 13), (25, 1), (1, 40)]):
                a1, b1, a2, b2 = norm(x1, y1, x2, y2)
                s = set().union(*(vline(x, b1, b2) for x in range(a1, a2, sx)))
                g = paint(img.px, s, col, bits)
                for y in range(b1, b2, sy):
                    s |= hline(y, a1, a2)
                    row4(g, y, a1, a2, col)
                do(ctx, 'xygrid|b%d' % bits, c, B.xygrid, (x1, y1, x2, y2, (sx, sy), col), paint(img.px, s, col, bits), {'|known4bit': g} if bits == 4 else None)
                ctx.trace()
                ctx.state((bits, x1, y1, sx, sy))
            for r in (4, 7, 11):
                for a, b in (((290, 271), (263, 100)), ((256, 257), (301, 13)), ((280, 280), (280, 280))):
                    l = [tuple(v) for v in P.iterline(a, b)]
                    why = line_ok(set(l), a, b)
                    if why:
                        ctx.fail('iterline', p=a, q=b, why=why)
                        continue
                    s = set()
                    for p in l:
                        s |= filldisc(p[0], p[1], r)
                    kn = {'|known4bit': rows4(img.px, [(p[1] + t * d, p[0] - rowhalf(r)[d], p[0] + rowhalf(r)[d]) for p in l for d, t in disc_order(r)], col)} if bits == 4 else None
                    for nm, args in (('thickroundline', (a, b, r, col)), ('plotlines', ([a, b], col, r))):
                        do(ctx, '%s|b%d' % (nm, bits), c, getattr(B, nm), args, paint(img.px, s, col, bits), kn)
                    do(ctx, 'roundpen|b%d' % bits, c, B.roundpen, (a, r, col), paint(img.px, filldisc(*a, r), col, bits),
                       {'|known4bit': rows4(img.px, [(a[1] + t * d, a[0] - rowhalf(r)[d], a[0] + rowhalf(r)[d]) for d, t in disc_order(r)], col)} if bits == 4 else None)
                    ctx.trace(3)
                    ctx.state((bits, r, a, b))
    elif kind == 'v':
        _, bits, w = unit
        for h in (1, 4):
            img = mkimg(w, h, bits)
            c = Case(img)
            for col in COLS[bits]:
                for x in list(range(-2, w + 2)) + [-60, 45] if w < 12 else (-300, -1, 0, 1, 7, 8, 9, 15, 16, 17, 30, 31, 32):
                    far = [-700, -30, h + 30, h + 600]
                    for y1 in list(range(-3, h + 3)) + far:
                        for y2 in list(range(-3, h + 3)) + far:
                            do(ctx, 'vertline|b%d' % bits, c, B.vertline, (x, y1, y2, col), paint(img.px, vline(x, y1, y2), col, bits))
                            ctx.trace()
            ctx.state((unit, h))
    elif kind == 'line':
        _, bits, w, h = unit
        img = mkimg(w, h, bits)
        c = Case(img)
        col = COLS[bits][1]
        pts = [(x, y) for x in range(-2, w + 2) for y in range(-2, h + 2)] + [(-50, 1), (w + 70, -33), (1, h + 400), (-600, -600)]
        if w * h > 40:
            pts = [(x, y) for x in (range(-1, w + 1) if w < 32 else (-1, 0, 1, 15, 24, 30, 31, 32)) for y in range(-1, h + 1)]
        for p in pts:
            for q in pts:
                want, kn = poly_model(ctx, B, w, h, [(p, q)], img.px, col, bits)
                if want is None:
                    continue
                for cc in COLS[bits] if (p[0] + q[1]) % 3 == 0 else (col,):
                    want, kn = poly_model(ctx, B, w, h, [(p, q)], img.px, cc, bits)
                    do(ctx, 'line|b%d' % bits, c, B.line, (*p, *q, cc), want, kn)
                ctx.trace()
                ctx.state((bits, w, h, p, q))
    elif kind == 'iter':
        _, n, i, m = unit
        for dx in range(-n, n + 1):
            if dx % m != i:
                continue
            for dy in range(-n, n + 1):
                for ox, oy in ((0, 0), (-7, 11)):
                    p, q = (ox, oy), (ox + dx, oy + dy)
                    ok, l = call(ctx, 'iterline', lambda: [tuple(v) for v in P.iterline(p, q)])
                    if not ok:
                        continue
                    why = line_ok(set(l), p, q)
                    if not why and (l[0] != p or l[-1] != q):
                        why = 'order: starts %s ends %s' % (l[0], l[-1])
                    if not why and any(max(abs(a[0] - b[0]), abs(a[1] - b[1])) > 1 for a, b in zip(l, l[1:])):
                        why = 'a step of more than one pixel'
                    if why:
                        ctx.fail('iterline', p=p, q=q, why=why, got=l[:60])
                    ok, m2 = call(ctx, 'lineseg', P.lineseg, p, q)
                    if ok and [tuple(v) for v in m2] != l:
                        ctx.fail('lineseg', p=p, q=q)
                    ctx.trace()
                ctx.state((dx, dy))
    elif kind == 'fan':
        w = h = 41
        p = [(20, 20), (0, 0), (40, 3), (13, 40)][unit[1]]
        for x in range(w):
            for y in range(h):
                if (x + y) % 3 == 0 or x in (0, 40) or y in (0, 40):
                    line_set(ctx, B, w, h, p, (x, y))
                    ctx.trace()
                    ctx.state((p, x, y))
        _line.clear()
    elif kind == 'float':
        # linevec rounds to the nearest pixel
        w, h = 9, 8
        vals = [0, 0.4, 1.6, 3.2, 6.9, 7.4, -1.3]
        for a in vals:
            for b in vals:
                for c in vals:
                    for d in vals:
                        p, q = (round(a), round(b)), (round(c), round(d))
                        want = line_set(ctx, B, w, h, p, q)
                        for mk in (tuple, list):
                            s = drawn(ctx, 'linevec', B.linevec, w, h, (mk((a, b)), mk((c, d)), 0xffffff))
                            if s is not None and s != want:
                                ctx.fail('linevec', a=(a, b), b=(c, d), expected=show_set(want, w, h), got=show_set(s, w, h))
                        s = drawn(ctx, 'intlinevec', B.intlinevec, w, h, (p, q, 0xffffff))
                        if s is not None and s != want:
                            ctx.fail('intlinevec', p=p, q=q)
                        ctx.trace()
                ctx.state((a, b))
    elif kind == 'poly':
        _, bits, i = unit
        w, h = 7 if i % 2 else {1: 32, 4: 8, 8: 8, 24: 8}[bits], 6
        img = mkimg(w, h, bits)
        c = Case(img)
        col = COLS[bits][1]
        V = [(-1, -1), (0, 0), (w - 1, 0), (3, 2), (1, 5), (w - 1, 5), (5, 3), (w + 1, 2), (2, 7)]
        for a in V[i::4]:
            for b in V:
                for d in V:
                    vs = [a, b, d]
                    cases = [('plotlines', (vs, col), [(a, b), (b, d)]),
                             ('plotpoly', (vs, col), [(a, b), (b, d), (a, d)]),
                             ('plotpolylist', ([[a, b], [b, d]], col), [(a, b), (b, d)])]
                    if i == 0:
                        cases.append(('plotlines', (vs[:1], col), []))
                    for nm, args, segs in cases:
                        want, kn = poly_model(ctx, B, w, h, segs, img.px, col, bits)
                        if want is not None:
                            do(ctx, '%s|b%d' % (nm, bits), c, getattr(B, nm), args, want, kn)
                    # the order of the vertices of a closed outline does not matter for which edges are drawn
                    ctx.trace()
                    ctx.state((bits, a, b, d))
    elif kind == 'rect':
        bits = unit[1]
        for w, h in ((1, 1), (2, 3), (6, 5), (9, 4), FLATS[bits]):
            img = mkimg(w, h, bits)
            c = Case(img)
            col = COLS[bits][-1]
            xs = range(-1, w + 1) if w < 32 else (-1, 0, 7, 15, 24, 30, 31, 32)
            for x1 in xs:
                for x2 in xs:
                    for y1 in range(-1, h + 1):
                        for y2 in range(-1, h + 1):
                            a, b, d, e = (x1, y1), (x2, y1), (x2, y2), (x1, y2)
                            # the four sides, each end clamped to the image
                            X1, X2, Y1, Y2 = clamp(x1, 0, w - 1), clamp(x2, 0, w - 1), clamp(y1, 0, h - 1), clamp(y2, 0, h - 1)
                            s = hline(Y1, X1, X2) | hline(Y2, X1, X2) | vline(X1, Y1, Y2) | vline(X2, Y1, Y2)
                            want = paint(img.px, s, col, bits)
                            kn = None
                            if bits == 4:
                                kn = poly_model(ctx, B, w, h, [(a, b), (b, d), (d, e), (a, e)], img.px, col, 4)[1]
                            do(ctx, 'rectangle|b%d' % bits, c, B.rectangle, (x1, y1, x2, y2, col), want, kn)
                            ctx.trace()
            ctx.state((bits, w, h))
    elif kind == 'thick':
        _, bits, r = unit
        w, h = {1: 32, 4: 16, 8: 12, 24: 12}[bits] if r in (1, 2) else 11, 9
        img = mkimg(w, h, bits)
        c = Case(img)
        col = COLS[bits][1]
        V = [(-2, 1), (0, 0), (w - 1, 0), (5, 4), (2, 8), (9, 8), (7, -3)]
        rows4m = lambda pts: [(p[1] + s * d, p[0] - rowhalf(r)[d], p[0] + rowhalf(r)[d]) for p in pts for d, s in disc_order(r)]
        for a in V:
            for b in V:
                l = [tuple(v) for v in P.iterline(a, b)]
                if line_ok(set(l), a, b):
                    ctx.fail('iterline', p=a, q=b)
                    continue
                jobs = [('thickroundline', (a, b, r, col), l)]
                if r >= 2:
                    jobs.append(('plotlines', ([a, b], col, r), l))
                jobs.append(('thickplotpoly', ([a, b], r, col), l + l[::-1]))
                for nm, args, pts in jobs:
                    s = set()
                    for p in set(pts):
                        s |= filldisc(p[0], p[1], r)
                    want = paint(img.px, s, col, bits)
                    kn = None
                    if bits == 4:
                        kn = {'|known4bit': rows4(img.px, rows4m(pts), col)}
                    do(ctx, '%s|b%d' % (nm, bits), c, getattr(B, nm), args, want, kn)
                ctx.trace()
                ctx.state((bits, r, a, b))
        for a in V:
            s = filldisc(a[0], a[1], r) if r > 1 else {a}
            want = paint(img.px, s, col, bits)
            kn = {'|known4bit': rows4(img.px, rows4m([a]), col)} if bits == 4 and r > 1 else None
            do(ctx, 'roundpen|b%d' % bits, c, B.roundpen, (a, r, col), want, kn)
            do(ctx, 'plotxypointlist|b%d' % bits, c, B.plotxypointlist, ([a, a], r, col), want, kn)
        if r == 0:
            # rounding and integer point plots
            for v in [(0.4, 0.6), (3.7, 2.2), (10.4, 8.4), (10.6, 3), (-0.6, 2), (5.0, 4)]:
                p = (round(v[0]), round(v[1]))
                do(ctx, 'plotvecxypoint|b%d' % bits, c, B.plotvecxypoint, (v, col), paint(img.px, {p}, col, bits))
                do(ctx, 'intplotvecxypoint|b%d' % bits, c, B.intplotvecxypoint, (p, col), paint(img.px, {p}, col, bits))
    elif kind == 'vec':
        for dx in range(-20, 21):
            if dx % 4 != unit[1]:
                continue
            for dy in range(-20, 21):
                if dx == dy == 0:
                    continue
                for head in (0, 12, 40):
                    u, v = (50, 60), (50 + dx, 60 + dy)
                    ok, segs = call(ctx, 'iterdrawvec', lambda: list(P.iterdrawvec(u, v, head)))
                    if not ok:
                        continue
                    length = head or math.hypot(dx, dy) / 5
                    back = math.atan2(-dy, -dx)
                    why = None
                    if len(segs) != 3 or tuple(segs[0][0]) != u or tuple(segs[0][1]) != v:
                        why = 'shaft'
                    else:
                        ts = sorted((math.pi / 8, -math.pi / 8))
                        got = []
                        for a, b in segs[1:]:
                            if tuple(a) != v:
                                why = 'head does not start at the tip'
                            ex = [(v[0] + length * math.cos(back + t), v[1] + length * math.sin(back + t)) for t in ts]
                            m = [i for i, e in enumerate(ex) if abs(e[0] - b[0]) <= 0.51 and abs(e[1] - b[1]) <= 0.51]
                            got += [m]
                        if not why and not (0 in got[0] and 1 in got[1] or 1 in got[0] and 0 in got[1]):
                            why = 'head strokes'
                    if why:
                        ctx.fail('iterdrawvec', u=u, v=v, head=head, why=why, got=segs)
                    ctx.trace()
                    ctx.state((dx, dy, head))
    elif kind == 'vecdraw':
        bits = unit[1]
        w, h = {1: 32, 4: 16, 8: 16, 24: 16}[bits], 13
        img = mkimg(w, h, bits)
        c = Case(img)
        col = COLS[bits][1]
        pts = [(x, y) for x in (-2, 0, 5, 9, w - 1, w + 1) for y in (-1, 0, 6, 12, 14)]
        for u in pts:
            for v in pts:
                for head in (0, 4):
                    ok, segs = call(ctx, 'iterdrawvec', lambda: [(tuple(a), tuple(b)) for a, b in P.iterdrawvec(u, v, head)])
                    if not ok:
                        continue
                    segs = [((round(a[0]), round(a[1])), (round(b[0]), round(b[1]))) for a, b in segs]
                    want, kn = poly_model(ctx, B, w, h, segs, img.px, col, bits)
                    if want is not None:
                        do(ctx, 'drawvec|b%d' % bits, c, B.drawvec, (u, v, head, col), want, kn)
                    if bits == 24 and head:
                        s = set()
                        for a, b in segs:
                            for p in P.iterline(a, b):
                                s |= filldisc(p[0], p[1], 2)
                        do(ctx, 'drawvec|pen', c, B.drawvec, (u, v, head, col, 2), paint(img.px, s, col, bits))
                    ctx.trace()
                    ctx.state((bits, u, v, head))
    elif kind == 'grid':
        bits = unit[1]
        col = COLS[bits][1]
        for w, h in ((1, 1), (7, 5), (9, 8), FLATS[bits]):
            img = mkimg(w, h, bits)
            c = Case(img)
            for x1, y1, x2, y2 in [(0, 0, w - 1, h - 1), (w - 1, h - 1, 0, 0), (1, 1, w - 1, h - 2), (0, h - 1, w - 1, 0), (2, 1, 4, 3),
                                   (-1, 0, w - 1, h - 1), (0, 0, w, h - 1), (0, 0, w - 1, h), (0, -1, 0, 0)]:
                for sx in (1, 2, 3, 5, 20):
                    for sy in (1, 2, 3, 20):
                        inside = all(0 <= x < w for x in (x1, x2)) and all(0 <= y < h for y in (y1, y2))
                        a1, b1, a2, b2 = norm(x1, y1, x2, y2)
                        s = set()
                        g = [r[:] for r in img.px]
                        if inside:
                            for x in range(a1, a2, sx):
                                s |= vline(x, b1, b2)
                            g = paint(g, s, col, bits)
                            for y in range(b1, b2, sy):
                                s |= hline(y, a1, a2)
                                row4(g, y, a1, a2, col)
                        kn = {'|known4bit': g} if bits == 4 else None
                        want = paint(img.px, s, col, bits)
                        do(ctx, 'xygrid|b%d' % bits, c, B.xygrid, (x1, y1, x2, y2, (sx, sy), col), want, kn)
                        do(ctx, 'xygridvec|b%d' % bits, c, B.xygridvec, ((x1, y1), (x2, y2), (sx, sy), col), want, kn)
                        ctx.trace()
            for ln in (-3, 0, 3):
                for adj in (-2, 0, 1):
                    vl = [(0, 0), (w - 1, h - 1), (2, 1)]
                    s, g = set(), [r[:] for r in img.px]
                    for x, y in vl:
                        s |= vline(x, y, y + ln + adj)
                    do(ctx, 'vertlinevert|b%d' % bits, c, B.vertlinevert, (vl, ln, adj, col), paint(img.px, s, col, bits))
                    s = set()
                    for x, y in vl:
                        s |= hline(y, x, x + ln + adj)
                        row4(g, y, x, x + ln + adj, col)
                    do(ctx, 'horilinevert|b%d' % bits, c, B.horilinevert, (vl, ln, adj, col), paint(img.px, s, col, bits), {'|known4bit': g} if bits == 4 else None)
            ctx.state((bits, w, h))
    elif kind == 'par':
        w, h = 14, 12
        V = [(1, 1), (6, 0), (12, 2), (3, 9), (9, 7), (5, 5), (0, 11)]
        for a in V[unit[1]::3]:
            for b in V:
                for d in V:
                    e = (d[0] + b[0] - a[0], d[1] + b[1] - a[1])
                    s = drawn(ctx, 'filledparallelogram', B.filledparallelogram, w, h, (a, b, d, 0xffffff))
                    if s is None:
                        continue
                    ctx.trace()
                    ctx.state((a, b, d))
                    if not (0 <= e[0] < w and 0 <= e[1] < h):
                        continue
                    need = line_set(ctx, B, w, h, a, b) | line_set(ctx, B, w, h, d, e)
                    far = [p for p in s if outside(p, (a, b, e, d))]
                    edges = set(map(tuple, P.iterline(a, d))) | set(map(tuple, P.iterline(b, e)))
                    if not need <= s or not edges <= s or far:
                        ctx.fail('filledparallelogram', a=a, b=b, c=d, missing=sorted((need | edges) - s)[:8], outside=far[:8], got=show_set(s, w, h))
                    # every pixel well inside is painted
                    if a != b and abs(cross(a, b, d)) > 0:
                        hole = [(x, y) for x in range(w) for y in range(h) if (x, y) not in s and deep((x, y), (a, b, e, d))]
                        if len(hole) > len(s) // 4:
                            ctx.fail('filledparallelogram|holes', a=a, b=b, c=d, holes=hole[:10], got=show_set(s, w, h))
    elif kind == 'verts':
        for a in range(-2, 9):
            for b in range(-2, 12):
                for st in (1, 2, 3, -1, -2):
                    ok, r = call(ctx, 'horizontalvert', P.horizontalvert, 5, a, b, st)
                    if ok and [tuple(v) for v in r] != [(x, 5) for x in range(a, b, st)]:
                        ctx.fail('horizontalvert', a=a, b=b, st=st, got=r)
                    ok, r = call(ctx, 'verticalvert', P.verticalvert, 5, a, b, st)
                    if ok and [tuple(v) for v in r] != [(5, x) for x in range(a, b, st)]:
                        ctx.fail('verticalvert', a=a, b=b, st=st, got=r)
                    ctx.trace()
                for p in ((3, 4), (-2, 7), (a, a)):
                    ok, r = call(ctx, 'recvert', P.recvert, a, b, *p)
                    if ok and [tuple(v) for v in r] != [(a, b), (p[0], b), p, (a, p[1])]:
                        ctx.fail('recvert', a=a, b=b, p=p, got=r)
                    ok, r = call(ctx, 'sortrecpoints', P.sortrecpoints, a, b, *p)
                    if ok and tuple(r) != norm(a, b, *p):
                        ctx.fail('sortrecpoints', a=a, b=b, p=p, got=r)
                    ok, r = call(ctx, 'rectboundarycoords', P.rectboundarycoords, [(a, b), p, (1, 1)])
                    xs, ys = (a, p[0], 1), (b, p[1], 1)
                    if ok and [tuple(v) for v in r] != [(min(xs), min(ys)), (max(xs), max(ys))]:
                        ctx.fail('rectboundarycoords', a=a, b=b, p=p, got=r)
                    ctx.trace()
                ctx.state((a, b))


def disc_order(r):
    return [(d, s) for d in range(r + 1) for s in (1, -1)]


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def dist_seg(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    l = dx * dx + dy * dy
    t = 0 if l == 0 else clamp(((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l, 0, 1)
    return math.hypot(a[0] + t * dx - p[0], a[1] + t * dy - p[1])


def inside_q(p, q):
    s = [cross(q[i], q[(i + 1) % 4], p) for i in range(4)]
    return all(v >= 0 for v in s) or all(v <= 0 for v in s)


def outside(p, q):
    return not inside_q(p, q) and min(dist_seg(p, q[i], q[(i + 1) % 4]) for i in range(4)) > 1.5


def deep(p, q):
    return inside_q(p, q) and min(dist_seg(p, q[i], q[(i + 1) % 4]) for i in range(4)) > 1
