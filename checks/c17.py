"""Scanning an image: pixel iterators, neighbours, edges, colour regions, swapping pixels, boundary tests."""
import contextlib, io, itertools, os, shutil, tempfile
from pathlib import Path
from mc.core import *
from mc.gridop import *
from mc.disc import *
from mc.draw import filldisc, paint

BOUNDS = {
    'quick': 'pixel iterators on every size 1..34 x 1..3 at every depth and all contents of tiny images; neighbours of every pixel (and of points outside) of every grid up to 6x6; '
             'edge and region search on all 512 contents of 3x3 1-bit, all 256 2x2 four-colour and all 3x2 three-colour images for a threshold ladder at every depth; '
             'swaps of every pixel pair of small images; all of these on pictures to 1043 columns or 530 rows and to 91x84 with pens to 19; boundary predicates for every point and limit of a small range',
    'thorough': 'as quick with sizes to 70 x 6, grids to 9x9, 3x3 three-colour images'}


def units(tier):
    q = tier == 'quick'
    u = [('iter', b, h) for b in DEPTHS for h in ((1, 2, 3) if q else (1, 2, 3, 4, 6))]
    u += [('tiny',), ('neigh', 0), ('neigh', 1), ('bound', 0), ('bound', 1)]
    u += [('edge1', i) for i in range(4)] + [('edge', b, i) for b in DEPTHS for i in range(3)]
    u += [('large', b) for b in DEPTHS] + [('swap', b) for b in DEPTHS] + [('plot', b) for b in DEPTHS] + [('color', b) for b in DEPTHS]
    return u


def check_iter(ctx, B, img):
    buf = mkbuf(img)
    before = bytes(buf)
    sig = 'b%d' % img.bits
    cells = [((x, y), img.px[y][x]) for y in range(img.h) for x in range(img.w)]
    for nm, conv in (('iterimagecolor', lambda x, y, c: c), ('iterimageRGB', lambda x, y, c: img.rgb(x, y))):
        for msgs in (('', '', ''), ('w', '*', 'd')):
            with contextlib.redirect_stdout(io.StringIO()) as out:
                ok, got = call(ctx, nm + '|' + sig, lambda *a: list(getattr(B, nm)(*a)), buf, *msgs)
            ctx.trace()
            if not ok:
                continue
            # what is shown meanwhile: the message at the start, the sign once a row, the message at the end
            if out.getvalue().split() != [t for t in (msgs[0], msgs[1] * img.h, msgs[2]) if t]:
                ctx.fail(nm + '|progress', size=(img.w, img.h, img.bits), messages=msgs, got=out.getvalue()[:80])
            norm_ = [((v[0][0], v[0][1]), v[1] if nm == 'iterimagecolor' else tuple(v[1])) for v in got]
            want = {p: conv(p[0], p[1], c) for p, c in cells}
            if len(norm_) != len(want) or dict(norm_) != want:
                seen = dict(norm_)
                ctx.fail(nm + '|' + sig, size=(img.w, img.h), count=len(norm_), wrong=[(p, want.get(p), seen.get(p)) for p in set(want) | set(seen) if want.get(p) != seen.get(p)][:5])
    if bytes(buf) != before:
        ctx.fail('iterators|changed the image', size=(img.w, img.h, img.bits))
    ctx.state(before)


def nb(p, w, h):
    return {(p[0] + i, p[1] + j) for i in (-1, 0, 1) for j in (-1, 0, 1) if (i or j) and 0 <= p[0] + i < w and 0 <= p[1] + j < h}


def check_edges(ctx, B, img, thrs):
    buf = mkbuf(img)
    w, h = img.w, img.h
    rgb = {(x, y): img.rgb(x, y) for y in range(h) for x in range(w)}

    def d2(a, b):
        return sum((p - q) ** 2 for p, q in zip(a, b))
    for thr in thrs:
        differ = {p: {u for u in nb(p, w, h) if d2(rgb[p], rgb[u]) > thr * thr} for p in rgb}
        sig = 'edges|b%d' % img.bits
        ok, got = call(ctx, sig, B.getimagedgevert, buf, thr)
        ctx.trace()
        if ok:
            e = {tuple(v) for v in got}
            wrong = [p for p in e if p not in rgb or not differ[p]]
            missed = [p for p in differ if differ[p] and not differ[p] & e]
            if wrong or missed:
                ctx.fail(sig, thr=thr, px=img.px, not_an_edge=wrong[:6], missed=missed[:6])
        cols = {rgb[p] for p in rgb} | {(0, 0, 0), (255, 255, 255), (10, 20, 30)}
        for c in sorted(cols)[:5]:
            for mk in (tuple, list):
                ok, got = call(ctx, 'region|b%d' % img.bits, B.getimageregionbyRGB, buf, mk(c), thr)
                ctx.trace()
                if ok:
                    want = sorted(p for p in rgb if d2(rgb[p], c) < thr * thr)
                    if sorted(tuple(v) for v in got) != want:
                        ctx.fail('region|b%d' % img.bits, thr=thr, rgb=c, px=img.px, got=got, want=want)
    ctx.state(img.key())


def run_unit(unit, ctx, tier):
    d = tempfile.mkdtemp(prefix='c17')
    try:
        go(unit, ctx, tier, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def go(unit, ctx, tier, d):
    B = bind()
    from pythonbmp import primitives2D as P
    q = tier == 'quick'
    kind = unit[0]
    if kind == 'iter':
        _, bits, h = unit
        for w in range(1, 35 if q else 71):
            for k in (0, 2):
                img = mkimg(w, h, bits, k=k)
                if bits < 24:
                    img.pal = [((i * 37 + k) & 255, (i * 91 + 5) & 255, (255 - i) & 255, 0) for i in range(1 << bits)]
                check_iter(ctx, B, img)
        ctx.sample('iterators over widths 1..34, height %d, %d bits' % (h, bits))
    elif kind == 'tiny':
        for v in range(512):
            check_iter(ctx, B, mkimg(3, 3, 1, [[v >> (3 * y + x) & 1 for x in range(3)] for y in range(3)]))
        for v in range(256):
            check_iter(ctx, B, mkimg(2, 1, 4, [[v >> 4, v & 15]]))
            check_iter(ctx, B, mkimg(1, 2, 8, [[v], [255 - v]]))
            check_iter(ctx, B, mkimg(1, 1, 24, [[v << 16 | (255 - v) << 8 | 7]]))
    elif kind == 'neigh':
        n = 6 if q else 9
        for w in range(1, n + 1):
            for h in range(1, n + 1):
                for x in range(w):
                    for y in range(h):
                        for mk in (tuple, list):
                            ok, got = call(ctx, 'neighbours', P.getneighborlist, mk((x, y)), w, h, bool(unit[1]))
                            ctx.trace()
                            if ok:
                                want = sorted(nb((x, y), w, h) | ({(x, y)} if unit[1] else set()))
                                if sorted(tuple(v) for v in got) != want:
                                    ctx.fail('neighbours|%s' % ('center' if unit[1] else 'no center'), at=(x, y), size=(w, h), got=got, want=want)
                        ctx.state((w, h, x, y))
        ctx.sample('every pixel of every grid up to %dx%d' % (n, n))
    elif kind == 'bound':
        rng = range(-1, 4)
        if unit[1] == 0:
            for lo, hi in itertools.product(rng, repeat=2):
                for lo2, hi2 in ((0, 3), (-1, 2), (1, 1)):
                    for x, y in itertools.product(rng, repeat=2):
                        want = lo < x < hi and lo2 < y < hi2
                        ok, v = call(ctx, 'isinrectbnd', P.isinrectbnd, x, y, lo, lo2, hi, hi2)
                        if ok and bool(v) != want:
                            ctx.fail('isinrectbnd', point=(x, y), box=(lo, lo2, hi, hi2), got=v)
                        ok, v = call(ctx, 'listinrecbnd', P.listinrecbnd, [(x, y), (y, x), (x, y)], lo, lo2, hi, hi2)
                        if ok and bool(v) != (want and lo < y < hi and lo2 < x < hi2):
                            ctx.fail('listinrecbnd', points=[(x, y), (y, x)], box=(lo, lo2, hi, hi2), got=v)
                        ctx.trace()
                    ctx.state((lo, hi, lo2))
        else:
            for mnx, mxx, mny, mxy in ((0, 6, 0, 5), (-1, 6, -1, 5), (2, 4, 0, 9)):
                for x, y, a, b in itertools.product(range(-2, 9), range(-2, 8), range(0, 4), range(0, 4)):
                    box = mnx < x - a and x + a < mxx and mny < y - b and y + b < mxy
                    ok, v = call(ctx, 'entireellipseisinboundary', P.entireellipseisinboundary, x, y, mnx, mxx, mny, mxy, b, a)
                    if ok and bool(v) != box:
                        ctx.fail('entireellipseisinboundary', at=(x, y), axes=(b, a), box=(mnx, mxx, mny, mxy), got=v)
                    if a == b:
                        ok, v = call(ctx, 'entirecircleisinboundary', P.entirecircleisinboundary, x, y, mnx, mxx, mny, mxy, a)
                        if ok and bool(v) != box:
                            ctx.fail('entirecircleisinboundary', at=(x, y), r=a, box=(mnx, mxx, mny, mxy), got=v)
                    ctx.trace()
                    ctx.state((mnx, x, y, a, b))
        # far limits and big shapes
        for x, y, a, b in itertools.product((-9, 14, 44, 149, 284), (-6, 19, 64, 144, 209), (0, 4, 14, 44), (0, 4, 14, 44)):
            for mnx, mxx, mny, mxy in ((0, 300, 0, 220), (-14, 194, -9, 154), (44, 164, 14, 149)):
                for nm, args, want in (('isinrectbnd', (x, y, mnx, mny, mxx, mxy), mnx < x < mxx and mny < y < mxy),
                                       ('entireellipseisinboundary', (x, y, mnx, mxx, mny, mxy, b, a), mnx < x - a and x + a < mxx and mny < y - b and y + b < mxy),
                                       ('entirecircleisinboundary', (x, y, mnx, mxx, mny, mxy, a), mnx < x - a and x + a < mxx and mny < y - a and y + a < mxy)):
                    ok, v = call(ctx, nm, getattr(P, nm), *args)
                    if ok and bool(v) != want:
                        ctx.fail(nm, args=args, got=v)
                    ctx.trace()
            ok, v = call(ctx, 'sortrecpoints', P.sortrecpoints, x, y, a, b)
            if ok and tuple(v) != norm(x, y, a, b):
                ctx.fail('sortrecpoints', rect=(x, y, a, b), got=v)
            pts = [(x, y), (a, b), (y, x), (b, a), (x + a, y - b), (a - 9, 14), (3, 300)]
            ok, v = call(ctx, 'rectboundarycoords', P.rectboundarycoords, pts)
            if ok and [tuple(p) for p in v] != [(min(p[0] for p in pts), min(p[1] for p in pts)), (max(p[0] for p in pts), max(p[1] for p in pts))]:
                ctx.fail('rectboundarycoords', points=pts, got=v)
        for pts in itertools.product(itertools.product(range(-1, 3), repeat=2), repeat=3 if unit[1] else 2):
            ok, v = call(ctx, 'rectboundarycoords', P.rectboundarycoords, list(pts))
            if ok and [tuple(p) for p in v] != [(min(p[0] for p in pts), min(p[1] for p in pts)), (max(p[0] for p in pts), max(p[1] for p in pts))]:
                ctx.fail('rectboundarycoords', points=pts, got=v)
        for r in itertools.product(range(-1, 3), repeat=4):
            ok, v = call(ctx, 'sortrecpoints', P.sortrecpoints, *r)
            if ok and tuple(v) != norm(*r):
                ctx.fail('sortrecpoints', rect=r, got=v)
    elif kind == 'edge1':
        for v in range(unit[1], 512, 4):
            check_edges(ctx, B, mkimg(3, 3, 1, [[v >> (3 * y + x) & 1 for x in range(3)] for y in range(3)]), (1, 300, 500))
        ctx.sample('all contents of a 3x3 1-bit image')
    elif kind == 'edge':
        _, bits, part = unit
        cols = {1: (0, 1, 1), 4: (0, 3, 10), 8: (0, 100, 255), 24: (0x101010, 0x101310, 0xF01010)}[bits]
        shape = (3, 2) if q else (3, 3)
        for v in itertools.product(range(3), repeat=shape[0] * shape[1]):
            if v[0] != part:
                continue
            check_edges(ctx, B, mkimg(shape[0], shape[1], bits, [[cols[v[y * shape[0] + x]] for x in range(shape[0])] for y in range(shape[1])]), (2, 3, 200))
        check_edges(ctx, B, mkimg(9, 7, bits), (1, 100, 250))
        check_edges(ctx, B, mkimg(1, 5, bits), (1, 100))
        check_edges(ctx, B, mkimg(5, 1, bits), (1, 100))
        ctx.sample('three-colour images at %d bits' % bits)
    elif kind == 'large':
        # bigger pictures, far pixels, a thick pen
        bits = unit[1]
        for w, h in ((91, 5), (75, 3), (5, 84), (1043, 3), (3, 530)):
            img = mkimg(w, h, bits, k=1)
            if bits < 24:
                img.pal = [((i * 37 + 9) & 255, (i * 91 + 5) & 255, (255 - i) & 255, 0) for i in range(1 << bits)]
            check_iter(ctx, B, img)
            check_edges(ctx, B, img, (14, 250))
            check_edges(ctx, B, mkimg(w, h, bits, [[(1 << bits) - 1 if (x // 7 + y // 3) % 2 else 0 for x in range(w)] for y in range(h)]), (44, 400))
            c = Case(img)
            pts = [(w - 1, h - 1), (0, 0), (w // 2, h // 2), (14 % w, 4 % h), (44 % w, h - 2), (max(w - 4, 0), 44 % h), (w - 2, 0)]
            for p in pts:
                for mk in (tuple, list):
                    for inc in (False, True):
                        ok, got = call(ctx, 'neighbours', P.getneighborlist, mk(p), w, h, inc)
                        if ok and sorted(tuple(v) for v in got) != sorted(nb(p, w, h) | ({p} if inc else set())):
                            ctx.fail('neighbours|%s' % ('center' if inc else 'no center'), at=p, size=(w, h), got=got)
                ok, v = call(ctx, 'getRGBxybitvec|b%d' % bits, B.getRGBxybitvec, c.buf, p)
                if ok and tuple(v) != img.rgb(*p):
                    ctx.fail('getRGBxybitvec|b%d' % bits, at=p, got=v)
                ok, v = call(ctx, 'getneighborcolorlist|b%d' % bits, B.getneighborcolorlist, c.buf, p)
                if ok and sorted(tuple(t) for t in v) != sorted(img.rgb(*t) for t in nb(p, w, h) | {p}):
                    ctx.fail('getneighborcolorlist|b%d' % bits, at=p, size=(w, h), got=v)
                for r in pts:
                    want = [row[:] for row in img.px]
                    want[p[1]][p[0]], want[r[1]][r[0]] = want[r[1]][r[0]], want[p[1]][p[0]]
                    apply_inplace(ctx, 'swapcolors|b%d' % bits, c, B.swapcolors, (p, r), want)
                    ctx.trace()
                    ctx.state((w, h, p, r))
        # edges marked and regions copied with pens of any radius are discs at the found points
        src, dst = os.path.join(d, 's.bmp'), os.path.join(d, 'd.bmp')
        for w, h, pens in ((91, 59, (1, 2, 4, 14)), (75, 84, (9, 19))):
            img = mkimg(w, h, bits, [[0] * w for _ in range(h)])
            hi = (1 << bits) - 1
            for x, y in ((w - 16, h - 12), (21, 44), (74, 14), (2, 2)):
                img.px[y][x] = hi
            c = Case(img)
            ok, pts = call(ctx, 'getimagedgevert|b%d' % bits, B.getimagedgevert, c.buf[:], 100)
            if not ok:
                continue
            for pen in pens:
                if bits == 4 and pen > 1:
                    continue        # discs are made of the 4-bit lines of C06-hline4
                s = set()
                for p in pts:
                    s |= filldisc(p[0], p[1], pen) if pen > 1 else {tuple(p)}
                for col in (hi, hi // 2):
                    apply_inplace(ctx, 'plotimgedges|b%d' % bits, c, B.plotimgedges, (100, pen, col), paint(img.px, s, col, bits))
                    ctx.trace()
                rgb = img.rgb(74, 14)
                s = set()
                for x in range(w):
                    for y in range(h):
                        if img.rgb(x, y) == rgb:
                            s |= filldisc(x, y, pen) if pen > 1 else {(x, y)}
                for only in (True, False):
                    want = img.copy()
                    want.px = paint([[0] * w for _ in range(h)] if only else img.px, s, hi // 2 + 1, bits)
                    Path(src).write_bytes(bytes(c.buf))
                    if os.path.exists(dst):
                        os.remove(dst)
                    ok, _ = call(ctx, 'imgregionbyRGB2file|b%d' % bits, B.imgregionbyRGB2file, src, dst, pen, hi // 2 + 1, rgb, 44, only)
                    ctx.trace()
                    if ok and os.path.exists(dst):
                        expect_image(ctx, 'imgregionbyRGB2file|b%d' % bits, Path(dst).read_bytes(), want, rgb=rgb, pen=pen, only=only)
                    elif ok:
                        ctx.fail('imgregionbyRGB2file|b%d|nothing written' % bits)
                ctx.state((w, h, pen))
    elif kind == 'swap':
        bits = unit[1]
        for w, h in ((5, 2), (2, 3), (9, 1), (32 if bits == 1 else 8, 2)):
            c = Case(mkimg(w, h, bits))
            pts = [(x, y) for x in range(w) for y in range(h)]
            for p in pts:
                for r in pts:
                    want = [row[:] for row in c.img.px]
                    want[p[1]][p[0]], want[r[1]][r[0]] = want[r[1]][r[0]], want[p[1]][p[0]]
                    apply_inplace(ctx, 'swapcolors|b%d' % bits, c, B.swapcolors, (p, r), want)
                    ctx.trace()
                    ctx.state((w, h, p, r))
    elif kind == 'plot':
        # edges and regions drawn with a pen of one pixel mark exactly the found points
        bits = unit[1]
        src, dst = os.path.join(d, 's.bmp'), os.path.join(d, 'd.bmp')
        for w, h, k in ((7, 5, 0), (9, 4, 1), (3, 3, 2), (32 if bits == 1 else 8, 4, 1)):
            img = mkimg(w, h, bits, k=k)
            if bits == 24 or bits == 8:
                a, b = (0x101010, 0xEEEEEE) if bits == 24 else (0, 255)
                img.px = [[a if (x * x + y * k) % 5 < 3 else b for x in range(w)] for y in range(h)]
            c = Case(img)
            for thr in (1, 4, 9, 14, 64, 100, 149, 1000):
                ok, pts = call(ctx, 'getimagedgevert|b%d' % bits, B.getimagedgevert, c.buf[:], thr)
                if not ok:
                    continue
                for col in {0, 1, (1 << bits) - 1}:
                    want = [r[:] for r in img.px]
                    for x, y in pts:
                        want[y][x] = col
                    apply_inplace(ctx, 'plotimgedges|b%d' % bits, c, B.plotimgedges, (thr, 1, col), want)
                    ctx.trace()
            for rgb in {img.rgb(0, 0), img.rgb(w - 1, h - 1)}:
                for thr in (1, 60):
                    for only in (True, False):
                        pts = [(x, y) for x in range(w) for y in range(h) if sum((p - s) ** 2 for p, s in zip(img.rgb(x, y), rgb)) < thr * thr]
                        want = img.copy()
                        if only:
                            want.px = [[0] * w for _ in range(h)]
                        for x, y in pts:
                            want.px[y][x] = 1
                        Path(src).write_bytes(bytes(c.buf))
                        if os.path.exists(dst):
                            os.remove(dst)
                        ok, _ = call(ctx, 'imgregionbyRGB2file|b%d' % bits, B.imgregionbyRGB2file, src, dst, 1, 1, rgb, thr, only)
                        ctx.trace()
                        if ok:
                            if not os.path.exists(dst):
                                ctx.fail('imgregionbyRGB2file|b%d|nothing written' % bits)
                            else:
                                expect_image(ctx, 'imgregionbyRGB2file|b%d' % bits, Path(dst).read_bytes(), want, rgb=rgb, thr=thr, only=only)
                        ctx.state((w, h, rgb, thr, only))
    elif kind == 'color':
        bits = unit[1]
        for w, h in ((4, 3), (9, 2), (1, 1), (32 if bits == 1 else 8, 3)):
            img = mkimg(w, h, bits)
            if bits < 24:
                img.pal = [((i * 37 + 9) & 255, (i * 91 + 5) & 255, (255 - i) & 255, 0) for i in range(1 << bits)]
            buf = mkbuf(img)
            for x in range(w):
                for y in range(h):
                    ok, v = call(ctx, 'getRGBxybitvec|b%d' % bits, B.getRGBxybitvec, buf, (x, y))
                    if ok and tuple(v) != img.rgb(x, y):
                        ctx.fail('getRGBxybitvec|b%d' % bits, at=(x, y), got=v)
                    ok, v = call(ctx, 'getneighborcolorlist|b%d' % bits, B.getneighborcolorlist, buf, (x, y))
                    if ok and sorted(tuple(c) for c in v) != sorted(img.rgb(*p) for p in nb((x, y), w, h) | {(x, y)}):
                        ctx.fail('getneighborcolorlist|b%d' % bits, at=(x, y), size=(w, h), got=v)
                    ctx.trace()
                    ctx.state((bits, w, h, x, y))
