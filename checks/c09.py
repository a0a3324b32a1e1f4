"""Geometry operations that make another image or move a rectangle: crop, copy/paste, selection to
image, transpose, enlarge, shrink, pixelize."""
from fractions import Fraction
from mc.core import *
from mc.gridop import *
from checks.c08 import norm, far_rects, LARGE

BOUNDS = {'quick': 'all depths; images to 19 wide (1-bit), 7 (4-bit), 6 (8/24-bit) x 1..4 high with unique-pixel content; every rectangle in every '
                   'corner order (small) or sorted; every paste position inside and outside the image; enlarging 1..5 times, shrinking/pixelizing by '
                   '1..7 for every size up to 15x9; all contents of 1-bit 3x2 images for crop and paste; crops, copies and pastes far inside images of 291x33, 34x283 and 1043x4, '
                   'their transposes and double and triple sizes, enlarging up to 40 times, shrinking by up to 45',
          'thorough': 'as quick with sizes up to 35 (1-bit), 11 (4-bit), 8 (8/24-bit) wide and 6 high; factors to 9'}


def crop(img, r):
    x1, y1, x2, y2 = norm(*r)
    return Img(x2 - x1 + 1, y2 - y1 + 1, img.bits, [row[x1:x2 + 1] for row in img.px[y1:y2 + 1]], img.pal)


def paste(px, blk, x, y):
    out = [r[:] for r in px]
    for j, r in enumerate(blk):
        out[y + j][x:x + len(r)] = r
    return out


def custpal(bits, k=1):
    if bits == 24:
        return None
    return [((i * 37 + 11 * k) & 255, (i * 91 + 5 + k) & 255, (255 - i * 3 * k) & 255, 0) for i in range(1 << bits)]


def enlarge(img, n):
    return Img(img.w * n, img.h * n, img.bits, [[img.px[y // n][x // n] for x in range(img.w * n)] for y in range(img.h * n)], img.pal)


def shrink_ok(img, n, got):
    """got: pixel grid. Blocks are aligned to the bottom left corner; each channel is the rounded mean."""
    W, H = img.w // n, img.h // n
    top = img.h - H * n
    for y in range(H):
        for x in range(W):
            for s in (16, 8, 0):
                tot = sum(img.px[top + y * n + j][x * n + i] >> s & 255 for i in range(n) for j in range(n))
                v = got[y][x] >> s & 255
                if abs(Fraction(tot, n * n) - v) > Fraction(1, 2):
                    return 'block (%d,%d) channel>>%d: mean %s got %d' % (x, y, s, Fraction(tot, n * n), v)
    return None


def sizes(tier):
    q = tier == 'quick'
    W = {1: (1, 2, 3, 7, 8, 9, 16, 17, 19, 32) if q else tuple(range(1, 20)) + (31, 32, 33, 35),
         4: tuple(range(1, 9)) if q else tuple(range(1, 12)),
         8: tuple(range(1, 7)) if q else tuple(range(1, 9)),
         24: tuple(range(1, 7)) if q else tuple(range(1, 9))}
    for bits in DEPTHS:
        for w in W[bits]:
            for h in ((2,) if w == 32 and q else (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6)):
                yield bits, w, h


def units(tier):
    u = []
    for bits, w, h in sizes(tier):
        u.append(('crop', bits, w, h))
        u.append(('copy', bits, w, h))
    for bits in DEPTHS:
        u += [('xpose', bits), ('big', bits), ('tiny', bits), ('wide', bits)] + [('large', bits, w, h) for w, h in LARGE]
    for n in [*range(1, 8 if tier == 'quick' else 10), 13, 24, 45]:
        u.append(('small', n))
    return u


def run_unit(unit, ctx, tier):
    B = bind()
    kind = unit[0]
    if kind == 'crop':
        _, bits, w, h = unit
        img = mkimg(w, h, bits, pal=custpal(bits))
        c = Case(img)
        for r in rects(w, h, w <= 4 and h <= 3):
            buf = c.buf[:]
            ok, got = call(ctx, 'crop|' + c.tag, B.crop, buf, *r)
            if ok:
                expect_image(ctx, 'crop|' + c.tag, got, crop(img, r), rect=r)
                if buf != c.buf:
                    ctx.fail('crop|source changed|' + c.tag, rect=r)
            ok, got = call(ctx, 'itergetcolorfromrectregion|' + c.tag, lambda *a: list(B.itergetcolorfromrectregion(*a)), buf, *r)
            x1, y1, x2, y2 = norm(*r)
            want = sorted(((x, y), img.px[y][x]) for y in range(y1, y2 + 1) for x in range(x1, x2 + 1))
            if ok and sorted((tuple(p), v) for p, v in got) != want:
                ctx.fail('itergetcolorfromrectregion|' + c.tag, rect=r)
            ctx.trace()
            ctx.state(('crop', bits, w, h, r))
    elif kind == 'copy':
        _, bits, w, h = unit
        img = mkimg(w, h, bits)
        c = Case(img)
        small = w <= 3 and h <= 2
        # destinations: the same image and another one of the same depth with other content
        dst = Case(mkimg(w + 1, h + 1, bits, k=3))
        allpos = w * h <= 24
        for r in rects(w, h, small):
            sel = crop(img, r)
            buf = c.buf[:]
            ok, s = call(ctx, 'copyrect|' + c.tag, B.copyrect, buf, *r)
            if not ok:
                continue
            if buf != c.buf:
                ctx.fail('copyrect|source changed|' + c.tag, rect=r)
            if bits == 24 or True:
                ok, got = call(ctx, 'convertselection2BMP|' + c.tag, B.convertselection2BMP, s)
                if ok:
                    want = Img(sel.w, sel.h, bits, sel.px, stdpal(bits) if bits < 24 else None)
                    expect_image(ctx, 'convertselection2BMP|' + c.tag, got, want, rect=r)
            for D in (c, dst):
                dw, dh = D.img.w, D.img.h
                xs = [-500, -30] + list(range(-1, dw + 1)) + [dw + 40, 70000] if allpos else sorted({-1, 0, 1, dw - sel.w - 1, dw - sel.w, dw - sel.w + 1, dw - 1})
                ys = [-40] + list(range(-1, dh + 1)) + [dh + 99, 70000] if allpos else sorted({0, dh - sel.h, dh - sel.h + 1})
                for x in xs:
                    for y in ys:
                        fits = x >= 0 and y >= 0 and x + sel.w <= dw and y + sel.h <= dh
                        want = paste(D.img.px, sel.px, x, y) if fits else D.img.px
                        apply_inplace(ctx, 'pasterect|%s|%s' % (D.tag, 'inside' if fits else 'outside'), D,
                                      lambda b: B.pasterect(b, s[:], x, y), (), want)
                        ctx.trace()
            # another depth: refused, nothing changes
            od = {1: 4, 4: 8, 8: 24, 24: 1}[bits]
            o = Case(mkimg(w + 2, h + 2, od))
            apply_inplace(ctx, 'pasterect|otherdepth|' + c.tag, o, lambda b: B.pasterect(b, s[:], 0, 0), (), o.img.px)
            ctx.state(('copy', bits, w, h, r))
        ctx.sample('copy every rectangle of a %dx%d %d-bit image, paste at every position of two images' % (w, h, bits))
    elif kind == 'wide':
        bits = unit[1]
        n = 22003 if bits == 24 else 66003
        for w, h in ((n, 2), (2, n)):
            img = mkimg(w, h, bits, pal=custpal(bits))
            buf = mkbuf(img)
            keep = buf[:]
            for r in ((0, 0, w - 1, h - 1), (w - 1, h - 1, 0 if w < h else 3, 0 if w > h else 3), (w - 2 if w > h else 0, h - 2, w - 1, h - 1))[::1 if w > h else 2]:
                sel = crop(img, r)
                tag = '%s|wide|b%d'
                ok, got = call(ctx, tag % ('crop', bits), B.crop, buf, *r)
                if ok:
                    expect_image(ctx, tag % ('crop', bits), got, sel, rect=r)
                ok, s = call(ctx, tag % ('copyrect', bits), B.copyrect, buf, *r)
                if not ok:
                    continue
                ok, got = call(ctx, tag % ('convertselection2BMP', bits), B.convertselection2BMP, s)
                if ok:
                    expect_image(ctx, tag % ('convertselection2BMP', bits), got, Img(sel.w, sel.h, bits, sel.px, stdpal(bits) if bits < 24 else None), rect=r)
                for x, y in {(w - sel.w, h - sel.h)}:
                    b = buf[:]
                    ok, _ = call(ctx, tag % ('pasterect', bits), B.pasterect, b, s[:], x, y)
                    if ok:
                        expect_image(ctx, tag % ('pasterect', bits), b, Img(w, h, bits, paste(img.px, sel.px, x, y), img.pal), rect=r, at=(x, y))
                ctx.trace()
                ctx.state(('wide', bits, w, h, r))
            ok, got = call(ctx, 'flipXY|wide|b%d' % bits, B.flipXY, buf)
            if ok:
                expect_image(ctx, 'flipXY|wide|b%d' % bits, got, Img(h, w, bits, [[img.px[h - 1 - X][w - 1 - Y] for X in range(h)] for Y in range(w)], img.pal))
            if buf != keep:
                ctx.fail('wide|source changed|b%d' % bits)
    elif kind == 'large':
        _, bits, w, h = unit
        img = mkimg(w, h, bits, pal=custpal(bits))
        c = Case(img)
        buf = c.buf[:]
        for r in far_rects(w, h):
            sel = crop(img, r)
            ok, got = call(ctx, 'crop|' + c.tag, B.crop, buf, *r)
            if ok:
                expect_image(ctx, 'crop|' + c.tag, got, sel, rect=r)
            x1, y1, x2, y2 = norm(*r)
            ok, got = call(ctx, 'itergetcolorfromrectregion|' + c.tag, lambda *a: list(B.itergetcolorfromrectregion(*a)), buf, *r)
            if ok and sorted((tuple(p), v) for p, v in got) != sorted(((x, y), img.px[y][x]) for y in range(y1, y2 + 1) for x in range(x1, x2 + 1)):
                ctx.fail('itergetcolorfromrectregion|' + c.tag, rect=r)
            ok, s = call(ctx, 'copyrect|' + c.tag, B.copyrect, buf, *r)
            if not ok:
                continue
            ok, got = call(ctx, 'convertselection2BMP|' + c.tag, B.convertselection2BMP, s)
            if ok:
                expect_image(ctx, 'convertselection2BMP|' + c.tag, got, Img(sel.w, sel.h, bits, sel.px, stdpal(bits) if bits < 24 else None), rect=r)
            for x, y in {(0, 0), (w - sel.w, h - sel.h), ((w - sel.w) // 2 + 1, (h - sel.h) // 2), (w - sel.w - 3, 0), (w - sel.w + 1, 0), (0, h - sel.h + 1), (x1 - 1, y1)}:
                in_ = x >= 0 and y >= 0 and x + sel.w <= w and y + sel.h <= h
                apply_inplace(ctx, 'pasterect|%s|%s' % (c.tag, 'inside' if in_ else 'outside'), c, lambda b: B.pasterect(b, s[:], x, y), (), paste(img.px, sel.px, x, y) if in_ else img.px)
            ctx.trace()
            ctx.state(('large', bits, w, h, r))
        ok, got = call(ctx, 'flipXY|' + c.tag, B.flipXY, buf)
        if ok:
            expect_image(ctx, 'flipXY|' + c.tag, got, Img(h, w, bits, [[img.px[h - 1 - X][w - 1 - Y] for X in range(h)] for Y in range(w)], img.pal))
        for n in (2, 3):
            ok, got = call(ctx, 'resizeNtimesbigger|' + c.tag, B.resizeNtimesbigger, buf, n)
            if ok:
                expect_image(ctx, 'resizeNtimesbigger|%s|n%d' % (c.tag, n), got, enlarge(img, n))
        if buf != c.buf:
            ctx.fail('large|source changed|' + c.tag)
        for n, W, H in ((7, 19, 3), (8, 33, 2), (13, 5, 4), (16, 3, 2), (40, 3, 2)):
            im = mkimg(W, H, bits, pal=custpal(bits))
            ok, got = call(ctx, 'resizeNtimesbigger|b%d' % bits, B.resizeNtimesbigger, mkbuf(im), n)
            if ok:
                expect_image(ctx, 'resizeNtimesbigger|b%d|n%d' % (bits, n), got, enlarge(im, n))
            ctx.trace()
    elif kind == 'xpose':
        bits = unit[1]
        for w in [*range(1, 20), 32] if bits == 1 else range(1, 10):
            for h in range(1, 20 if bits == 1 else 8):
                img = mkimg(w, h, bits, pal=custpal(bits))
                c = Case(img)
                buf = c.buf[:]
                ok, got = call(ctx, 'flipXY|' + c.tag, B.flipXY, buf)
                if ok:
                    want = Img(h, w, bits, [[img.px[h - 1 - X][w - 1 - Y] for X in range(h)] for Y in range(w)], img.pal)
                    if expect_image(ctx, 'flipXY|' + c.tag, got, want):
                        ok, back = call(ctx, 'flipXY|twice|' + c.tag, B.flipXY, got)
                        if ok:
                            expect_image(ctx, 'flipXY|twice|' + c.tag, back, img)
                if buf != c.buf:
                    ctx.fail('flipXY|source changed|' + c.tag)
                ctx.trace()
                ctx.state(('xpose', bits, w, h))
    elif kind == 'big':
        bits = unit[1]
        for w in [*range(1, 20), 32] if bits == 1 else range(1, 10):
            for h in range(1, 5):
                img = mkimg(w, h, bits, pal=custpal(bits))
                c = Case(img)
                for n in range(1, 6 if tier == 'quick' else 9):
                    buf = c.buf[:]
                    ok, got = call(ctx, 'resizeNtimesbigger|' + c.tag, B.resizeNtimesbigger, buf, n)
                    if ok:
                        expect_image(ctx, 'resizeNtimesbigger|%s|n%d' % (c.tag, n), got, enlarge(img, n))
                    if buf != c.buf:
                        ctx.fail('resizeNtimesbigger|source changed|' + c.tag)
                    ctx.trace()
                    ctx.state(('big', bits, w, h, n))
    elif kind == 'small':
        n = unit[1]
        for w in range(n, 16) if n < 10 else (n, 2 * n + 3, 291):
            for h in range(n, max(n + 2, 10)) if n < 10 else (n, 2 * n + 1):
                for k in range(4):
                    img = mkimg(w, h, 24, k=k)
                    if k == 2:      # flat image: must stay exactly as it was
                        img = mkimg(w, h, 24, [[0x01FE80] * w for _ in range(h)])
                    if k == 3:      # extreme values
                        img = mkimg(w, h, 24, [[0xFFFFFF if (x + y) % 3 else 0xFF0000 for x in range(w)] for y in range(h)])
                    c = Case(img)
                    for name in ('resizeNtimessmaller', 'pixelizenxn'):
                        buf = c.buf[:]
                        sig = '%s|%s|n%d' % (name, c.tag, n)
                        ok, got = call(ctx, sig, getattr(B, name), buf, n)
                        if not ok:
                            continue
                        W, H = w // n, h // n
                        if name == 'pixelizenxn':
                            W, H = W * n, H * n
                        try:
                            d = decode(got)
                        except BadImage as e:
                            ctx.fail(sig + '|malformed', error=str(e))
                            continue
                        if (d.w, d.h, d.bits) != (W, H, 24):
                            ctx.fail(sig + '|shape', expected=(W, H), got=(d.w, d.h))
                            continue
                        px = d.px
                        if name == 'pixelizenxn':
                            bad = [(x, y) for y in range(H) for x in range(W) if px[y][x] != px[y // n * n][x // n * n]]
                            if bad:
                                ctx.fail(sig + '|block not flat', at=bad[:3])
                                continue
                            px = [r[::n] for r in px[::n]]
                        e = shrink_ok(img, n, px)
                        if e:
                            ctx.fail(sig, error=e)
                        if buf != c.buf:
                            ctx.fail(sig + '|source changed')
                        ctx.trace()
                        ctx.state(('small', name, n, w, h, k))
        # not a 24-bit image: refused, nothing returned, nothing changed
        for bits in (1, 4, 8):
            c = Case(mkimg(9, 9, bits))
            buf = c.buf[:]
            ok, got = call(ctx, 'resizeNtimessmaller|depth|b%d' % bits, B.resizeNtimessmaller, buf, n)
            if ok and (got is not None or buf != c.buf):
                ctx.fail('resizeNtimessmaller|depth|b%d' % bits)
    elif kind == 'tiny':
        bits = unit[1]
        cols = {1: [0, 1], 4: [0, 9, 15], 8: [0, 255], 24: [0, 0xFF00FF]}[bits]
        w, h = (3, 2)
        for combo in itertools.product(cols, repeat=w * h) if bits != 4 else itertools.product(cols, repeat=4):
            if bits == 4:
                w, h = 2, 2
            img = mkimg(w, h, bits, [list(combo[y * w:(y + 1) * w]) for y in range(h)])
            c = Case(img)
            for r in rects(w, h, False):
                ok, got = call(ctx, 'crop|tiny', B.crop, c.buf[:], *r)
                if ok:
                    expect_image(ctx, 'crop|' + c.tag, got, crop(img, r), rect=r)
                sel = crop(img, r)
                s = B.copyrect(c.buf[:], *r)
                for x in range(w - sel.w + 1):
                    for y in range(h - sel.h + 1):
                        apply_inplace(ctx, 'pasterect|%s|inside' % c.tag, c, lambda b: B.pasterect(b, s[:], x, y), (), paste(img.px, sel.px, x, y))
            ctx.trace()
            ctx.state(('tiny', bits, combo))
