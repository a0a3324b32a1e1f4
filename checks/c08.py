"""Rectangular-region and whole-image in-place transforms against a plain grid model."""
import itertools
from mc.core import *
from mc.gridop import *

BOUNDS = {
    'quick': 'all four depths; images up to 19 wide (1-bit), 7 wide (4-bit), 5 wide (8/24-bit) and up to 4 high with unique-pixel content; '
             'every rectangle, every corner order on images up to 4x3; every erase period 1..4 and phase; all 2^(w*h) contents of 1-bit 3x2, 9x1 '
             'images; every sequence of two operations on small images; every operation on seven rectangles of images of 291x33, 34x283 and 1043x4',
    'thorough': 'as quick with larger images (up to 35 wide at 1 bit, 11 at 4 bits, 8 at 8/24 bits, 6 high), all contents of 3x3 and 2x4 1-bit '
                'images, every sequence of three whole-image operations'}


def sub(f):
    """Region model: f maps a list of rows to a list of rows of the same shape."""
    def m(px, x1, y1, x2, y2, *a):
        x1, y1, x2, y2 = norm(x1, y1, x2, y2)
        blk = f([r[x1:x2 + 1] for r in px[y1:y2 + 1]], *a)
        out = [r[:] for r in px]
        for i, r in enumerate(blk):
            out[y1 + i][x1:x2 + 1] = r
        return out
    return m


def fh(b): return [r[::-1] for r in b]
def fv(b): return b[::-1]


def ml(b):
    w = len(b[0])
    return [[r[min(i, w - 1 - i)] for i in range(w)] for r in b]


def mr(b):
    w = len(b[0])
    return [[r[max(i, w - 1 - i)] for i in range(w)] for r in b]


def mt(b):
    h = len(b)
    return [b[min(i, h - 1 - i)][:] for i in range(h)]


def mb(b):
    h = len(b)
    return [b[max(i, h - 1 - i)][:] for i in range(h)]


def outl(b):
    h = len(b)
    return [[p ^ q for p, q in zip(b[y], b[max(y - 1, 0)])] for y in range(h)]


def inv_model(bits):
    m = (1 << bits) - 1
    return lambda b: [[p ^ m for p in r] for r in b]


def erase_px(bits, x, pat):
    if bits == 24:
        return pat * 0x010101
    if bits == 8:
        return pat
    if bits == 4:
        return pat & 15 if x & 1 else pat >> 4
    return pat >> (7 - (x & 7)) & 1


def erase(px, bits, x1, y1, x2, y2, every, nth, pat):
    x1, y1, x2, y2 = norm(x1, y1, x2, y2)
    out = [r[:] for r in px]
    for i, y in enumerate(range(y1, y2 + 1), 1):
        if i % every == nth:
            for x in range(x1, x2 + 1):
                out[y][x] = erase_px(bits, x, pat & 255)
    return out


REGION = [('flipverticalregion', fv), ('fliphorizontalregion', fh), ('mirrortopinregion', mt), ('mirrorbottominregion', mb),
          ('mirrorleftinregion', ml), ('mirrorrightinregion', mr), ('mirrortopleftinregion', lambda b: mt(ml(b))),
          ('mirrortoprightinregion', lambda b: mt(mr(b))), ('mirrorbottomleftinregion', lambda b: mb(ml(b))),
          ('mirrorbottomrightinregion', lambda b: mb(mr(b))), ('outlineregion', outl), ('invertregion', None),
          ('fliphorzontalpixelbased', fh), ('fliphverticalalpixelbased', fv)]
WHOLE = [('flipvertical', fv), ('fliphorizontal', fh), ('mirrortop', mt), ('mirrorbottom', mb), ('mirrorleft', ml), ('mirrorright', mr),
         ('mirrortopleft', lambda b: mt(ml(b))), ('mirrortopright', lambda b: mt(mr(b))), ('mirrorbottomleft', lambda b: mb(ml(b))),
         ('mirrorbottomright', lambda b: mb(mr(b))), ('outline', outl), ('invertimagebits', None)]


def model_of(f, bits):
    return f or inv_model(bits)


def sizes(tier):
    q = tier == 'quick'
    W = {1: (1, 2, 3, 7, 8, 9, 15, 16, 17, 19, 32) if q else tuple(range(1, 20)) + (31, 32, 33, 35),
         4: tuple(range(1, 9)) if q else tuple(range(1, 12)),
         8: (1, 2, 3, 4, 5) if q else tuple(range(1, 9)),
         24: (1, 2, 3, 4, 5) if q else tuple(range(1, 9))}
    for bits in DEPTHS:
        for w in W[bits]:
            for h in ((2,) if w == 32 and q else (1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6)):
                yield bits, w, h


def units(tier):
    u = [('whole', b) for b in DEPTHS]
    for bits, w, h in sizes(tier):
        for half in (0, 1):
            u.append(('region', bits, w, h, half))
        u.append(('erase', bits, w, h))
    tiny = [(3, 2), (9, 1), (2, 3), (1, 4)] + ([(3, 3), (2, 4), (10, 1)] if tier != 'quick' else [])
    for w, h in tiny:
        for k in range(4):
            u.append(('tiny', w, h, k))
    for bits in DEPTHS:
        u.append(('seq', bits))
        u += [('large', bits, w, h) for w, h in LARGE]
    return u


# (320, 9): rows without padding bytes at every depth
LARGE = [(291, 33), (34, 283), (1043, 4), (320, 9), (35, 1033)]


def far_rects(w, h):
    """wide, high and small rectangles far from the first column and row, small ones in the corners, and the whole image"""
    a, b = w * 9 // 10, h * 9 // 10
    return [(0, 0, w - 1, h - 1), (a, b, w - 1, h - 1), (w - 2, h - 2, a - 7, b - 1), (3, h // 2, w - 4, b), (w // 2 + 1, 1, a, h - 2), (a + 1, 0, a + 1, h - 1), (1, b, w - 1, b),
            (0, 0, 1, 2), (w - 2, 0, w - 1, 2), (0, h - 3, 1, h - 1), (w - 2, h - 3, w - 1, h - 1)]


def run_unit(unit, ctx, tier):
    B = bind()
    kind = unit[0]
    if kind == 'whole':
        bits = unit[1]
        for w in range(1, 36 if bits == 1 else 18):
            for h in range(1, 7):
                for k in (0, 1):
                    img = mkimg(w, h, bits, k=k)
                    c = Case(img)
                    for name, f in WHOLE:
                        want = model_of(f, bits)(img.px)
                        apply_inplace(ctx, '%s|%s' % (name, c.tag), c, getattr(B, name), (), want)
                        ctx.trace()
                        ctx.state(('w', name, bits, w, h, k))
    elif kind == 'region':
        _, bits, w, h, half = unit
        small = w <= 4 and h <= 3
        for k in (0, 1) if small else (0,):
            img = mkimg(w, h, bits, k=k)
            c = Case(img)
            for name, f in REGION[half::2]:
                fn = getattr(B, name)
                m = sub(model_of(f, bits))
                for r in rects(w, h, small):
                    apply_inplace(ctx, '%s|%s' % (name, c.tag), c, fn, r, m(img.px, *r))
                    ctx.trace()
                    ctx.state((name, bits, w, h, k, r))
        ctx.sample('%dx%d %d-bit image, %s over every rectangle' % (w, h, bits, [n for n, _ in REGION[half::2]]))
    elif kind == 'large':
        _, bits, w, h = unit
        img = mkimg(w, h, bits, k=1)
        c = Case(img)
        for name, f in WHOLE:
            apply_inplace(ctx, '%s|%s' % (name, c.tag), c, getattr(B, name), (), model_of(f, bits)(img.px))
        for r in far_rects(w, h):
            for name, f in REGION:
                apply_inplace(ctx, '%s|%s' % (name, c.tag), c, getattr(B, name), r, sub(model_of(f, bits))(img.px, *r))
                ctx.trace()
                ctx.state((name, bits, w, h, r))
            for every, nth, pat in ((2, 1, 0xA6), (5, 3, 0x1FF), (14, 9, 0xC5), (13, 12, 0x3C), (40, 0, 0)):
                apply_inplace(ctx, 'erasealternatehorizontallinesinregion|' + c.tag, c, B.erasealternatehorizontallinesinregion, (*r, every, nth, pat), erase(img.px, bits, *r, every, nth, pat))
                apply_inplace(ctx, 'eraseeverynthhorilineinregion|' + c.tag, c, B.eraseeverynthhorilineinregion, (*r, every), erase(img.px, bits, *r, every, 0, 0))
        for every, nth, pat in ((2, 1, 0xA6), (5, 3, 0x1FF), (14, 9, 0xC5), (13, 12, 0x3C), (40, 0, 0)):
            apply_inplace(ctx, 'erasealternatehorizontallines|' + c.tag, c, B.erasealternatehorizontallines, (every, nth, pat), erase(img.px, bits, 0, 0, w - 1, h - 1, every, nth, pat))
            apply_inplace(ctx, 'eraseeverynthhorizontalline|' + c.tag, c, B.eraseeverynthhorizontalline, (every,), erase(img.px, bits, 0, 0, w - 1, h - 1, every, 0, 0))
    elif kind == 'erase':
        _, bits, w, h = unit
        img = mkimg(w, h, bits)
        c = Case(img)
        small = w <= 4 and h <= 3
        for every in (1, 2, 3, 4):
            for nth in range(every):
                for pat in (0, 0xA6, 0x1FF):
                    want = erase(img.px, bits, 0, 0, w - 1, h - 1, every, nth, pat)
                    apply_inplace(ctx, 'erasealternatehorizontallines|' + c.tag, c, B.erasealternatehorizontallines, (every, nth, pat), want)
                    if not (every <= 3 and (w <= 9 or pat == 0xA6)):
                        continue
                    for r in rects(w, h, small and pat == 0xA6):
                        want = erase(img.px, bits, *r, every, nth, pat)
                        apply_inplace(ctx, 'erasealternatehorizontallinesinregion|' + c.tag, c,
                                      B.erasealternatehorizontallinesinregion, (*r, every, nth, pat), want)
                        ctx.trace()
                        ctx.state((bits, w, h, r, every, nth, pat))
            apply_inplace(ctx, 'eraseeverynthhorizontalline|' + c.tag, c, B.eraseeverynthhorizontalline, (every,),
                          erase(img.px, bits, 0, 0, w - 1, h - 1, every, 0, 0))
            for r in rects(w, h, False):
                apply_inplace(ctx, 'eraseeverynthhorilineinregion|' + c.tag, c, B.eraseeverynthhorilineinregion, (*r, every),
                              erase(img.px, bits, *r, every, 0, 0))
    elif kind == 'tiny':
        # every possible content of a tiny 1-bit image, every operation, every rectangle
        _, w, h, part = unit
        n = w * h
        ops = [(name, getattr(B, name), sub(model_of(f, 1))) for name, f in REGION[part::4]]
        wops = [(name, getattr(B, name), model_of(f, 1)) for name, f in WHOLE[part::4]]
        rs = list(rects(w, h, n <= 6))
        for v in range(1 << n):
            px = [[v >> (y * w + x) & 1 for x in range(w)] for y in range(h)]
            img = mkimg(w, h, 1, px)
            c = Case(img)
            ctx.state(('t', w, h, v, part))
            for name, fn, m in ops:
                for r in rs:
                    apply_inplace(ctx, '%s|%s' % (name, c.tag), c, fn, r, m(px, *r))
            for name, fn, m in wops:
                apply_inplace(ctx, '%s|%s' % (name, c.tag), c, fn, (), m(px))
            ctx.trace()
    elif kind == 'seq':
        # histories: the library's state after each step must follow the model's state
        bits = unit[1]
        w, h = {1: (10, 3), 4: (5, 3), 8: (4, 3), 24: (3, 3)}[bits]
        rs = [(0, 0, w - 1, h - 1), (1, 0, w - 2, h - 1), (w - 1, h - 1, w - 2, 0), (1, 1, w - 1, 1), (0, 1, 2, 2)]
        acts = [(name, (), getattr(B, name), model_of(f, bits)) for name, f in WHOLE]
        acts += [(name, r, getattr(B, name), sub(model_of(f, bits))) for name, f in REGION for r in rs]
        depth = 2 if tier == 'quick' else 3
        img = mkimg(w, h, bits)
        start = Case(img)
        seen = {tuple(map(tuple, img.px))}
        frontier = [(img.px, start.buf[:])]
        for d in range(depth):
            nxt = []
            for px, buf in frontier:
                cur = Case(mkimg(w, h, bits, px))
                for name, r, fn, m in acts:
                    want = m(px, *r) if r else m(px)
                    got = apply_inplace(ctx, 'seq|%s|%s' % (name, cur.tag), cur, fn, r, want, base=buf[:])
                    ctx.trace()
                    key = tuple(map(tuple, want))
                    if key not in seen:
                        seen.add(key)
                        ctx.state(('seq', bits, key))
                        if got is not None:
                            nxt.append((want, got))
            frontier = nxt if len(nxt) < 4000 else nxt[:4000]
