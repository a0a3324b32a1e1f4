"""A fresh image is a well-formed, all-zero bitmap file image of the requested shape."""
from mc.core import *

BOUNDS = {
    'quick': 'every width 1..72 x height 1..12 x all depths; widths and heights at every byte-carry boundary (255..257, 65535..65537, '
             '2^24-1..2^24+1 at 1 bit) so that every byte of every header field varies; every size/depth pair for the bounds predicates',
    'thorough': 'every width 1..260 x height 1..40 x all depths, plus boundary sizes up to 64 MB images'}


def units(tier):
    q = tier == 'quick'
    u = []
    for bits in DEPTHS:
        for a in range(1, 73 if q else 261, 12 if q else 10):
            u.append(('grid', bits, a, min(a + (12 if q else 10), 73 if q else 261), 13 if q else 41))
        u.append(('edge', bits))
        u.append(('bounds', bits))
        u.append(('pal', bits))
    for i in range(6):
        u.append(('big', i))
    return u


def check_new(ctx, sig, buf, w, h, bits, pal='std', zero=True):
    try:
        if not isinstance(buf, array) or buf.typecode != 'B':
            raise BadImage('not a byte array: %s' % type(buf))
        d = decode_head(buf, w, h, bits)
    except BadImage as e:
        ctx.fail(sig, error=str(e), size=(w, h, bits))
        return
    planes = buf[26] | buf[27] << 8
    if planes != 1:
        ctx.fail('planes field|planes=%d' % planes, size=(w, h, bits))
    want = stdpal(bits) if pal == 'std' and bits < 24 else pal
    if bits < 24:
        got = [(buf[54 + 4 * i + 2], buf[54 + 4 * i + 1], buf[54 + 4 * i], buf[54 + 4 * i + 3]) for i in range(1 << bits)]
        if got != [p if len(p) == 4 else p + (0,) for p in want]:
            ctx.fail(sig + '|palette', size=(w, h, bits), diff=[(i, p, q) for i, (p, q) in enumerate(zip(want, got)) if p[:3] != q[:3]][:5])
    if any(buf[34:54]):
        ctx.fail(sig + '|optional header fields', bytes=list(buf[34:54]))
    if zero and bytes(buf[HDR[bits]:]).count(0) != len(buf) - HDR[bits]:
        ctx.fail(sig + '|pixels not zero', size=(w, h, bits))


def decode_head(buf, w, h, bits):
    need = HDR[bits] + stride(w, bits) * h
    f = {'signature': (bytes(buf[:2]), b'BM'), 'file size field': (u32(buf, 2), need), 'length': (len(buf), need),
         'reserved': (bytes(buf[6:10]), b'\0' * 4), 'pixel offset': (u32(buf, 10), HDR[bits]), 'info header size': (u32(buf, 14), 40),
         'width': (u32(buf, 18), w), 'height': (u32(buf, 22), h), 'bits': (buf[28] | buf[29] << 8, bits), 'compression': (u32(buf, 30), 0)}
    for k, (g, wv) in f.items():
        if g != wv:
            raise BadImage('%s is %r, expected %r' % (k, g, wv))


def accessors(ctx, B, buf, w, h, bits):
    ctx.step(8)
    t = '%d|%dx%d' % (bits, w, h)
    for name, want in (('getmaxx', w), ('getmaxy', h), ('getmaxxy', (w, h)), ('getmaxxyandbits', ((w, h), bits)),
                       ('bottomrightcoord', (w - 1, h - 1)), ('centercoord', ((w - 1) // 2, (h - 1) // 2)), ('getmaxcolors', 1 << bits)):
        g = getattr(B, name)(buf)
        if g != want:
            ctx.fail('%s|%s' % (name, t), expected=want, got=g)
    if bits < 24 and B.isdefaultpal(buf) is not True:
        ctx.fail('isdefaultpal|' + t)


def run_unit(unit, ctx, tier):
    B = bind()
    kind = unit[0]
    if kind == 'grid':
        _, bits, a, b, hm = unit
        for w in range(a, b):
            for h in range(1, hm):
                ok, buf = call(ctx, 'newBMP|b%d' % bits, B.newBMP, w, h, bits)
                if not ok:
                    continue
                check_new(ctx, 'newBMP|b%d' % bits, buf, w, h, bits)
                accessors(ctx, B, buf, w, h, bits)
                other = B.CopyBMPxydim2newBMP(buf, (1, 4, 8, 24)[(w + h) % 4])
                check_new(ctx, 'CopyBMPxydim2newBMP|b%d' % bits, other, w, h, (1, 4, 8, 24)[(w + h) % 4])
                # two images never share storage
                buf2 = B.newBMP(w, h, bits)
                buf2[-1] ^= 255
                if buf[-1] != 0:
                    ctx.fail('newBMP|shared storage', size=(w, h, bits))
                ctx.state((w, h, bits))
                ctx.trace()
        ctx.sample('every newBMP(%d..%d, 1..%d, %d)' % (a, b - 1, hm - 1, bits))
    elif kind == 'edge':
        bits = unit[1]
        big = (255, 256, 257, 511, 512, 513, 1023, 4095, 4096, 4097, 65535, 65536, 65537)
        for n in big:
            for w, h in ((n, 1), (1, n), (n, 3), (5, n)):
                ok, buf = call(ctx, 'newBMP|b%d' % bits, B.newBMP, w, h, bits)
                if ok:
                    check_new(ctx, 'newBMP|b%d' % bits, buf, w, h, bits)
                    accessors(ctx, B, buf, w, h, bits)
                    ctx.state((w, h, bits))
                    ctx.trace()
        ctx.sample('sizes %s x 1, 1 x n, n x 3, 5 x n at %d bits' % (big, bits))
    elif kind == 'big':
        # widths, heights and file sizes whose most significant field byte is in use
        sz = [((1 << 24) - 1, 1, 1), ((1 << 24) + 1, 1, 1), ((1 << 24) + 77, 2, 4), (4200, 4097, 8), (2400, 2500, 24), (1, (1 << 22) + 3, 8)]
        if tier != 'quick':
            sz = [(a * 2, b, c) for a, b, c in sz[:3]] + [(9000, 4097, 8), (4000, 5000, 24), (1, (1 << 24) + 3, 1)]
        w, h, bits = sz[unit[1]]
        ok, buf = call(ctx, 'newBMP|big b%d' % bits, B.newBMP, w, h, bits)
        if ok:
            check_new(ctx, 'newBMP|b%d' % bits, buf, w, h, bits)
            accessors(ctx, B, buf, w, h, bits)
            ctx.state((w, h, bits))
            ctx.trace()
            ctx.sample('newBMP(%d, %d, %d), %d bytes' % (w, h, bits, len(buf)))
    elif kind == 'bounds':
        bits = unit[1]
        for w in range(1, 5):
            for h in range(1, 5):
                buf = mkbuf(mkimg(w, h, bits))
                pts = [(x, y) for x in range(-3, w + 3) for y in range(-3, h + 3)]
                inside = {p: 0 <= p[0] < w and 0 <= p[1] < h for p in pts}
                for p in pts:
                    ctx.step()
                    if bool(B.isinBMPrectbnd(buf, *p)) != inside[p]:
                        ctx.fail('isinBMPrectbnd|%dx%d' % (w, h), point=p)
                if w <= 3 and h <= 3:
                    for p in pts:
                        for q in pts:
                            ctx.step()
                            if bool(B.listinBMPrecbnd(buf, [p, q])) != (inside[p] and inside[q]):
                                ctx.fail('listinBMPrecbnd|%dx%d' % (w, h), points=[p, q])
                            ctx.state((w, h, p, q))
                if B.listinBMPrecbnd(buf, []) is not True:
                    ctx.fail('listinBMPrecbnd|empty')
                ctx.trace()
    elif kind == 'pal':
        # an image made with a palette recipe is still a well-formed image of that shape
        bits = unit[1]
        for w in range(1, 20):
            for h in (1, 2, 3):
                for f in ((1, 1, 1), [0.5, 0.25, 1.0], [0xFF0000, 0x00FF80], [0, 0xFFFFFF]):
                    ok, buf = call(ctx, 'newBMPwithPAL|b%d' % bits, B.newBMPwithPAL, w, h, bits, f)
                    if not ok:
                        continue
                    n = 1 << bits
                    pal = None
                    if bits < 24 and len(f) == 3:
                        inc = {1: 255, 4: 17, 8: 1}[bits]
                        pal = [tuple(round(c * ((255 - j) * 20 % 256)) for c in f) for j in range(0, 256, inc)]
                    elif bits < 24:
                        a, b = [((c >> 16), c >> 8 & 255, c & 255) for c in f]
                        pal = [None] * n
                        for i in range(n):
                            pal[(n - i) * 3 % n] = tuple(round(p + (q - p) * (i / n)) for p, q in zip(a, b))
                        if None in pal:
                            pal = [p or a for p in pal]
                    check_new(ctx, 'newBMPwithPAL|b%d' % bits, buf, w, h, bits, pal)
                    ctx.trace()
                    ctx.state((w, h, bits, str(f)))
        ctx.sample('newBMPwithPAL(1..19, 1..3, %d, recipes)' % bits)
