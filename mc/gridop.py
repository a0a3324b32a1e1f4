"""Drive one in-place (or image-returning) operation of the library on a reference image and
compare the whole resulting file image with the model's grid."""
from .core import *


class Case:
    """A start image with its encoded buffer, reused for many calls."""
    __slots__ = ('img', 'buf', 'hd', 'hdr', 'n', 'tag')

    def __init__(self, img, tag=None):
        self.img = img
        self.buf = mkbuf(img)
        self.hd = HDR[img.bits]
        self.hdr = bytes(self.buf[:self.hd])
        self.n = len(self.buf)
        self.tag = tag or 'b%d|%dx%d' % (img.bits, img.w, img.h)


def apply_inplace(ctx, sig, case, fn, args, want, kwargs={}, base=None, known=None):
    """fn(buf, *args) must turn case.img into the pixel grid `want`, keep length, header and palette.
    `known`: optional {sig suffix: grid} of exactly modelled, recorded defects."""
    buf = case.buf[:] if base is None else base
    ok, r = call(ctx, sig, fn, buf, *args, **kwargs)
    if not ok:
        return None
    img = case.img
    if len(buf) != case.n:
        ctx.fail(sig + '|length', args=args, before=case.n, after=len(buf))
        return None
    if bytes(buf[:case.hd]) != case.hdr:
        ctx.fail(sig + '|header', args=args,
                 changed=[i for i in range(case.hd) if buf[i] != case.hdr[i]][:20])
        return None
    px = decode_pixels(buf, img.w, img.h, img.bits)
    if px != want:
        if known:
            for suf, g in known.items():
                if g == px:
                    ctx.fail(sig + suf, args=args)
                    return buf
        ctx.fail(sig, args=args, size=(img.w, img.h, img.bits), diff=grid_diff(want, px),
                 before=show(img.px, img.bits), expected=show(want, img.bits), got=show(px, img.bits))
    return buf


def expect_image(ctx, sig, got, want, **detail):
    """got: buffer returned by the library; must decode (strictly) to the reference image want."""
    try:
        d = decode(got)
    except BadImage as e:
        ctx.fail(sig + '|malformed', error=str(e), **detail)
        return False
    except BaseException as e:
        ctx.fail(sig + '|malformed', error='%s: %s' % (type(e).__name__, e), **detail)
        return False
    if (d.w, d.h, d.bits) != (want.w, want.h, want.bits):
        ctx.fail(sig + '|shape', expected=(want.w, want.h, want.bits), got=(d.w, d.h, d.bits), **detail)
        return False
    if want.pal is not None and [p[:3] for p in d.pal] != [p[:3] for p in want.pal]:
        bad = [(i, p, q) for i, (p, q) in enumerate(zip(want.pal, d.pal)) if p[:3] != q[:3]][:5]
        ctx.fail(sig + '|palette', diff=bad, **detail)
        return False
    if d.px != want.px:
        ctx.fail(sig, diff=grid_diff(want.px, d.px), expected=show(want.px, want.bits), got=show(d.px, d.bits), **detail)
        return False
    return True


def rects(w, h, orders=True):
    """Every rectangle inside a w x h image; all four corner orders if asked."""
    for x1 in range(w):
        for x2 in range(x1, w):
            for y1 in range(h):
                for y2 in range(y1, h):
                    yield x1, y1, x2, y2
                    if orders:
                        if x1 != x2:
                            yield x2, y1, x1, y2
                        if y1 != y2:
                            yield x1, y2, x2, y1
                        if x1 != x2 and y1 != y2:
                            yield x2, y2, x1, y1


def norm(x1, y1, x2, y2):
    return min(x1, x2), min(y1, y2), max(x1, x2), max(y1, y2)
