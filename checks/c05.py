"""Drawing is confined to the image, leaves everything else alone, and shows the same shape at every depth."""
import copy, random
from mc.core import *
from mc.optable import table

W, H = 13, 11
WHITE = {1: 1, 4: 15, 8: 255, 24: 0xFFFFFF}
BOUNDS = {
    'quick': 'all %d drawing operations x sizes 0..5 x every third position of a field three times the image plus positions far away in every direction, at every depth on a 13x11 image and on 1x1, 1x7 and 8x1 images, '
             'with clean and dirty row padding; painted sets compared between depths and with a larger canvas; '
             'every single-colour operation in every 4-bit colour and 6 to 8 others per depth, and in colour numbers past the palette; '
             'six sizes to 24 far from the origin of images of 411x389 and 417x390 against the same near the origin' % 80,
    'thorough': 'as quick with every position and sizes 0..8'}
FAR = (-70000, -1000, -300, 300, 1000, 70000)


def names():
    B = bind()
    return [t[0] for t in table(B)]


def units(tier):
    return [(n, part) for n in names() for part in range(2 if tier == 'quick' else 6)] + [(n, 'large') for n in names()] + [(n, 'colours') for n in names() if 'grad' not in modes_of(n)]


def modes_of(name):
    return {t[0]: t[1] for t in table(bind())}[name]


def blank(w, h, bits, dirty):
    """A white image; dirty: row padding set to ones."""
    b = mkbuf(mkimg(w, h, bits, [[WHITE[bits]] * w for _ in range(h)]))
    pad = []
    if dirty:
        st, hd = stride(w, bits), HDR[bits]
        full, rem = divmod(w * bits, 8)
        for y in range(h):
            o = hd + y * st
            if rem:
                b[o + full] |= (1 << (8 - rem)) - 1
                full2 = full + 1
            else:
                full2 = full
            for i in range(o + full2, o + st):
                b[i] = 0xFF
    return b


def diff(buf, base, w, h, bits):
    """The set of pixels that differ from the white image."""
    st, hd = stride(w, bits), HDR[bits]
    out = set()
    a, b = bytes(buf[hd:]), bytes(base[hd:])
    if a == b:
        return out
    wv = WHITE[bits]
    for y in range(h):
        o = (h - 1 - y) * st
        r = a[o:o + st]
        if r == b[o:o + st]:
            continue
        if bits == 24:
            out.update((x, y) for x in range(w) if r[3 * x:3 * x + 3] != b'\xff\xff\xff')
        elif bits == 8:
            out.update((x, y) for x in range(w) if r[x] != wv)
        elif bits == 4:
            out.update((x, y) for x in range(w) if (r[x >> 1] >> (0 if x & 1 else 4)) & 15 != wv)
        else:
            out.update((x, y) for x in range(w) if not r[x >> 3] >> (7 - (x & 7)) & 1)
    return out


def near4(a, b):
    """a (4-bit) differs from b only as horizontal lines painted by whole bytes do: an even last
    column is missing, an odd single pixel is painted one column to the left."""
    return all(not x & 1 and (x + 1, y) in b for x, y in a - b) and \
        all(not x & 1 or (x - 1, y) in a for x, y in b - a)


CANVAS, BLANKS = {}, {}


def run_unit(unit, ctx, tier):
    B = bind()
    name, part = unit
    if part == 'large':
        return large(ctx, B, name, tier)
    if part == 'colours':
        return colours(ctx, B, name, tier)
    q = tier == 'quick'
    ent = {t[0]: t for t in table(B)}[name]
    _, modes, fn, make = ent
    step = 3 if q else 1
    pos = [(x, y) for x in range(-W, 2 * W, step) for y in range(-H, 2 * H, step)]
    if q:
        pos += [(x, y) for x in (0, 1, 5, W - 2, W - 1, W) for y in (0, 4, H - 1, H)]
    pos += [(f, 3) for f in FAR] + [(5, f) for f in FAR] + [(-1000, 1000), (70000, -70000)]
    nparts = 2 if q else 6
    pos = pos[part::nparts]
    heavy = name in ('plot3Dsolid solid', 'piechart', 'drawarc filled', 'gradthickellipserot', 'IFS', 'plotfilledflower', 'plotflower', 'thickencirclearea', 'squircle')
    for s in range(0, 6 if q else 9):
        for x, y in (pos if not heavy or not q else pos[s % 2::2]):
            far = abs(x) > 200 or abs(y) > 200
            one(ctx, B, name, modes, fn, make, x, y, s, W, H, far, dirty=(x + y + s) % 2 == 0)
    # 8 and 32 columns: rows without padding bytes
    for w, h in ((1, 1), (1, 7), (8, 1), (32, 2)):
        for s in (0, 1, 3):
            for x in range(-4, w + 5, 2) if w < 32 else (-3, 0, 15, 24, 30, 31):
                for y in range(-4, h + 5, 2) if w < 32 else (-1, 0, 1):
                    if (x + y) // 2 % nparts == part:
                        one(ctx, B, name, modes, fn, make, x, y, s, w, h, False, True)
    ctx.sample('%s at every position' % name)


ROUNDED = ('thickellipserot', 'beziercurve', 'beziercurve thick', 'bspline', 'bspline open', 'plotflower')


def loose(a, b):
    """every point of a is in b or next to a point of b"""
    return all((x + i, y + j) in b for x, y in a for i, j in [next(((i, j) for i in (0, 1, -1) for j in (0, 1, -1) if (x + i, y + j) in b), (0, 0))])


def large(ctx, B, name, tier):
    """Far from the origin of an image of several hundred columns and rows the shape is the same as near it."""
    _, modes, fn, make = {t[0]: t for t in table(B)}[name]
    rw, rh, rx, ry = 150, 140, 70, 64
    for s in (0, 2, 5, 9, 13, 24) if tier == 'quick' else range(0, 40):
        def painted(w, h, bits, x, y, what):
            if (w, h, bits) not in CANVAS:
                CANVAS[w, h, bits] = blank(w, h, bits, True)
            base = CANVAS[w, h, bits]
            buf = base[:]
            if name == 'IFS':
                random.seed(s)
            ok, _ = call(ctx, '%s|%s' % (name, what), fn, buf, *make(x, y, s, 0))
            ctx.trace()
            if not ok:
                return None
            if len(buf) != len(base) or buf[:HDR[bits]] != base[:HDR[bits]] or pad_bits(buf, w, h, bits) != pad_bits(base, w, h, bits):
                ctx.fail('%s|%s|not confined' % (name, what), at=(x, y), s=s, size=(w, h))
                return None
            return diff(buf, base, w, h, bits)
        ref = painted(rw, rh, 24, rx, ry, 'b24')
        if not ref or any(not (0 < x < rw - 1 and 0 < y < rh - 1) for x, y in ref):
            continue
        for i, bits in enumerate((24, 8, 4, 1)):
            if '24' in modes and bits != 24 or '8' in modes and bits < 8 or name in ('plotflower', 'plotfilledflower') and bits != 24:
                continue
            for k, (w, h) in enumerate(((411, 389), (417, 390))):
                dx, dy = 187 + 4 * s % 8 + 3 * k + i, 171 + k * 5
                got = painted(w, h, bits, rx + dx, ry + dy, 'b%d' % bits)
                if got is None:
                    continue
                want = {(x + dx, y + dy) for x, y in ref}
                soft = got != want and name in ROUNDED and loose(got, want) and loose(want, got)
                if got != want and not soft:
                    sig = '%s|depths differ|b%d' % (name, bits) if bits == 4 else '%s|moved shape differs|b%d' % (name, bits)
                    if bits == 4 and 'h' in modes and near4(got, want):
                        sig += '|known4bit'
                    ctx.fail(sig, at=(rx + dx, ry + dy), s=s, size=(w, h), extra=sorted(got - want)[:8], missing=sorted(want - got)[:8])
                ctx.state((name, s, w, bits))
    ctx.sample('%s far from the origin of images over 400 columns wide' % name)


def colours(ctx, B, name, tier):
    """Every pixel that changes has the colour asked for; a colour number past the palette paints the same as the
    palette entry it stands for (its low bits), on 4- and 8-bit images."""
    _, modes, fn, make = {t[0]: t for t in table(B)}[name]
    w, h = 40, 36
    for bits in (24, 8, 4, 1):
        if '24' in modes and bits != 24:
            continue
        m = 1 << bits
        px = [[(x * 7 + y * 3 + 1) % min(m, 256) for x in range(w)] for y in range(h)]
        base = mkbuf(mkimg(w, h, bits, px))
        if bits < 24 and tier != 'quick' or bits == 4:
            cols = range(m)
        else:
            cols = sorted({0, 1, m // 2, m - 1, m - 2 if m > 2 else 1, 5 % m, 0x81 % m, 0x123456 % m})
        for s in range(0, 6 if tier == 'quick' else 10):
            for x, y in ((18, 16), (19, 17), (w - 3, h - 2), (-1, 0)):
                for c in cols:
                    ref = None
                    for k in (0, 1, 2, 3, 255) if bits in (4, 8) and (x, y) != (19, 17) else (0,):
                        random.seed(s)
                        buf = base[:]
                        ok, _ = call(ctx, '%s|b%d|colour' % (name, bits), fn, buf, *make(x, y, s, c + k * m))
                        ctx.trace()
                        if not ok:
                            continue
                        if k:
                            if ref is not None and buf != ref:
                                ctx.fail('%s|b%d|colour past the palette' % (name, bits), at=(x, y), s=s, colour=c + k * m)
                            continue
                        ref = buf
                        got = decode_pixels(buf, w, h, bits)
                        bad = [(i, j) for j in range(h) if got[j] != px[j] for i in range(w) if got[j][i] != px[j][i] and got[j][i] != c]
                        if bad:
                            ctx.fail('%s|b%d|painted in another colour' % (name, bits), at=(x, y), s=s, colour=c, where=bad[:6])
                    ctx.state((name, bits, s, x, c))
    ctx.sample('%s in every colour, and in colour numbers past the palette' % name)


def one(ctx, B, name, modes, fn, make, x, y, s, w, h, far, dirty):
    sets = {}
    for bits in (24, 8, 4, 1):
        base = BLANKS.get((w, h, bits, dirty)) or BLANKS.setdefault((w, h, bits, dirty), blank(w, h, bits, dirty))
        buf = base[:]
        args = make(x, y, s, 0)
        keep = copy.deepcopy(args) if name != 'IFS' else args
        if name == 'IFS':
            random.seed(x * 31 + y * 7 + s)
        sig = '%s|b%d' % (name, bits)
        ok, _ = call(ctx, sig, fn, buf, *args)
        ctx.trace()
        if not ok:
            continue
        if args != keep:
            ctx.fail(sig + '|arguments changed', at=(x, y), s=s, size=(w, h))
        hd = HDR[bits]
        if len(buf) != len(base):
            ctx.fail(sig + '|length', at=(x, y), s=s, size=(w, h), got=len(buf), want=len(base))
            continue
        if buf[:hd] != base[:hd]:
            ctx.fail(sig + '|header', at=(x, y), s=s, size=(w, h))
        if pad_bits(buf, w, h, bits) != pad_bits(base, w, h, bits):
            ctx.fail(sig + '|padding', at=(x, y), s=s, size=(w, h))
        sets[bits] = diff(buf, base, w, h, bits)
        refused = '24' in modes and bits != 24 or '8' in modes and bits not in (8, 24)
        if refused:
            if buf != base:
                ctx.fail(sig + '|drawn at a refused depth', at=(x, y), s=s)
            del sets[bits]
            continue
        ctx.state((name, s, w, h, bits, frozenset(sets[bits])))
    if 24 not in sets:
        return
    ref = sets[24]
    for bits in (8, 4, 1):
        if bits in sets and sets[bits] != ref and name != 'plotflower' and name != 'plotfilledflower':
            sig = '%s|depths differ|b%d' % (name, bits)
            if bits == 4 and 'h' in modes and near4(sets[4], ref):
                sig += '|known4bit'
            ctx.fail(sig, at=(x, y), s=s, size=(w, h), extra=sorted(sets[bits] - ref)[:8], missing=sorted(ref - sets[bits])[:8])
    if 'clip' in modes or 'refuse' in modes:
        if far:
            # shapes are at most a few dozen pixels: nothing of them can be visible
            if ref:
                ctx.fail(name + '|far away shape visible', at=(x, y), s=s, painted=sorted(ref)[:8])
            return
        m = 32
        bw, bh = w + 2 * m, h + 2 * m
        if (bw, bh) not in CANVAS:
            CANVAS[bw, bh] = blank(bw, bh, 24, False)
        big = CANVAS[bw, bh][:]
        args = make(x + m, y + m, s, 0)
        ok, _ = call(ctx, name + '|big canvas', fn, big, *args)
        if not ok:
            return
        whole = {(a - m, b - m) for a, b in diff(big, CANVAS[bw, bh], bw, bh, 24)}
        vis = {p for p in whole if 0 <= p[0] < w and 0 <= p[1] < h}
        if 'refuse' in modes and not whole <= vis:
            if ref:
                ctx.fail(name + '|drawn although partly outside', at=(x, y), s=s, size=(w, h), painted=sorted(ref)[:8])
        elif ref != vis:
            ctx.fail(name + '|clipped shape differs', at=(x, y), s=s, size=(w, h), extra=sorted(ref - vis)[:8], missing=sorted(vis - ref)[:8])
