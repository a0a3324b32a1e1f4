"""Pixel addressing: every pixel is one independent cell, nothing else is ever touched."""
from mc.core import *
from mc.gridop import *

BOUNDS = {
    'quick': 'complete reachable state graph of tiny images (up to 2^12 one-bit, 4^5 four-bit, 3^6 eight-bit and 24-bit states) under every plot operation at '
             'every coordinate from 2 outside to 2 outside; every pixel x every depth x widths to 34 and heights to 5 with every colour of the depth '
             '(24-bit: every channel value); every block read/write offset and length on small images; cells around every power of two in rows and columns up to 65537; blocks, columns, colour plots and point lists on four images to 249 columns or 144 rows',
    'thorough': 'as quick with 2^17 one-bit, 4^6 four-bit and 3^8 24-bit graphs, widths to 70, heights to 8'}

PLOTS = ('plotxybit', 'intplotvecxypoint', 'plotvecxypoint')


def units(tier):
    q = tier == 'quick'
    u = []
    g = [(1, 3, 2, 2), (1, 9, 1, 2), (1, 1, 4, 2), (4, 2, 2, 3), (4, 3, 1, 4), (8, 2, 2, 3), (8, 1, 3, 3), (24, 2, 2, 3), (24, 3, 1, 3)]
    g += [(1, 4, 3, 2), (1, 11, 1, 2), (4, 5, 1, 4), (8, 3, 2, 3), (24, 2, 3, 3)]
    if not q:
        g += [(1, 5, 3, 2), (1, 17, 1, 2), (4, 3, 2, 4), (8, 7, 1, 3), (24, 4, 2, 3)]
    for bits in DEPTHS:
        for n in (255, 256, 257, 300, 511, 513, 1025) + ((4097, 65537) if bits < 24 or not q else ()):
            u.append(('large', bits, n))
    u += [('graph',) + x for x in g]
    for bits in DEPTHS:
        for h in range(1, 6 if q else 9):
            u.append(('cells', bits, h, 35 if q else 71))
        u.append(('colors', bits))
        u.append(('rgb', bits))
        u.append(('blit', bits))
        u.append(('list', bits))
        u += [('blocks', bits, i) for i in range(4)]
    return u


def reads(ctx, B, buf, img, sig):
    """Every read of the image, inside and just outside."""
    w, h = img.w, img.h
    for y in list(range(-2, h + 2)) + [-77, 10 ** 5]:
        for x in list(range(-2, w + 2)) + [-99, 10 ** 5]:
            inside = 0 <= x < w and 0 <= y < h
            ctx.step(4)
            want = img.px[y][x] if inside else -1
            a, b = B.getxybit(buf, x, y), B.getxybitvec(buf, (x, y))
            if a != want or b != want:
                ctx.fail(sig + '|getxybit', at=(x, y), expected=want, got=(a, b))
            want = list(img.rgb(x, y)) if inside else []
            a, b = B.getRGBxybit(buf, x, y), B.getRGBxybitvec(buf, (x, y))
            if list(a) != want or list(b) != want:
                ctx.fail(sig + '|getRGBxybit', at=(x, y), expected=want, got=(a, b))


def palette_choice(pal, rgb):
    """All palette indices at minimal distance from rgb."""
    d = [sum((a - b) ** 2 for a, b in zip(p, rgb)) for p in pal]
    m = min(d)
    return [i for i, v in enumerate(d) if v == m]


def run_unit(unit, ctx, tier):
    B = bind()
    kind = unit[0]
    if kind == 'graph':
        # breadth-first over every reachable image state
        _, bits, w, h, nc = unit
        cols = {1: [0, 1], 4: [0, 15, 6, 9][:nc], 8: [0, 255, 0x96], 24: [0, 0xFFFFFF, 0x81C3A5]}[bits]
        start = mkimg(w, h, bits, [[0] * w for _ in range(h)])
        sig = 'graph|b%d|%dx%d' % (bits, w, h)
        buf0 = mkbuf(start)
        frontier, seen = [(start, bytes(buf0))], {start.key()}
        pads = pad_bits(buf0, w, h, bits)
        ops = [(x, y, c) for x in range(-2, w + 2) for y in range(-2, h + 2) for c in cols]
        while frontier:
            nxt = []
            for img, raw in frontier:
                reads(ctx, B, array('B', raw), img, sig)
                for i, (x, y, c) in enumerate(ops):
                    b = array('B', raw)
                    name = PLOTS[i % 3]
                    if name == 'plotxybit':
                        ok, _ = call(ctx, sig + '|' + name, B.plotxybit, b, x, y, c)
                    elif name == 'plotvecxypoint':
                        ok, _ = call(ctx, sig + '|' + name, B.plotvecxypoint, b, [x + 0.3, y - 0.4], c)
                    else:
                        ok, _ = call(ctx, sig + '|' + name, B.intplotvecxypoint, b, (x, y), c)
                    if not ok:
                        continue
                    want = img.copy()
                    want.put(x, y, c)
                    wb = bytes(mkbuf(want))
                    if bytes(b) != wb:
                        ctx.fail(sig + '|' + name, at=(x, y), color=c, before=show(img.px, bits),
                                 diff=[(j, p, q2) for j, (p, q2) in enumerate(zip(wb, bytes(b))) if p != q2][:6], len=(len(wb), len(b)))
                        continue
                    if want.key() not in seen:
                        seen.add(want.key())
                        nxt.append((want, wb))
            frontier = nxt
        for k in seen:
            ctx.state(k)
        ctx.trace(len(seen))
        if len(seen) != len(cols) ** (w * h):
            ctx.fail(sig + '|state count', expected=len(cols) ** (w * h), got=len(seen))
        ctx.sample('%s: %d reachable images, %d operations on each' % (sig, len(seen), len(ops)))
    elif kind == 'cells':
        # every cell of every size: write on a full image and on its complement, read everything back
        _, bits, h, wm = unit
        for w in range(1, wm):
            img = mkimg(w, h, bits, k=1)
            case = Case(img)
            reads(ctx, B, case.buf, img, 'cells|b%d' % bits)
            m = (1 << bits) - 1
            inv = Case(mkimg(w, h, bits, [[p ^ m for p in r] for r in img.px]))
            # unused bits and padding set: plotting must leave them alone
            dirty = bytearray(bytes(case.buf))
            st, hd, used = stride(w, bits), HDR[bits], w * bits
            for y in range(h):
                o = hd + y * st
                if used % 8:
                    dirty[o + used // 8] |= (1 << (8 - used % 8)) - 1
                for j in range((used + 7) // 8, st):
                    dirty[o + j] = 0xA7
            pad = pad_bits(dirty, w, h, bits)
            for y in range(h):
                for x in range(w):
                    for cs, c in ((case, img.px[y][x] ^ m), (inv, img.px[y][x])):
                        want = [r[:] for r in cs.img.px]
                        want[y][x] = c
                        apply_inplace(ctx, 'cells|%s' % cs.tag, cs, B.plotxybit, (x, y, c), want)
                    b = array('B', bytes(dirty))
                    ok, _ = call(ctx, 'padding|b%d' % bits, B.plotxybit, b, x, y, img.px[y][x] ^ m)
                    if ok and pad_bits(b, w, h, bits) != pad:
                        ctx.fail('padding|b%d' % bits, at=(x, y), size=(w, h))
                    ctx.state((bits, w, h, x, y))
                    ctx.trace()
        ctx.sample('each cell of every 1..%dx%d image at %d bits' % (wm - 1, h, bits))
    elif kind == 'large':
        # long rows and columns: positions around every power of two
        _, bits, n = unit
        ks = sorted({k for e in range(17) for k in ((1 << e) - 1, 1 << e, (1 << e) + 1) if k < n} | {n - 1, n - 2, n // 2, 0})
        for w, h in ((n, 2), (3, n)):
            m = (1 << bits) - 1
            base = bytearray(bytes(mkbuf(mkimg(1, 1, bits))))[:HDR[bits]]
            total = HDR[bits] + stride(w, bits) * h
            base[2:6], base[18:22], base[22:26] = total.to_bytes(4, 'little'), w.to_bytes(4, 'little'), h.to_bytes(4, 'little')
            base += bytes((i * 37 + (i >> 8) * 11 + 5) & 255 for i in range(total - HDR[bits]))
            for k in ks:
                for x, y in ((k, 0), (k, 1)) if w == n else ((0, k), (2, k), (1, k)):
                    o = HDR[bits] + (h - 1 - y) * stride(w, bits) + x * bits // 8
                    sh = 0 if bits >= 8 else 8 - bits - x * bits % 8
                    old = base[o] | base[o + 1] << 8 | base[o + 2] << 16 if bits == 24 else base[o] >> sh & m
                    sig = 'large|b%d' % bits
                    ctx.step(2)
                    buf = array('B', bytes(base))
                    if B.getxybit(buf, x, y) != old:
                        ctx.fail(sig + '|read', at=(x, y), size=(w, h), expected=old, got=B.getxybit(buf, x, y))
                    call(ctx, sig, B.plotxybit, buf, x, y, old ^ m)
                    want = bytearray(base)
                    if bits == 24:
                        want[o:o + 3] = (old ^ m).to_bytes(3, 'little')
                    else:
                        want[o] ^= m << sh
                    if bytes(buf) != bytes(want):
                        ctx.fail(sig + '|write', at=(x, y), size=(w, h), diff=[i for i, (p, q) in enumerate(zip(want, buf)) if p != q][:5])
                    ctx.state((bits, w, h, x, y))
                    ctx.trace()
    elif kind == 'colors':
        bits = unit[1]
        w, h = {1: (17, 2), 4: (8, 2), 8: (5, 2), 24: (8, 2)}[bits]
        img = mkimg(w, h, bits)
        case = Case(img)
        if bits == 24:
            cs = sorted({v << s | o for v in range(256) for s in (0, 8, 16) for o in (0,)} |
                        {0xFFFFFF ^ (v << s) for v in range(256) for s in (0, 8, 16)})
        else:
            cs = range(1 << bits)
        for c in cs:
            for x in range(w):
                for y in range(h) if bits < 8 else (x & 1,):
                    want = [r[:] for r in img.px]
                    want[y][x] = c
                    b = apply_inplace(ctx, 'colors|' + case.tag, case, B.plotxybit, (x, y, c), want)
                    if b is not None and B.getxybit(b, x, y) != c:
                        ctx.fail('colors read back|' + case.tag, color=c, got=B.getxybit(b, x, y))
                    ctx.state((bits, c, x, y))
            ctx.trace()
        # numbers past the last colour count on from 0 again; at 1 bit any but 0 sets the pixel
        if bits < 24:
            for c in (2, 3, 4, 6, 15, 16, 17, 31, 32, 100, 128, 240, 254, 255, 256, 257, 300, 511, 512, 0x1000, 0xf00, 0xffff, 0x10000, 0xfffffe, 0xffffff):
                for x in range(w):
                    for fn in PLOTS:
                        want = [r[:] for r in img.px]
                        want[0][x] = min(c, 1) if bits == 1 else c & (1 << bits) - 1
                        apply_inplace(ctx, 'colour number past the palette|' + case.tag, case, getattr(B, fn), (x, 0, c) if fn == 'plotxybit' else ((x, 0), c), want)
                ctx.state((bits, 'past', c))
            ctx.trace()
        # far outside, on every side
        for x in (-(1 << 31), -1000, -w, -1, w, w + 1, 8 * w, 1 << 16, 1 << 31):
            for y in (-(1 << 31), -h, -1, 0, h - 1, h, 3 * h, 1 << 20):
                apply_inplace(ctx, 'outside|' + case.tag, case, B.plotxybit, (x, y, 1), img.px)
                apply_inplace(ctx, 'outside rgb|' + case.tag, case, B.plotRGBxybit, (x, y, [1, 2, 3]), img.px)
                if B.getxybit(case.buf, x, y) != -1 or B.getRGBxybit(case.buf, x, y) != []:
                    ctx.fail('outside read|' + case.tag, at=(x, y))
        for y in (-3, -1, h, h + 9):
            for x in list(range(-2, w + 2)) + [-300, 500]:
                apply_inplace(ctx, 'outside|' + case.tag, case, B.plotxybit, (x, y, 1), img.px)
    elif kind == 'rgb':
        # colour plots: exact on 24 bits; on indexed images the nearest palette entry
        bits = unit[1]
        lv = (0, 1, 63, 100, 127, 128, 160, 200, 254, 255)
        w, h = {1: 3, 4: 8, 8: 4, 24: 3}[bits], 2
        pals = [None] if bits == 24 else [stdpal(bits), [((i * 83 + 40) & 255, (i * 29 + 200) & 255, (i * 151 + 7) & 255, 0) for i in range(1 << bits)]]
        for pi, pal in enumerate(pals):
            img = mkimg(w, h, bits, pal=pal)
            case = Case(img)
            for r in lv:
                for g in lv:
                    for bl in lv if bits != 8 else lv[::3]:
                        for kind2 in (list, tuple):
                            rgb = kind2((r, g, bl))
                            x, y = (r + g) % w, bl % h
                            buf = case.buf[:]
                            sig = 'rgb|b%d|%s' % (bits, kind2.__name__)
                            if (r + bl) & 1:
                                ok, _ = call(ctx, sig, B.plotRGBxybit, buf, x, y, rgb)
                            else:
                                ok, _ = call(ctx, sig, B.plotRGBxybitvec, buf, (x, y), rgb)
                            if not ok:
                                continue
                            px = decode_pixels(buf, w, h, bits)
                            c = px[y][x]
                            good = [r << 16 | g << 8 | bl] if bits == 24 else palette_choice([p[:3] for p in pal], rgb)
                            want = [q[:] for q in img.px]
                            want[y][x] = c if c in good else good[0]
                            if px != want or bytes(buf[:case.hd]) != case.hdr or len(buf) != case.n:
                                ctx.fail(sig, rgb=rgb, accepted=good, got=c, palette=pi)
                    ctx.state((bits, pi, r, g))
            ctx.trace()
        ctx.sample('%d^3 colours at %d bits' % (len(lv), bits))
    elif kind == 'blit':
        # raw block access to the pixel area
        bits = unit[1]
        for w, h in ((1, 1), (3, 2), (9, 2), (2, 3), (32 if bits == 1 else 8, 2)):
            img = mkimg(w, h, bits)
            case = Case(img)
            n = stride(w, bits) * h
            data = bytes(case.buf[case.hd:])
            if bytes(B.getBMPimgbytes(case.buf)) != data:
                ctx.fail('getBMPimgbytes|' + case.tag)
            b = case.buf[:]
            new = array('B', [(i * 7 + 1) & 255 for i in range(n)])
            B.setBMPimgbytes(b, new)
            if bytes(b) != case.hdr + bytes(new):
                ctx.fail('setBMPimgbytes|' + case.tag)
            for off in range(-3, n + 3):
                for ln in range(1, min(n, 6) + 2):
                    fits = off >= 0 and off + ln <= n
                    ok, got = call(ctx, 'BMPbitBLTget|' + case.tag, B.BMPbitBLTget, case.buf, off, ln)
                    if ok and bytes(got) != (data[off:off + ln] if fits else b''):
                        ctx.fail('BMPbitBLTget|' + case.tag, off=off, len=ln, got=bytes(got).hex())
                    b = case.buf[:]
                    ok, _ = call(ctx, 'BMPbitBLTput|' + case.tag, B.BMPbitBLTput, b, off, array('B', [0x5C] * ln))
                    want = bytes(case.buf)
                    if fits:
                        want = want[:case.hd + off] + b'\x5c' * ln + want[case.hd + off + ln:]
                    if ok and bytes(b) != want:
                        ctx.fail('BMPbitBLTput|' + case.tag, off=off, len=ln)
                    ctx.state((bits, w, h, off, ln))
            # column reads
            for x in range(-2, w + 2):
                for y1 in range(-2, h + 2):
                    for y2 in range(-2, h + 2):
                        if max(y1, y2) < 0 or min(y1, y2) >= h:
                            continue
                        ok, got = call(ctx, 'vertBMPbitBLTget|' + case.tag, B.vertBMPbitBLTget, case.buf, x, y1, y2)
                        if not ok:
                            continue
                        if not 0 <= x < w:
                            if got is not None and len(got):
                                ctx.fail('vertBMPbitBLTget outside|' + case.tag, x=x)
                            continue
                        a, c = max(min(y1, y2), 0), min(max(y1, y2), h - 1)
                        want = []
                        for y in range(c, a - 1, -1):
                            row = data[(h - 1 - y) * stride(w, bits):][:stride(w, bits)]
                            want += list(row[3 * x:3 * x + 3]) if bits == 24 else [row[x * bits // 8]]
                        if list(got) != want:
                            ctx.fail('vertBMPbitBLTget|' + case.tag, args=(x, y1, y2), expected=want, got=list(got))
            ctx.trace()
    elif kind == 'blocks':
        # block and column access, colour plots and point lists on wide and tall images
        bits = unit[1]
        w, h = ((96, 49), (149, 14), (44, 144), (249, 9))[unit[2]]
        img = mkimg(w, h, bits)
        case = Case(img)
        st = stride(w, bits)
        n = st * h
        data = bytes(case.buf[case.hd:])
        ks = (0, 1, 3, 4, 9, 14, 15, 40, 44, 49, 90, 99, 140, 144, 240)
        xs, ys = ([k for k in ks if k < m - 2] + [m - 2, m - 1] for m in (w, h))
        for off in [k for k in ks + (444, 499, 900, 999, st - 1, st, 4 * st, n - 50, n - 45, n - 44, n - 9, n - 4, n - 1, n, n + 4) if k <= n + 4]:
            for ln in (1, 2, 4, 9, 14, 44, 45, 94, 144, 494):
                fits = off + ln <= n
                ok, got = call(ctx, 'BMPbitBLTget|' + case.tag, B.BMPbitBLTget, case.buf, off, ln)
                if ok and bytes(got) != (data[off:off + ln] if fits else b''):
                    ctx.fail('BMPbitBLTget|' + case.tag, off=off, len=ln, size=(w, h))
                b = case.buf[:]
                ok, _ = call(ctx, 'BMPbitBLTput|' + case.tag, B.BMPbitBLTput, b, off, array('B', [0x5C] * ln))
                want = bytes(case.buf)
                if fits:
                    want = want[:case.hd + off] + b'\x5c' * ln + want[case.hd + off + ln:]
                if ok and bytes(b) != want:
                    ctx.fail('BMPbitBLTput|' + case.tag, off=off, len=ln, size=(w, h))
                ctx.trace()
        for x in xs:
            for y1 in ys:
                for y2 in ys:
                    ok, got = call(ctx, 'vertBMPbitBLTget|' + case.tag, B.vertBMPbitBLTget, case.buf, x, y1, y2)
                    if ok:
                        want = []
                        for y in range(max(y1, y2), min(y1, y2) - 1, -1):
                            row = data[(h - 1 - y) * st:][:st]
                            want += list(row[3 * x:3 * x + 3]) if bits == 24 else [row[x * bits // 8]]
                        if list(got) != want:
                            ctx.fail('vertBMPbitBLTget|' + case.tag, args=(x, y1, y2), size=(w, h))
                ctx.state((bits, w, h, x, y1))
        new = array('B', [(i * 7 + 1) & 255 for i in range(n)])
        b = case.buf[:]
        B.setBMPimgbytes(b, new)
        if bytes(B.getBMPimgbytes(case.buf)) != data or bytes(b) != case.hdr + bytes(new):
            ctx.fail('setBMPimgbytes|' + case.tag, size=(w, h))
        for x in xs:
            for y in ys:
                rgb = ((x * 37 + y) & 255, (y * 91) & 255, (x * 13 + 77) & 255)
                good = [rgb[0] << 16 | rgb[1] << 8 | rgb[2]] if bits == 24 else palette_choice([p[:3] for p in img.pal], rgb)
                for nm, args in (('plotRGBxybit', (x, y, list(rgb))), ('plotRGBxybitvec', ((x, y), rgb))):
                    b = case.buf[:]
                    ok, _ = call(ctx, nm + '|' + case.tag, getattr(B, nm), b, *args)
                    if ok:
                        c = B.getxybit(b, x, y)
                        i = img.copy()
                        i.put(x, y, c)
                        if c not in good or bytes(b) != bytes(mkbuf(i)):
                            ctx.fail(nm + '|large|' + case.tag, at=(x, y), rgb=rgb, got=c, accepted=good)
                if list(B.getRGBxybit(case.buf, x, y)) != list(img.rgb(x, y)) or list(B.getRGBxybitvec(case.buf, (x, y))) != list(img.rgb(x, y)) or B.getxybitvec(case.buf, (x, y)) != img.px[y][x]:
                    ctx.fail('getRGBxybit|large|' + case.tag, at=(x, y))
                c = img.px[y][x] ^ 1
                for nm, args in (('intplotvecxypoint', ((x, y), c)), ('plotvecxypoint', ([x + 0.4, y - 0.3], c)), ('plotvecxypoint', ([x - 0.4, y + 0.3], c))):
                    want = [r if j != y else r[:x] + [c] + r[x + 1:] for j, r in enumerate(img.px)]
                    apply_inplace(ctx, nm + '|large|' + case.tag, case, getattr(B, nm), args, want)
        c = 1 if bits == 1 else 9
        pts = [(x, y) for x in xs for y in ys] + [(w, 4), (w + 44, h + 4), (-4, 9)]
        want = img.copy()
        for p in pts:
            want.put(*p, c)
        for pen in (0, 1):
            apply_inplace(ctx, 'plotxypointlist|large|' + case.tag, case, B.plotxypointlist, (pts, pen, c), want.px)
    elif kind == 'list':
        # point lists: a list is the same as its points one after another; pen sizes 0 and 1 touch one pixel
        bits = unit[1]
        w, h = {1: 6, 4: 8, 8: 4, 24: 4}[bits], 4
        img = mkimg(w, h, bits, [[0] * w for _ in range(h)])
        case = Case(img)
        c = {1: 1, 4: 9, 8: 200, 24: 0x123456}[bits]
        pts = [(x, y) for x in range(-1, w + 1) for y in range(-1, h + 1)]
        for p in pts:
            for q in pts:
                want = img.copy()
                want.put(*p, c)
                want.put(*q, c)
                for pen in (0, 1):
                    apply_inplace(ctx, 'plotxypointlist|%s|pen%d' % (case.tag, pen), case, B.plotxypointlist, ([p, q], pen, c), want.px)
            for pen in (0, 1):
                want = img.copy()
                want.put(*p, c)
                apply_inplace(ctx, 'roundpen|%s|pen%d' % (case.tag, pen), case, B.roundpen, (p, pen, c), want.px)
            ctx.state((bits, p))
            ctx.trace()
