"""Depth conversion: upgrading to 24 bits, colour histograms, palettes made from an image, reduction to fewer colours."""
import itertools, os, shutil, tempfile
from pathlib import Path
from mc.core import *
from mc.gridop import *

BOUNDS = {
    'quick': 'upgrade of every size 1..34 x 1..3 at each packed depth with three palettes and of every 1-bit 3x3 and 4-bit 2x1 content; every byte value expanded at each depth; '
             'histograms of every content of 3x3 1-bit, 2x1 4-bit and 2x2 four-colour images; palettes from all short histograms over six colours and all thresholds; '
             'reduction of every 2x2 image over five colours, colour ramps of up to 400 colours, every width 1..9, to every depth with both palette kinds; the same for images to 249 columns and 204 rows, thresholds to 94 and histograms of 300 colours; sides of 1030 to 4100 pixels',
    'thorough': 'as quick with sizes to 70 x 5 and 3x2 images over five colours'}


def units(tier):
    q = tier == 'quick'
    u = [('up', b, h, 35 if q else 71) for b in (1, 4, 8) for h in ((1, 2, 3) if q else (1, 2, 3, 4, 5))]
    u += [('up24',), ('uptiny',), ('bytes',), ('hist',), ('pal', 0), ('pal', 1), ('pal', 2)]
    u += [('reduce', b, m, i) for b in (1, 4, 8) for m in (0, 1) for i in range(5)] + [('ramp', b) for b in (1, 4, 8)] + [('refuse',)] + [('large', b) for b in DEPTHS]
    return u


def pals(bits):
    n = 1 << bits
    return [stdpal(bits), [((i * 37 + 11) & 255, (i * 91 + 5) & 255, (255 - i * 3) & 255, 0) for i in range(n)], [(i, 255 - i, 7, 0) for i in range(n)]]


def rgbint(p):
    return p[0] << 16 | p[1] << 8 | p[2]


def check_up(ctx, B, img):
    sig = 'upgradeto24bitimage|b%d' % img.bits
    buf = mkbuf(img)
    before = bytes(buf)
    ok, r = call(ctx, sig, B.upgradeto24bitimage, buf)
    ctx.trace()
    if not ok:
        return
    if bytes(buf) != before:
        ctx.fail(sig + '|source changed', size=(img.w, img.h))
    want = Img(img.w, img.h, 24, [[rgbint(img.pal[c]) for c in row] for row in img.px])
    if expect_image(ctx, sig, r, want, size=(img.w, img.h)) and any(pad_bits(r, img.w, img.h, 24)):
        ctx.fail(sig + '|padding', size=(img.w, img.h))
    ctx.state((img.bits, img.w, img.h, before))


def hist_of(img):
    d = {}
    for row in img.px:
        for c in row:
            d[c] = d.get(c, 0) + 1
    return d


def check_hist(ctx, B, img):
    sig = 'colorhistogram|b%d' % img.bits
    buf = mkbuf(img)
    ok, r = call(ctx, sig, B.colorhistogram, buf)
    ctx.trace()
    if not ok:
        return
    d = hist_of(img)
    if sorted((c, n) for n, c in r) != sorted(d.items()):
        ctx.fail(sig, size=(img.w, img.h), px=img.px, got=r[:20])
    elif [n for n, c in r] != sorted(d.values(), reverse=True):
        ctx.fail(sig + '|order', size=(img.w, img.h), px=img.px, got=r[:20])
    ctx.state(('hist', img.key()))


def d2(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def split(c):
    return (c >> 16, c >> 8 & 255, c & 255)


def check_reduce(ctx, B, img, bits, thr, mono, src, dst):
    sig = 'reduce24bitimagebits|b%d|%s' % (bits, 'mono' if mono else 'own')
    Path(src).write_bytes(bytes(mkbuf(img)))
    if os.path.exists(dst):
        os.remove(dst)
    ok, _ = call(ctx, sig, B.reduce24bitimagebits, src, dst, bits, thr, bool(mono), *([mono] if mono else []))
    ctx.trace()
    if not ok:
        return
    if not os.path.exists(dst):
        ctx.fail(sig + '|nothing written')
        return
    try:
        g = decode(Path(dst).read_bytes())
    except BadImage as e:
        ctx.fail(sig + '|malformed', error=str(e))
        return
    if (g.w, g.h, g.bits) != (img.w, img.h, bits):
        ctx.fail(sig + '|shape', got=(g.w, g.h, g.bits))
        return
    ctx.state((bits, thr, mono, img.key()))
    pal = [p[:3] for p in g.pal]
    if bits == 1:
        # random dithering: the palette is black and white, black stays black
        if pal != [(0, 0, 0), (255, 255, 255)]:
            ctx.fail(sig + '|palette', got=pal)
        for a, b in zip(img.px, g.px):
            for x, y in zip(a, b):
                if x == 0 and y:
                    ctx.fail(sig + '|black pixel lit', px=img.px)
        return
    used = sorted({c for r in img.px for c in r})
    if mono:
        n = 1 << bits
        shades = [i * 255 // (n - 1) for i in range(n)]
        if any(abs(f * s - v) > 0.5 + 1e-9 for s, p in zip(shades, pal) for f, v in zip(mono, p)):
            ctx.fail(sig + '|palette', got=pal[:20])
    else:
        known = {split(c) for c in used} | {(0, 0, 0)}
        bad = [p for p in pal if p not in known]
        if bad:
            ctx.fail(sig + '|palette colour not in the image', colours=len(used), wrong=bad[:5])
    near = {}
    for y, (ra, rb) in enumerate(zip(img.px, g.px)):
        for x, (c, i) in enumerate(zip(ra, rb)):
            if c not in near:
                near[c] = min(d2(split(c), p) for p in pal)
            if d2(split(c), pal[i]) > near[c]:
                ctx.fail(sig, at=(x, y), source=split(c), shown=pal[i], index=i, nearest=near[c], thr=thr, colours=len(used))
                return
            if not mono and near[c] and near[c] >= thr * thr and len(set(pal)) < min(len(known), 1 << bits):
                ctx.fail(sig + '|colour without an entry', source=split(c), thr=thr, entries=len(set(pal)))
                return


def run_unit(unit, ctx, tier):
    d = tempfile.mkdtemp(prefix='c16')
    try:
        go(unit, ctx, tier, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def go(unit, ctx, tier, d):
    B = bind()
    q = tier == 'quick'
    kind = unit[0]
    src, dst = os.path.join(d, 's.bmp'), os.path.join(d, 'd.bmp')
    if kind == 'up':
        _, bits, h, wm = unit
        for w in range(1, wm):
            for k, pal in enumerate(pals(bits)):
                check_up(ctx, B, mkimg(w, h, bits, pal=pal, k=k))
                check_hist(ctx, B, mkimg(w, h, bits, pal=pal, k=k))
        ctx.sample('upgrade and histogram of every width 1..%d, height %d, %d bits' % (wm - 1, h, bits))
    elif kind == 'up24':
        for w in range(1, 6):
            img = mkimg(w, 3, 24)
            buf = mkbuf(img)
            before = bytes(buf)
            ok, r = call(ctx, 'upgradeto24bitimage|b24', B.upgradeto24bitimage, buf)
            if ok and (bytes(r) != before or bytes(buf) != before):
                ctx.fail('upgradeto24bitimage|b24')
            check_hist(ctx, B, img)
            ctx.trace()
            ctx.state(w)
    elif kind == 'uptiny':
        for v in range(512):
            img = mkimg(3, 3, 1, [[v >> (3 * y + x) & 1 for x in range(3)] for y in range(3)], pal=pals(1)[v % 3])
            check_up(ctx, B, img)
            check_hist(ctx, B, img)
        for v in range(256):
            img = mkimg(2, 1, 4, [[v >> 4, v & 15]], pal=pals(4)[1])
            check_up(ctx, B, img)
            check_hist(ctx, B, img)
            img = mkimg(1, 2, 8, [[v], [255 - v]], pal=pals(8)[1])
            check_up(ctx, B, img)
            check_hist(ctx, B, img)
    elif kind == 'bytes':
        for bits in (1, 4, 8):
            for pal in pals(bits):
                flat = array('B', [v for p in pal for v in (p[2], p[1], p[0], 0)])
                img = mkimg(1, 1, bits, pal=pal)
                ok, r = call(ctx, 'getBGRpalbuf|b%d' % bits, B.getBGRpalbuf, mkbuf(img))
                if ok and bytes(r) != bytes(flat):
                    ctx.fail('getBGRpalbuf|b%d' % bits, got=len(r))
                per = 8 // bits
                for v in range(256):
                    for data in ([v], [v, 255 - v], [0, v, 255, v]):
                        want = []
                        for b in data:
                            for j in range(per):
                                c = b >> (8 - bits * (j + 1)) & ((1 << bits) - 1)
                                want += [pal[c][2], pal[c][1], pal[c][0]]
                        ok, r = call(ctx, 'convertbufto24bit|b%d' % bits, B.convertbufto24bit, array('B', data), flat, bits)
                        if ok and list(r) != want:
                            ctx.fail('convertbufto24bit|b%d' % bits, data=data, got=list(r), want=want)
                        ctx.trace()
                    ctx.state((bits, v))
    elif kind == 'hist':
        cols = (0, 0xFFFFFF, 0x010203, 0x030201)
        for v in itertools.product(range(4), repeat=4):
            check_hist(ctx, B, mkimg(2, 2, 24, [[cols[v[0]], cols[v[1]]], [cols[v[2]], cols[v[3]]]]))
        check_hist(ctx, B, mkimg(40, 30, 24))
        ctx.sample('every 2x2 image over four colours')
    elif kind == 'pal':
        cols = [0x000000, 0x000003, 0x000300, 0xFF0000, 0xFE0000, 0xFFFFFF]
        n = 4
        for m in range(1, 5):
            for pick in itertools.permutations(cols, m):
                if (len(pick) + cols.index(pick[0])) % 3 != unit[1]:
                    continue
                hist = [[20 - i, c] for i, c in enumerate(pick)]
                for thr in (0.5, 1, 2, 3, 3.5, 5, 300, 500):
                    for size in (2, 3, 16):
                        ok, r = call(ctx, 'makenewpalfromcolorhist', B.makenewpalfromcolorhist, [h[:] for h in hist], size, thr)
                        if ok:
                            want = [(0, 0, 0)]
                            for c in pick:
                                if len(want) < size and all(d2(split(c), p) >= thr * thr for p in want):
                                    want.append(split(c))
                            if [tuple(p) for p in r][:len(want)] != want or any(tuple(p) != (0, 0, 0) for p in r[len(want):]) or len(r) > size:
                                ctx.fail('makenewpalfromcolorhist', hist=hist, size=size, thr=thr, got=r, want=want)
                        ctx.trace()
                        ctx.state((pick, thr, size))
    elif kind == 'reduce':
        _, bits, mono, first = unit
        cols = (0, 0xFFFFFF, 0xFF0000, 0xF00010, 0x203040)
        shape = (2, 2) if q else (3, 2)
        n = shape[0] * shape[1]
        for v in itertools.product(range(5), repeat=n - 1):
            v = (first,) + v
            if not q and sum(v) % 3:
                continue
            img = mkimg(shape[0], shape[1], 24, [[cols[v[y * shape[0] + x]] for x in range(shape[0])] for y in range(shape[1])])
            check_reduce(ctx, B, img, bits, (5, 30, 100)[sum(v) % 3], mono and ((1, 1, 1), (0.5, 1, 0))[sum(v) % 2], src, dst)
        ctx.sample('every %dx%d image over five colours to %d bits' % (shape + (bits,)))
    elif kind == 'ramp':
        bits = unit[1]
        for w, h, f in ((20, 20, lambda x, y: (x * 12) << 16 | (y * 12) << 8 | (x + y)), (9, 7, lambda x, y: (x * 31) * 0x10101), (17, 1, lambda x, y: (x * 15) << 8 | 9)):
            img = mkimg(w, h, 24, [[f(x, y) for x in range(w)] for y in range(h)])
            for thr in (1, 20, 60):
                for mono in (False, (1, 1, 1), (0.2, 0.9, 1)):
                    check_reduce(ctx, B, img, bits, thr, mono, src, dst)
        for w in range(1, 10):
            check_reduce(ctx, B, mkimg(w, 2, 24), bits, 3, False, src, dst)
            check_reduce(ctx, B, mkimg(w, 2, 24), bits, 3, (1, 1, 1), src, dst)
        ctx.sample('colour ramps to %d bits' % bits)
    elif kind == 'large':
        bits = unit[1]
        for w, h in ((94, 3), (75, 49), (144, 9), (91, 44), (249, 4), (44, 204)):
            for k, pal in enumerate(pals(bits) if bits < 24 else (None,)):
                img = mkimg(w, h, bits, k=k) if bits == 24 else mkimg(w, h, bits, pal=pal, k=k)
                check_hist(ctx, B, img)
                if bits < 24:
                    check_up(ctx, B, img)
        if bits == 24:
            # skewed counts: one colour 499 times, one 94 times, one 14, 9 and 4 times
            cs = [0x010203] * 499 + [0xfefdfc] * 94 + [0x40] * 14 + [0x4000] * 9 + [0x400000] * 4
            check_hist(ctx, B, mkimg(124, 5, 24, [cs[i::5] for i in range(5)]))
        else:
            per = 8 // bits
            pal = pals(bits)[1]
            flat = array('B', [v for p in pal for v in (p[2], p[1], p[0], 0)])
            for n in (4, 9, 14, 44, 49, 94, 144, 249):
                data = [i * 37 % 251 ^ n for i in range(n)]
                want = [pal[b >> (8 - bits * (j + 1)) & ((1 << bits) - 1)][k] for b in data for j in range(per) for k in (2, 1, 0)]
                ok, r = call(ctx, 'convertbufto24bit|b%d' % bits, B.convertbufto24bit, array('B', data), flat, bits)
                if ok and list(r) != want:
                    ctx.fail('convertbufto24bit|b%d' % bits, data=data, got=list(r), want=want)
                ctx.trace()
            for w, h in ((2, 1030), (2, 2054), (1030, 2), (4100, 1)):     # long sides
                img = mkimg(w, h, 24, [[(x * 7 + y * 3) % 5 * 0x331100 + (x + y) % 3 * 60 for x in range(w)] for y in range(h)])
                check_reduce(ctx, B, img, bits, 30, False, src, dst)
                check_up(ctx, B, mkimg(w, h, bits, pal=pals(bits)[1]))
            for w, h, f in ((49, 44, lambda x, y: (x * 5) << 16 | (y * 5) << 8 | (x + y)), (94, 4, lambda x, y: (x * 2) * 0x10101), (144, 9, lambda x, y: (x * 15 % 256) << 8 | y)):
                img = mkimg(w, h, 24, [[f(x, y) for x in range(w)] for y in range(h)])
                for thr in (4, 9, 14, 44, 94):
                    check_reduce(ctx, B, img, bits, thr, False, src, dst)
                check_reduce(ctx, B, img, bits, 9, (0.44, 0.9, 0.04), src, dst)
            hist = [[999 - i, (i * 37 % 256) << 16 | (i * 91 % 256) << 8 | i * 53 % 256] for i in range(300)]
            for thr in (4, 9, 14, 44, 90):
                for size in (4, 9, 14, 44, 99, 256):
                    ok, r = call(ctx, 'makenewpalfromcolorhist', B.makenewpalfromcolorhist, [h[:] for h in hist], size, thr)
                    if ok:
                        want = [(0, 0, 0)]
                        for _, c in hist:
                            if len(want) < size and all(d2(split(c), p) >= thr * thr for p in want):
                                want.append(split(c))
                        if [tuple(p) for p in r][:len(want)] != want or any(tuple(p) != (0, 0, 0) for p in r[len(want):]) or len(r) > size:
                            ctx.fail('makenewpalfromcolorhist', size=size, thr=thr, got=r[:9], want=want[:9])
                    ctx.trace()
    elif kind == 'refuse':
        for bits in (1, 4, 8):
            for nb in (1, 4, 8):
                img = mkimg(5, 3, bits)
                Path(src).write_bytes(bytes(mkbuf(img)))
                if os.path.exists(dst):
                    os.remove(dst)
                call(ctx, 'reduce24bitimagebits|refuse', B.reduce24bitimagebits, src, dst, nb, 10, True, (1, 1, 1))
                if os.path.exists(dst):
                    ctx.fail('reduce24bitimagebits|refuse', bits=bits)
                if Path(src).read_bytes() != bytes(mkbuf(img)):
                    ctx.fail('reduce24bitimagebits|refuse|source')
                ctx.trace()
                ctx.state((bits, nb))
