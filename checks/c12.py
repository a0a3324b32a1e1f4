"""Colour arithmetic, palette recipes, nearest-colour matching and the named-colour tables."""
from mc.core import *
from mc.gridop import *
from fractions import Fraction as Fr
import itertools, math

BOUNDS = {
    'quick': 'packing functions: all pairs of channel bytes with three values of the third; every luminosity 0..255 on a factor grid; nearest-colour search for a 9-step RGB cube '
             'and all palette entries on nine palettes; palette recipes at every depth, multiplier, shift and factor of a grid (with a few of tens and hundreds); every (luminosity, channel) pair for the '
             'single-colour adjustments; hue/saturation/lightness on a 17-step cube plus edges; every outcome of the dithering dice; all 1633 named colours',
    'thorough': 'as quick with seven values of the third channel, a 16-step matching cube and a 33-step hue cube'}

FACT = [0, 0.1, 0.25, 0.5, 0.7529411764705882, 1]


# nothing near the colours asked for
FARPALS = [[(0, 0, 0), (1, 0, 0), (0, 0, 1)], [(255, 255, 255), (255, 255, 254)], [(0, 255, 0), (1, 254, 1)], [(255, 0, 255), (254, 0, 255), (255, 1, 255)], [(128, 128, 128), (127, 127, 127)]]


def units(tier):
    u = [('pack', i) for i in range(8)] + [('mix', i) for i in range(4)] + [('match', i) for i in range(9 + len(FARPALS))] + [('match4',)]
    u += [('pal', b) for b in (1, 4, 8)] + [('dich',)] + [('adj', i) for i in range(8)] + [('hsl', i) for i in range(6)]
    u += [('dice',), ('split',), ('names', 'std'), ('names', 'x11'), ('names', 'xkcd'), ('adjdict',), ('misc',), ('interp',)]
    return u


def near_round(v, got):
    """got is v rounded to an integer (ties and float noise go either way)."""
    return abs(Fr(got) - v) <= Fr(1, 2) + Fr(1, 10 ** 9)


def near_floor(v, got):
    """got is v (>= 0) truncated, up to float noise at whole numbers."""
    return got == math.floor(v) or got == math.floor(v - Fr(1, 10 ** 9)) or got == math.floor(v + Fr(1, 10 ** 9))


def shade(i, bits):
    return i * 255 // ((1 << bits) - 1)


_t = ("aliceblue f0f8ff antiquewhite faebd7 aqua 00ffff azure f0ffff beige f5f5dc bisque ffe4c4 black 000000 blanchedalmond ffebcd blue 0000ff "
    "blueviolet 8a2be2 brown a52a2a burlywood deb887 cadetblue 5f9ea0 chartreuse 7fff00 chocolate d2691e coral ff7f50 cornflowerblue 6495ed cornsilk fff8dc crimson dc143c cyan 00ffff darkblue 00008b "
    "darkcyan 008b8b darkgoldenrod b8860b darkgray a9a9a9 darkgreen 006400 darkkhaki bdb76b darkmagenta 8b008b darkolivegreen 556b2f darkorange ff8c00 darkorchid 9932cc darkred 8b0000 darksalmon e9967a "
    "darkseagreen 8fbc8f darkslateblue 483d8b darkslategray 2f4f4f darkturquoise 00ced1 darkviolet 9400d3 deeppink ff1493 deepskyblue 00bfff dimgray 696969 dodgerblue 1e90ff firebrick b22222 "
    "floralwhite fffaf0 forestgreen 228b22 gainsboro dcdcdc ghostwhite f8f8ff gold ffd700 goldenrod daa520 greenyellow adff2f honeydew f0fff0 hotpink ff69b4 indianred cd5c5c indigo 4b0082 ivory fffff0 "
    "khaki f0e68c lavender e6e6fa lavenderblush fff0f5 lawngreen 7cfc00 lemonchiffon fffacd lightblue add8e6 lightcoral f08080 lightcyan e0ffff lightgoldenrodyellow fafad2 lightgray d3d3d3 lightgreen 90ee90 "
    "lightpink ffb6c1 lightsalmon ffa07a lightseagreen 20b2aa lightskyblue 87cefa lightslategray 778899 lightsteelblue b0c4de lightyellow ffffe0 limegreen 32cd32 linen faf0e6 magenta ff00ff maroon b03060 "
    "mediumaquamarine 66cdaa mediumblue 0000cd mediumorchid ba55d3 mediumpurple 9370db mediumseagreen 3cb371 mediumslateblue 7b68ee mediumspringgreen 00fa9a mediumturquoise 48d1cc mediumvioletred c71585 "
    "midnightblue 191970 mintcream f5fffa mistyrose ffe4e1 moccasin ffe4b5 navajowhite ffdead navy 000080 oldlace fdf5e6 olivedrab 6b8e23 orange ffa500 orangered ff4500 orchid da70d6 palegoldenrod eee8aa "
    "palegreen 98fb98 paleturquoise afeeee palevioletred db7093 papayawhip ffefd5 peachpuff ffdab9 peru cd853f pink ffc0cb plum dda0dd powderblue b0e0e6 purple a020f0 red ff0000 rosybrown bc8f8f "
    "royalblue 4169e1 saddlebrown 8b4513 salmon fa8072 sandybrown f4a460 seagreen 2e8b57 seashell fff5ee sienna a0522d skyblue 87ceeb slateblue 6a5acd slategray 708090 snow fffafa springgreen 00ff7f "
    "steelblue 4682b4 tan d2b48c thistle d8bfd8 tomato ff6347 turquoise 40e0d0 violet ee82ee wheat f5deb3 white ffffff whitesmoke f5f5f5 yellow ffff00 yellowgreen 9acd32 aquamarine 7fffd4 "
    "antiquewhite1 ffefdb antiquewhite4 8b8378 aquamarine2 76eec6 azure4 838b8b bisque3 cdb79e").split()
CSS = dict(zip(_t[::2], _t[1::2]))


def hsl(r, g, b):
    """(hue, sat, light) as exact fractions in degrees and percent."""
    R, G, B_ = Fr(r, 255), Fr(g, 255), Fr(b, 255)
    hi, lo = max(R, G, B_), min(R, G, B_)
    l = (hi + lo) / 2
    if hi == lo:
        return Fr(0), Fr(0), l * 100
    c = hi - lo
    s = c / (1 - abs(2 * l - 1))
    if hi == R:
        h = (G - B_) / c % 6
    elif hi == G:
        h = (B_ - R) / c + 2
    else:
        h = (R - G) / c + 4
    return h * 60, s * 100, l * 100


def lin(t):
    return [Fr(v) for v in t]


def run_unit(unit, ctx, tier):
    B = bind()
    from pythonbmp import colors as C
    q = tier == 'quick'
    kind = unit[0]
    if kind == 'pack':
        for a in range(unit[1], 256, 8):
            for b in range(256):
                for c in ((0, 255, 77) if q else (0, 1, 77, 127, 128, 200, 255)):
                    for r, g, bl in ((a, b, c), (c, a, b), (b, c, a)):
                        i = r * 65536 + g * 256 + bl
                        ok, v = call(ctx, 'RGB2int', C.RGB2int, r, g, bl)
                        if ok and v != i:
                            ctx.fail('RGB2int', rgb=(r, g, bl), got=v)
                        for nm, want in (('int2RGB', (r, g, bl)), ('int2RGBlist', [r, g, bl]), ('int2RGBarr', [r, g, bl]), ('int2BGRarr', [bl, g, r])):
                            ok, v = call(ctx, nm, getattr(C, nm), i)
                            if ok and (list(v) != list(want)):
                                ctx.fail(nm, value=i, got=list(v))
                        ok, v = call(ctx, 'RGB2BGRarr', C.RGB2BGRarr, r, g, bl)
                        if ok and list(v) != [bl, g, r]:
                            ctx.fail('RGB2BGRarr', rgb=(r, g, bl), got=list(v))
                        ctx.trace()
            ctx.state(a)
    elif kind == 'mix':
        fs = list(itertools.product(FACT, repeat=3))[unit[1]::4]
        fs += [(0.04, 0.9, 0.44), (0.99, 0.14, 0.009)][:unit[1]]
        for lum in range(256):
            for f in fs[lum % 3::3]:
                ok, v = call(ctx, 'colormix', C.colormix, lum, f)
                if ok and not all(near_floor(Fr(x) * lum, y) for x, y in zip(f, (v >> 16, v >> 8 & 255, v & 255))):
                    ctx.fail('colormix', lum=lum, factors=f, got=v)
                ok, v = call(ctx, 'RGBfactors2RGB', C.RGBfactors2RGB, f, lum)
                if ok and not all(near_round(Fr(x) * lum, y) for x, y in zip(f, v)):
                    ctx.fail('RGBfactors2RGB', lum=lum, factors=f, got=v)
                ctx.trace()
            ctx.state(lum)
    elif kind == 'match':
        pals = [stdpal(1), stdpal(4), stdpal(8), [(i * 17, i * 17, i * 17) for i in range(16)], [(255 - i, i, 128) for i in range(256)],
                [(0, 0, 0)], [(10, 10, 10), (10, 10, 10), (200, 0, 0)], [(255, 255, 255), (0, 0, 0)], [(i * 37 % 256, i * 91 % 256, i * 53 % 256) for i in range(64)],
                *FARPALS]
        pal = [list(p[:3]) for p in pals[unit[1]]]
        n = 8 if q else 15
        st = sorted({round(255 * i / n) for i in range(n + 1)})
        pts = list(itertools.product(st, repeat=3)) + [tuple(p) for p in pal]
        for p in pts:
            for mk in ((tuple,) if (p[0] + p[1]) % 2 else (list, lambda v: array('B', v))):
                ok, v = call(ctx, 'matchRGBtopal', C.matchRGBtopal, mk(p), [e[:] for e in pal])
                if ok:
                    d = [sum((a - b) ** 2 for a, b in zip(p, e)) for e in pal]
                    if not (isinstance(v, int) and 0 <= v < len(pal)) or d[v] != min(d):
                        ctx.fail('matchRGBtopal', palette=unit[1], rgb=p, got=v, nearest=d.index(min(d)))
            ctx.trace()
            ctx.state(p)
    elif kind == 'match4':
        for r, g, b in itertools.product((0, 1, 63, 64, 100, 127, 128, 191, 192, 255), repeat=3):
            want = (4 if r >= 64 else 0) | (2 if g >= 64 else 0) | (1 if b >= 64 else 0) | (8 if max(r, g, b) >= 128 else 0)
            ok, v = call(ctx, 'matchRGBtodefault4bitpal', C.matchRGBtodefault4bitpal, (r, g, b))
            if ok and v != want:
                ctx.fail('matchRGBtodefault4bitpal', rgb=(r, g, b), got=v, want=want)
            ctx.trace()
            ctx.state((r, g, b))
    elif kind == 'pal':
        bits = unit[1]
        n = 1 << bits
        for f in itertools.product((0, 0.3, 0.5, 1), repeat=3):
            ok, v = call(ctx, 'monochromepal', C.monochromepal, bits, f)
            if ok and (len(v) != n or not all(near_round(Fr(x) * shade(i, bits), y) for i, e in enumerate(v) for x, y in zip(f, e))):
                ctx.fail('monochromepal|b%d' % bits, factors=f, got=v[:20])
            for mult, shift in itertools.chain(itertools.product((1, 2, 20, -1), (0, 1, 128, -3)), ((4, 14), (14, 4), (44, 49), (-9, 254), (249, -44)) if bits < 8 or not q or sum(f) in (1, 2.3) else ()):
                if True:
                    for nm, order, inv in (('monoshiftablepal', (0, 1, 2), 0), ('monoinverseshiftablepal', (0, 1, 2), 1), ('monoinverseshiftableBGRpal', (2, 1, 0), 1),
                                           ('monoinverseshiftableBGRApal', (2, 1, 0, None), 1)):
                        ok, v = call(ctx, nm, getattr(C, nm), bits, f, mult, shift)
                        if not ok:
                            continue
                        bad = len(v) != n
                        if not bad:
                            for i, e in enumerate(v):
                                s = shade(i, bits)
                                s = ((255 - s if inv else s) * mult + shift) % 256
                                if len(e) != len(order) or not all((y == 0) if o is None else near_round(Fr(f[o]) * s, y) for o, y in zip(order, e)):
                                    bad = True
                                    break
                        if bad:
                            ctx.fail('%s|b%d' % (nm, bits), factors=f, mult=mult, shift=shift, got=v[:20])
                        ctx.trace()
            ctx.state((bits, f))
        ok, v = call(ctx, 'getdefaultbitpal', C.getdefaultbitpal, bits)
        if ok and [tuple(e[:3]) for e in v] != [tuple(e[:3]) for e in stdpal(bits)]:
            ctx.fail('getdefaultbitpal', bits=bits)
    elif kind == 'dich':
        for n in (2, 16, 256, 14, 44):
            for c1, c2 in itertools.permutations((0, 0xffffff, 0x123456, 0xff0080), 2):
                for mult, shift in itertools.chain(itertools.product((1, 3, -1), (0, 1, 5, -2)), itertools.product((4, 14, 44, -9), (4, 14, 49, -44, 299))):
                    if True:
                        ok, v = call(ctx, 'dichromaticpal', C.dichromaticpal, c1, c2, n, mult, shift)
                        if not ok:
                            continue
                        a, b = [(c >> 16, c >> 8 & 255, c & 255) for c in (c1, c2)]
                        w = [a] * n
                        for i in range(n):
                            w[((n - i) * mult + shift) % n] = [x + (y - x) * Fr(i, n) for x, y in zip(a, b)]
                        if len(v) != n or not all(near_round(x, y) for p, e in zip(w, v) for x, y in zip(p, e)):
                            ctx.fail('dichromaticpal', c1=c1, c2=c2, n=n, mult=mult, shift=shift, got=v[:8])
                        ctx.trace()
                        ctx.state((n, c1, c2, mult, shift))
    elif kind == 'adj':
        for m in range(unit[1], 256, 8):
            for c in range(0, m + 1):
                for rgb in ((m, c, c // 2), (c, m, m), (c // 3, c, m)):
                    if (m + c) % 3 and c not in (0, m):
                        continue
                    mx = max(rgb)
                    ok, v = call(ctx, 'RGBtoRGBfactorsandlum', C.RGBtoRGBfactorsandlum, rgb)
                    if ok:
                        f, l = v
                        if l != (mx or 1) or any(abs(Fr(a) - Fr(b, mx or 1)) > Fr(1, 10 ** 9) for a, b in zip(f, rgb)):
                            ctx.fail('RGBtoRGBfactorsandlum', rgb=rgb, got=v)
                        ok, v = call(ctx, 'RGBfactors2RGB', C.RGBfactors2RGB, f, l)
                        if ok and list(v) != list(rgb):
                            ctx.fail('RGBfactors2RGB|roundtrip', rgb=rgb, got=v)
                    ok, v = call(ctx, 'monochrome', C.monochrome, rgb)
                    if ok and (len(v) != 3 or len(set(v)) != 1 or not near_round(Fr(sum(rgb), 3), v[0])):
                        ctx.fail('monochrome', rgb=rgb, got=v)
                    for p in (-100, -40, 0, 25, 100, 300) + (() if q and c % 4 else (-4, -99, 4, 14, 44, 49, 404, 2544)):
                        ok, v = call(ctx, 'brightnessadjust', C.brightnessadjust, rgb, p)
                        if ok and not all(near_round(min(max(Fr(x) * (1 + Fr(p, 100)), 0), 255), y) for x, y in zip(rgb, v)):
                            ctx.fail('brightnessadjust', rgb=rgb, percent=p, got=v)
                    for lr in ((0, 255), (64, 192), (192, 64), (100, 100), (-50, 400)) + (() if q and c % 4 else ((4, 14), (244, 44), (9, 249), (-4, 254), (259, 4), (0, 0), (1, 999))):
                        lo, hi = sorted(min(max(x, 0), 255) for x in lr)
                        t = min(max(mx or 1, lo), hi)
                        ok, v = call(ctx, 'thresholdadjust', C.thresholdadjust, rgb, list(lr))
                        if ok and not all(near_round(Fr(x, mx or 1) * t, y) for x, y in zip(rgb, v)):
                            ctx.fail('thresholdadjust', rgb=rgb, range=lr, got=v)
                    for f in ((0, 0.5, 1), (1, 1, 1), (2, 0.25, 0.75), (4, 14, 0.1), (9, 44, 0.04), (0.9, 4.5, 19)):
                        ok, v = call(ctx, 'colorfilter', C.colorfilter, rgb, f)
                        if ok and not all(near_round(min(Fr(x) * Fr(k), 255), y) for x, k, y in zip(rgb, f, v)):
                            ctx.fail('colorfilter', rgb=rgb, factors=f, got=v)
                    for g in (0.5, 1, 2) if q and c % 5 else (0.5, 1, 2, 4, 9, 14, 0.14):
                        t = (mx or 1) / 255
                        t = [int(t ** g * 255 + e) for e in (-1e-9, 0, 1e-9)]
                        ok, v = call(ctx, 'gammacorrect', C.gammacorrect, rgb, g)
                        if ok and not any(all(near_round(Fr(x, mx or 1) * k, y) for x, y in zip(rgb, v)) for k in t):
                            ctx.fail('gammacorrect', rgb=rgb, gamma=g, got=v)
                    ctx.trace()
            for g in (0.25, 0.5, 1, 1.5, 2, 3, 4, 4.5, 9, 14, 0.04):
                ok, v = call(ctx, 'gammacorrectbyte', C.gammacorrectbyte, m, g)
                if ok and not any(v == int((m / 255) ** g * 255 + e) for e in (-1e-9, 0, 1e-9)):
                    ctx.fail('gammacorrectbyte', byte=m, gamma=g, got=v)
            ctx.state(m)
    elif kind == 'hsl':
        n = 16 if q else 32
        st = sorted({round(255 * i / n) for i in range(n + 1)} | {1, 2, 127, 128, 254})
        for r in st[unit[1]::6]:
            for g in st:
                for b in st:
                    ok, v = call(ctx, 'RGB2HSL', C.RGB2HSL, r, g, b)
                    if ok:
                        w = hsl(r, g, b)
                        h = near_round(w[0], v[0]) or near_round(w[0] + 360, v[0]) and v[0] == 360
                        if not (h and near_round(w[1], v[1]) and near_round(w[2], v[2])):
                            ctx.fail('RGB2HSL', rgb=(r, g, b), got=v, want=[float(x) for x in w])
                    ctx.trace()
                ctx.state((r, g))
    elif kind == 'dice':
        # random dithering: every outcome of every draw
        import random
        real, real_random = getattr(C, 'randint', None), random.randint
        try:
            for rgb in itertools.product((0, 1, 64, 127, 128, 129, 200, 255), repeat=3):
                for pick in itertools.product((0, 0.5, 0.51, 1), repeat=3):
                    it = iter(pick)
                    draws = []

                    def fake(a, b):
                        draws.append((a, b))
                        return a + int((b - a) * next(it, 1))
                    random.randint = fake
                    if real is not None:
                        C.randint = fake
                    ok, v = call(ctx, 'probplotRGBto4bitpal', C.probplotRGBto4bitpal, rgb)
                    if ok and draws:
                        top = (v & 8) // 8
                        bits = [v >> 2 & 1, v >> 1 & 1, v & 1]
                        bad = not 0 <= v <= 15 or top != (1 if max(rgb) >= 128 else 0)
                        # a dark channel is never lit (the draw cannot reach half of 256)
                        bad = bad or any(x <= 128 and t for x, t in zip(rgb, bits))
                        bad = bad or any(x > 128 and k == 1 and not t for x, k, t in zip(rgb, pick, bits)) or any(k == 0 and t for k, t in zip(pick, bits))
                        if bad:
                            ctx.fail('probplotRGBto4bitpal', rgb=rgb, draws=draws, got=v)
                    for br in (0.5, 1, 1.5, 0.04):
                        it = iter(pick)
                        del draws[:]
                        ok, v = call(ctx, 'probplotRGBto1bit', C.probplotRGBto1bit, rgb, br)
                        if ok and v not in (0, 1):
                            ctx.fail('probplotRGBto1bit', rgb=rgb, brightness=br, got=v)
                        if ok and draws and pick[0] == 0 and v:
                            ctx.fail('probplotRGBto1bit|zero draw', rgb=rgb, brightness=br, got=v)
                        if ok and draws and pick[0] == 1 and Fr(br) * sum(rgb) / 768 > Fr(51, 100) and not v:
                            ctx.fail('probplotRGBto1bit|full draw', rgb=rgb, brightness=br, got=v)
                    ctx.trace()
                ctx.state(rgb)
            # the same share of the range for every draw: each outcome of a draw is its own level
            for x in range(256):
                for rgb in ((x, x, x), (255 - x, x, 255), (x, 0, 255 - x)):
                    for step in range(256):
                        top = []

                        def share(a, b):
                            top.append(b)
                            return a + (b - a) * step // 255
                        random.randint = share
                        if real is not None:
                            C.randint = share
                        ok, v = call(ctx, 'probplotRGBto4bitpal|outcome', C.probplotRGBto4bitpal, rgb)
                        if ok and top:
                            want = sum(k for k, y in zip((4, 2, 1), rgb) if y * step // 255 > 128) + 8 * (max(rgb) > 127)
                            if sorted(top) == sorted(rgb) and v != want:
                                ctx.fail('probplotRGBto4bitpal|outcome', rgb=rgb, share=step, got=v, want=want)
                        if x % 5 == 0:
                            for br in (0.25, 1, 1.5, 2):
                                del top[:]
                                ok, v = call(ctx, 'probplotRGBto1bit|outcome', C.probplotRGBto1bit, rgb, br)
                                if ok and top == [sum(rgb)]:
                                    d = Fr(br) * (sum(rgb) * step // 255) / 768
                                    if abs(v - d) > Fr(1, 2):
                                        ctx.fail('probplotRGBto1bit|outcome', rgb=rgb, brightness=br, share=step, got=v)
                        ctx.trace()
                ctx.state(x)
        finally:
            random.randint = real_random
            if real is not None:
                C.randint = real
    elif kind == 'split':
        from pythonbmp import buffersplit as S
        for m in list(range(0, 25)) + [42, 60, 81, 84, 100, 126, 252, 280, 420, 540]:
            data = [(i * 7 + 3) & 255 for i in range(m)]
            for mk in (list, lambda d: array('B', d)):
                if m % 2 == 0:
                    ok, v = call(ctx, 'altsplitbuf', S.altsplitbuf, mk(data))
                    if ok and [list(p) for p in v] != [data[0::2], data[1::2]]:
                        ctx.fail('altsplitbuf', n=m, got=v)
                if m % 3 == 0:
                    ok, v = call(ctx, 'altsplitbuf3way', S.altsplitbuf3way, mk(data))
                    if ok and [list(p) for p in v] != [data[0::3], data[1::3], data[2::3]]:
                        ctx.fail('altsplitbuf3way', n=m, got=v)
                for n in list(range(1, 7)) + [9, 10, 14, 20]:
                    if m % n == 0 and m:
                        ok, v = call(ctx, 'altsplitbufnway', S.altsplitbufnway, mk(data), n)
                        if ok and [list(p) for p in v] != [data[i::n] for i in range(n)]:
                            ctx.fail('altsplitbufnway', n=(m, n), got=v)
            if m % 3 == 0:
                b = array('B', data)
                ok, _ = call(ctx, 'RGB2BGRbuf', C.RGB2BGRbuf, b)
                want = [data[i // 3 * 3 + 2 - i % 3] for i in range(m)]
                if ok and list(b) != want:
                    ctx.fail('RGB2BGRbuf', n=m, got=list(b))
                k = m // 3
                ok, v = call(ctx, 'makeBGRbuf', C.makeBGRbuf, data[:k], data[k:2 * k], data[2 * k:])
                want = [x for t in zip(data[:k], data[k:2 * k], data[2 * k:]) for x in t]
                if ok and list(v) != want:
                    ctx.fail('makeBGRbuf', n=m, got=list(v))
            b = array('B', data)
            ok, v = call(ctx, 'invertbitsinbuffer', C.invertbitsinbuffer, b)
            if ok and (list(v) != [x ^ 255 for x in data] or list(b) != data):
                ctx.fail('invertbitsinbuffer', n=m)
            ctx.trace()
            ctx.state(m)
        ok, v = call(ctx, 'RGB2BGRAlist', C.RGB2BGRAlist, [[1, 2, 3], (4, 5, 6)])
        if ok and [list(e) for e in v] != [[3, 2, 1, 0], [6, 5, 4, 0]]:
            ctx.fail('RGB2BGRAlist', got=v)
    elif kind == 'names':
        from pythonbmp import colordict as D, X11colordict as X, XKCDcolordict as K
        fh, fr, ff = {'std': (D.getcolorname2HSLdict, D.getcolorname2RGBdict, D.getRGBfactors), 'x11': (X.getX11colorname2HSLdict, X.getX11colorname2RGBdict, X.getX11RGBfactors),
                      'xkcd': (K.getXKCDcolorname2HSLdict, K.getXKCDcolorname2RGBdict, K.getXKCDRGBfactors)}[unit[1]]
        nm = unit[1]
        h, r, f = fh(), fr(), ff()
        if set(h) != set(r) or set(r) != set(f):
            ctx.fail('names|keys', table=nm, diff=sorted(set(h) ^ set(r) | set(r) ^ set(f))[:20])
        if len(r) != {'std': 34, 'x11': 676, 'xkcd': 923}[nm]:
            ctx.fail('names|count', table=nm, got=len(r))
        for k, v in r.items():
            ctx.trace()
            ctx.state((nm, k))
            if not (isinstance(v, int) and 0 <= v <= 0xffffff):
                ctx.fail('names|range|%s %s' % (nm, k), got=v)
                continue
            rgb = (v >> 16, v >> 8 & 255, v & 255)
            if k in f and (len(f[k]) != 3 or any(abs(a - c / 255) > 2e-6 for a, c in zip(f[k], rgb))):
                ctx.fail('names|factors|%s %s' % (nm, k), rgb=rgb, got=f[k])
            if k in h:
                w = hsl(*rgb)
                d = abs(w[0] - h[k][0])
                if min(d, 360 - d) > 1 or abs(w[1] - h[k][1]) > 1 or abs(w[2] - h[k][2]) > 1:
                    ctx.fail('names|hsl|%s %s' % (nm, k), rgb=rgb, got=h[k], want=[float(x) for x in w])
        if nm == 'x11':
            for k, v in CSS.items():
                if r.get(k) != int(v, 16):
                    ctx.fail('names|value|x11 %s' % k, got=r.get(k), want=int(v, 16))
            for i in range(101):
                for g in ('gray%d', 'grey%d'):
                    k = g % i
                    if k in r and not near_round(Fr(i * 255, 100), r[k] & 255) or k in r and r[k] % 0x10101:
                        ctx.fail('names|value|x11 %s' % k, got=r[k])
        for k, v in {'std': dict(black=0, brightwhite=0xffffff, brightred=0xff0000, brightgreen=0xff00, brightblue=0xff), 'x11': {}, 'xkcd': {}}[nm].items():
            if r[k] != v:
                ctx.fail('names|value|std %s' % k, got=r[k])
        # each call hands out its own table
        for fn in (fh, fr, ff):
            t = fn()
            k = next(iter(t))
            t[k] = None
            t.pop(sorted(t)[-1])
            if fn().get(k) is None or len(fn()) != len(r):
                ctx.fail('names|shared', table=nm, fn=fn.__name__)
        t = ff()
        k = next(iter(t))
        t[k][0] = 99
        if ff()[k][0] == 99:
            ctx.fail('names|shared', table=nm, fn=ff.__name__)
    elif kind == 'adjdict':
        from pythonbmp import colordict as D
        for bits in DEPTHS:
            buf = mkbuf(mkimg(3, 2, bits))
            before = bytes(buf)
            d = D.getcolorname2RGBdict()
            o = dict(d)
            ok, _ = call(ctx, 'adjustcolordicttopal|b%d' % bits, B.adjustcolordicttopal, buf, d)
            if not ok:
                continue
            if bytes(buf) != before:
                ctx.fail('adjustcolordicttopal|image changed', bits=bits)
            if set(d) != set(o):
                ctx.fail('adjustcolordicttopal|keys', bits=bits)
            pal = None if bits == 24 else [p[:3] for p in stdpal(bits)]
            for k, v in o.items():
                ctx.trace()
                ctx.state((bits, k))
                if bits == 24:
                    if d[k] != v:
                        ctx.fail('adjustcolordicttopal|b24', name=k, got=d[k])
                else:
                    rgb = (v >> 16, v >> 8 & 255, v & 255)
                    ds = [sum((a - b) ** 2 for a, b in zip(rgb, e)) for e in pal]
                    if not 0 <= d[k] < len(pal) or ds[d[k]] != min(ds):
                        ctx.fail('adjustcolordicttopal|b%d' % bits, name=k, got=d[k], nearest=ds.index(min(ds)))
    elif kind == 'misc':
        want = {'maxdesc': [255, 0], 'maxasc': [0, 255], 'middesc': [192, 64], 'midasc': [64, 192], 'upperdesc': [255, 128], 'upperasc': [128, 255], 'lowerdesc': [128, 0], 'lowerasc': [0, 128]}
        ok, v = call(ctx, 'getdefaultlumrange', C.getdefaultlumrange)
        if ok and {k: list(x) for k, x in v.items()} != want:
            ctx.fail('getdefaultlumrange', got=v)
        if ok:
            v['maxdesc'][0] = 1
            if C.getdefaultlumrange()['maxdesc'][0] != 255:
                ctx.fail('getdefaultlumrange|shared')
        for b in list(range(-2, 70)) + [256]:
            ok, v = call(ctx, 'isvalidcolorbit', C.isvalidcolorbit, b)
            if ok and bool(v) != (b in (1, 4, 8, 24)):
                ctx.fail('isvalidcolorbit', bits=b, got=v)
            ctx.trace()
            ctx.state(b)
        for f in itertools.product((0, 0.3, 1), repeat=3):
            for lr in ((0, 255), (200, 50), (128, 128)):
                ok, v = call(ctx, 'RGBfactorstoBaseandRange', C.RGBfactorstoBaseandRange, list(lr), list(f))
                if ok:
                    base, rng = v
                    if not all(near_floor(Fr(x) * lr[0], y) for x, y in zip(f, base)) or \
                            not all(abs(Fr(x) * lr[1] - y - z) < Fr(1, 10 ** 6) for x, y, z in zip(f, base, rng)):
                        ctx.fail('RGBfactorstoBaseandRange', factors=f, lumrange=lr, got=v)
                ctx.trace()
    elif kind == 'interp':
        lerp = lambda a, b, t: (1 - t) * a + t * b
        for a, b in itertools.product((0, 1, 100, 254, 255), repeat=2):
            for t in (0, 0.125, 0.25, 0.3, 0.5, 0.77, 1):
                ok, v = call(ctx, 'interpolateRGB', C.interpolateRGB, lerp, a, b, b, a, 7, a, t)
                w = [Fr(x) + (Fr(y) - x) * Fr(t) for x, y in ((a, b), (b, a), (7, a))]
                if ok and not (len(v) == 3 and all(near_round(x, y) for x, y in zip(w, v))):
                    ctx.fail('interpolateRGB', ends=(a, b), t=t, got=v)
                ctx.trace()
                ctx.state((a, b, t))
