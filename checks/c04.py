"""Palette operations: each touches exactly the entries it names, never pixels or header."""
from mc.core import *
from mc.gridop import *

BOUNDS = {
    'quick': 'every entry of every indexed depth, every channel value; every palette-rotation amount from -2n to 2n and the complete rotation cycle; '
             'the state graph of palettes reached by every sequence of five palette operations; every wrong list length 0..39 and around n; '
             'whole-palette recipes over factor and shift grids; every palette operation also on images to 1044 columns and 249 rows',
    'thorough': 'as quick with sequences of seven palette operations and denser recipe grids'}


def pal_k(bits, k):
    return [((i * 83 + 40 * k + 9) & 255, (i * 29 + 200 + k) & 255, (i * 151 + 7 * k) & 255, (i * 5 + k + 1) & 255 if k else 0) for i in range(1 << bits)]


def units(tier):
    u = []
    for bits in (1, 4, 8):
        u += [('entry', bits), ('lists', bits), ('shift', bits), ('recipe', bits), ('copy', bits), ('seq', bits), ('match', bits), ('hist', bits)]
    u += [('wide', b) for b in (1, 4, 8)]
    u.append(('guard24',))
    return u


def base(bits, k=1):
    img = mkimg(5, 2, bits, pal=pal_k(bits, k))
    return img, mkbuf(img)


def expect(ctx, sig, buf, img, pal, **d):
    """buf must be img with palette pal (4 components compared)."""
    want = Img(img.w, img.h, img.bits, img.px, pal)
    wb = bytes(mkbuf(want))
    if bytes(buf) != wb:
        g = bytes(buf)
        ctx.fail(sig, diff=[(i, p, q) for i, (p, q) in enumerate(zip(wb, g)) if p != q][:8], length=(len(wb), len(g)), **d)
        return False
    return True


def rot(pal, s):
    s %= len(pal)
    return pal[s:] + pal[:s]


def run_unit(unit, ctx, tier):
    B = bind()
    from pythonbmp import colors as C
    kind = unit[0]
    if kind == 'entry':
        bits = unit[1]
        n = 1 << bits
        img, buf = base(bits)
        for i in range(n):
            ctx.step(2)
            if list(B.getRGBpal(buf, i)) != list(img.pal[i][:3]):
                ctx.fail('getRGBpal|b%d' % bits, entry=i, expected=img.pal[i], got=B.getRGBpal(buf, i))
            vals = [(v, (v * 3 + i) & 255, 255 - v) for v in (range(256) if bits < 8 else range(i % 7, 256, 37))] + [(0, 0, 255), (255, 0, 0), (0, 255, 0)]
            for rgb in vals:
                b = buf[:]
                ok, _ = call(ctx, 'setRGBpal|b%d' % bits, B.setRGBpal, b, i, *rgb)
                want = list(img.pal)
                want[i] = rgb + (img.pal[i][3],)
                if ok and expect(ctx, 'setRGBpal|b%d' % bits, b, img, want, entry=i, rgb=rgb):
                    if list(B.getRGBpal(b, i)) != list(rgb):
                        ctx.fail('setRGBpal read back|b%d' % bits, entry=i, rgb=rgb)
                ctx.state((bits, i, rgb))
            ctx.trace()
        if [list(p) for p in B.getallRGBpal(buf)] != [list(p[:3]) for p in img.pal]:
            ctx.fail('getallRGBpal|b%d' % bits)
        if B.getmaxcolors(buf) != n:
            ctx.fail('getmaxcolors|b%d' % bits)
        # default palette recognised exactly
        std = mkbuf(mkimg(5, 2, bits))
        if B.isdefaultpal(std) is not True:
            ctx.fail('isdefaultpal|b%d' % bits)
        for i in range(n):
            for ch in range(3):
                b = std[:]
                b[54 + 4 * i + ch] ^= 1
                ctx.step()
                if B.isdefaultpal(b) is not False:
                    ctx.fail('isdefaultpal changed|b%d' % bits, entry=i, channel=ch)
    elif kind == 'lists':
        bits = unit[1]
        n = 1 << bits
        img, buf = base(bits)
        lens = sorted(set(range(0, min(2 * n + 2, 40))) | {n - 1, n, n + 1, 2 * n, 256, 0})
        full = pal_k(bits, 3)
        lists = [[full[i % n] for i in range(ln)] for ln in lens]
        # the palette it already has, one colour throughout, and one odd entry at every place
        lists.append(list(img.pal))
        for v in (0, 1, 127, 128, 255):
            lists.append([(v, v, v, v)] * n)
            for i in range(n):
                lists.append([(v, v, v, 255 - v) if j == i else full[j] for j in range(n)])
                if bits < 8:
                    lists.append([(v, v, v, v) if j == i else img.pal[j] for j in range(n)])
                    lists.append([img.pal[(j + 1) % n] if j == i else img.pal[j] for j in range(n)])
        for src in lists:
            ln = len(src)
            a = [p[3] for p in img.pal]
            for name, data, want in (
                    ('setbmppal', [list(p[:3]) for p in src], [p[:3] + (x,) for p, x in zip(src, a)]),
                    ('setbmppalwithBGRlist', [[p[2], p[1], p[0]] for p in src], [p[:3] + (x,) for p, x in zip(src, a)]),
                    ('setbmppalwithBGRAlist', [[p[2], p[1], p[0], p[3]] for p in src], src)):
                b = buf[:]
                keep = [list(x) for x in data]
                ok, _ = call(ctx, name + '|b%d' % bits, getattr(B, name), b, data)
                if ok:
                    expect(ctx, name + '|b%d' % bits, b, img, want if ln == n else img.pal, entries=ln)
                    if [list(x) for x in data] != keep:
                        ctx.fail(name + '|argument changed')
                ctx.trace()
                ctx.state((bits, name, ln))
    elif kind == 'shift':
        bits = unit[1]
        n = 1 << bits
        img, buf = base(bits)
        if bits == 1:
            for s in (0, 1, 2, 5):
                b = buf[:]
                call(ctx, 'palshift|b1', B.palshift, b, s)
                expect(ctx, 'palshift|b1', b, img, img.pal, shift=s)
            return
        for s in range(-2 * n, 2 * n + 1):
            b = buf[:]
            ok, _ = call(ctx, 'palshift|b%d' % bits, B.palshift, b, s)
            if ok:
                # the amount counts by magnitude, modulo the number of colours
                expect(ctx, 'palshift|b%d' % bits, b, img, rot(img.pal, abs(s)), shift=s)
            ctx.state((bits, s))
            ctx.trace()
        b = buf[:]
        call(ctx, 'palshift default|b%d' % bits, B.palshift, b)
        expect(ctx, 'palshift default|b%d' % bits, b, img, rot(img.pal, 1))
        for s in range(n):
            b = buf[:]
            B.palshift(b, s)
            B.palshift(b, n - s)
            expect(ctx, 'palshift there and back|b%d' % bits, b, img, img.pal, shift=s)
        b = buf[:]
        k = 0
        for k, f in enumerate(B.itercolorcycle(b)):
            ctx.step()
            if not expect(ctx, 'itercolorcycle|b%d' % bits, f, img, rot(img.pal, k), frame=k):
                break
            if k > n:
                break
        if k != n - 1:
            ctx.fail('itercolorcycle frames|b%d' % bits, expected=n, got=k + 1)
        ctx.sample('palette rotations -%d..%d and the %d-frame cycle at %d bits' % (2 * n, 2 * n, n, bits))
    elif kind == 'recipe':
        bits = unit[1]
        n = 1 << bits
        img, buf = base(bits)
        lum = [round(i * 255 / (n - 1)) for i in range(n)]
        lv = (0, 0.25, 0.5, 1) if tier == 'quick' else (0, 0.1, 0.25, 0.5, 0.75, 0.9, 1)
        for r in lv:
            for g in lv:
                for bl in lv:
                    f = (r, g, bl)
                    b = buf[:]
                    ok, ret = call(ctx, 'setBMP2monochrome|b%d' % bits, B.setBMP2monochrome, b, list(f))
                    want = [tuple(round(c * l) for c in f) for l in lum]
                    if ok:
                        expect(ctx, 'setBMP2monochrome|b%d' % bits, b, img, [p + (q[3],) for p, q in zip(want, img.pal)], factors=f)
                        if [tuple(p) for p in ret] != want:
                            ctx.fail('setBMP2monochrome returned|b%d' % bits, factors=f)
                    for mult, shift in ((20, 0), (1, 0), (1, 77), (3, 200), (7, 5)):
                        b = buf[:]
                        ok, _ = call(ctx, 'setBMP2invshiftedmonochrome|b%d' % bits, B.setBMP2invshiftedmonochrome, b, f, mult, shift)
                        want = [tuple(round(c * (((255 - l) * mult + shift) % 256)) for c in f) + (0,) for l in lum]
                        if ok:
                            expect(ctx, 'setBMP2invshiftedmonochrome|b%d' % bits, b, img, want, factors=f, mult=mult, shift=shift)
                    ctx.state((bits, f))
                    ctx.trace()
        for c1 in (0, 0xFFFFFF, 0x102030, 0xFF8001):
            for c2 in (0, 0xFFFFFF, 0x405060, 0x00FF7F):
                b = buf[:]
                ok, _ = call(ctx, 'setBMP2dichromaticpal|b%d' % bits, B.setBMP2dichromaticpal, b, c1, c2)
                x, y = [(c >> 16, c >> 8 & 255, c & 255) for c in (c1, c2)]
                want = [None] * n
                for i in range(n):
                    want[(n - i) * 3 % n] = tuple(round(p + (q - p) * (i / n)) for p, q in zip(x, y)) + (0,)
                want = [x + (0,) if p is None else p for p in want]
                if ok:
                    expect(ctx, 'setBMP2dichromaticpal|b%d' % bits, b, img, want, colors=(c1, c2))
                ctx.state((bits, c1, c2))
                ctx.trace()
        # a brightness-adjusted palette is computed, the image stays as it was
        for k in (1, 2):
            img, buf = base(bits, k)
            for pct in (-100, -60, -10, 0, 10, 50, 100, 400):
                b = buf[:]
                ok, ret = call(ctx, 'RGBpalbrightnessadjust|b%d' % bits, B.RGBpalbrightnessadjust, b, pct)
                expect(ctx, 'RGBpalbrightnessadjust image|b%d' % bits, b, img, img.pal)
                if ok:
                    for p, q in zip(img.pal, ret):
                        ideal = [min(max(c * (1 + pct / 100), 0), 255) for c in p[:3]]
                        if len(ret) != n or any(abs(a - c) > 0.51 for a, c in zip(ideal, q)):
                            ctx.fail('RGBpalbrightnessadjust|b%d' % bits, percent=pct, entry=p, got=q)
                ctx.trace()
    elif kind == 'copy':
        bits = unit[1]
        for k in (0, 1, 2):
            a_img, a = base(bits, k)
            b_img = mkimg(3, 4, bits, pal=pal_k(bits, 4))
            b = mkbuf(b_img)
            keep = bytes(a)
            ok, _ = call(ctx, 'copyRGBpal|b%d' % bits, B.copyRGBpal, a, b)
            if ok:
                expect(ctx, 'copyRGBpal|b%d' % bits, b, b_img, a_img.pal)
            ok, c = call(ctx, 'copyBMPhdr|b%d' % bits, B.copyBMPhdr, a)
            if ok:
                blank = Img(a_img.w, a_img.h, bits, None, a_img.pal)
                expect(ctx, 'copyBMPhdr|b%d' % bits, c, blank, a_img.pal)
                c[60] ^= 1
            if bytes(a) != keep:
                ctx.fail('palette copy|source changed|b%d' % bits)
            ctx.state((bits, k))
            ctx.trace()
    elif kind == 'seq':
        # every sequence of palette operations (breadth-first over reached palettes)
        bits = unit[1]
        n = 1 << bits
        img, buf = base(bits)
        ops = [('set0', lambda b: B.setRGBpal(b, 0, 1, 2, 3), lambda p: [(1, 2, 3, p[0][3])] + p[1:]),
               ('setlast', lambda b: B.setRGBpal(b, n - 1, 250, 0, 9), lambda p: p[:-1] + [(250, 0, 9, p[-1][3])]),
               ('std', lambda b: B.setbmppal(b, [list(q[:3]) for q in stdpal(bits)]), lambda p: [q[:3] + (x[3],) for q, x in zip(stdpal(bits), p)]),
               ('bad', lambda b: B.setbmppal(b, [[1, 2, 3]] * (n - 1)), lambda p: p),
               ('shift1', lambda b: B.palshift(b), lambda p: p if bits == 1 else rot(p, 1)),
               ('shift5', lambda b: B.palshift(b, 5), lambda p: p if bits == 1 else rot(p, 5)),
               ('mono', lambda b: B.setBMP2monochrome(b, [1, 1, 1]), lambda p: [(v, v, v, x[3]) for v, x in zip([round(i * 255 / (n - 1)) for i in range(n)], p)]),
               ('bgra', lambda b: B.setbmppalwithBGRAlist(b, [[q[2], q[1], q[0], q[3]] for q in pal_k(bits, 5)]), lambda p: pal_k(bits, 5))]
        frontier = [(img.pal, ())]
        seen = {tuple(img.pal)}
        for depth in range(5 if tier == 'quick' else 7):
            nxt = []
            for pal, hist in frontier:
                b0 = mkbuf(Img(img.w, img.h, bits, img.px, pal))
                for name, f, m in ops:
                    b = b0[:]
                    ok, _ = call(ctx, 'seq|b%d|%s' % (bits, name), f, b)
                    want = m(list(pal))
                    if ok and expect(ctx, 'seq|b%d|%s' % (bits, name), b, img, want, history=hist):
                        if [tuple(q) for q in B.getallRGBpal(b)] != [q[:3] for q in want]:
                            ctx.fail('seq|b%d|read' % bits, history=hist + (name,))
                        if tuple(want) not in seen:
                            seen.add(tuple(want))
                            nxt.append((want, hist + (name,)))
                    ctx.trace()
            frontier = nxt
        for s in seen:
            ctx.state(s)
        ctx.sample('%d-bit palette state graph: %d palettes' % (bits, len(seen)))
    elif kind == 'match':
        # replacing colours of a dictionary by palette positions picks a nearest entry
        bits = unit[1]
        for k in (0, 1):
            img, buf = base(bits, k) if k else (mkimg(5, 2, bits), mkbuf(mkimg(5, 2, bits)))
            for c0 in range(0, 1 << 24, 0x0A0705 if bits < 8 else 0x1A0705):
                d = {'a': c0, 'b': c0 ^ 0xFFFFFF}
                e = dict(d)
                ok, _ = call(ctx, 'adjustcolordicttopal|b%d' % bits, B.adjustcolordicttopal, buf, e)
                if not ok:
                    continue
                for key in d:
                    rgb = (d[key] >> 16, d[key] >> 8 & 255, d[key] & 255)
                    ds = [sum((a - b) ** 2 for a, b in zip(p, rgb)) for p in [q[:3] for q in img.pal]]
                    if e[key] not in range(1 << bits) or ds[e[key]] != min(ds):
                        ctx.fail('adjustcolordicttopal|b%d' % bits, rgb=rgb, got=e[key], best=ds.index(min(ds)))
                ctx.state((bits, k, c0))
                ctx.trace()
    elif kind == 'hist':
        # palettes rebuilt from another image's colours
        bits = unit[1]
        n = 1 << bits
        src = mkimg(6, 3, 24, [[[0xFF0000, 0x00FF00, 0x0000FF, 0xFFFFFF, 0x804020, 0xFF0000][x] if y < 2 else 0xFF0000 for x in range(6)] for y in range(3)])
        for thr in (1, 40, 200, 1000):
            img, buf = base(bits, 0)
            s = mkbuf(src)
            ok, newpal = call(ctx, 'setnewpalfromsourcebmp|b%d' % bits, B.setnewpalfromsourcebmp, s, buf, thr)
            if not ok:
                continue
            if bytes(s) != bytes(mkbuf(src)):
                ctx.fail('setnewpalfromsourcebmp|source changed')
            np = [tuple(p) for p in newpal]
            if len(np) > n or np[0] != (0, 0, 0):
                ctx.fail('setnewpalfromsourcebmp|size', got=np)
            cols = {(c >> 16, c >> 8 & 255, c & 255) for r in src.px for c in r}
            for i, p in enumerate(np):
                if i and p not in cols:
                    ctx.fail('setnewpalfromsourcebmp|foreign colour', got=p)
                for q in np[:i]:
                    if sum((a - b) ** 2 for a, b in zip(p, q)) ** .5 < thr - 1e-9:
                        ctx.fail('setnewpalfromsourcebmp|too similar', pair=(p, q), threshold=thr)
            # entries beyond the palette found are unused: any colour will do there
            got = decode(buf).pal
            want = [p + (q[3],) for p, q in zip(np, img.pal)] + [g[:3] + (q[3],) for g, q in zip(got, img.pal)][len(np):]
            expect(ctx, 'setnewpalfromsourcebmp|b%d' % bits, buf, img, want, threshold=thr)
            # greedy maximality: a colour left out is either too similar to a kept one or the palette is full
            if len(np) < n:
                for c in cols:
                    if all(sum((a - b) ** 2 for a, b in zip(c, q)) ** .5 >= thr for q in np):
                        ctx.fail('setnewpalfromsourcebmp|colour missing', colour=c, threshold=thr)
            ctx.state((bits, thr))
            ctx.trace()
    elif kind == 'wide':
        # every palette operation on wide and tall images
        bits = unit[1]
        n = 1 << bits
        lum = [round(i * 255 / (n - 1)) for i in range(n)]
        std = [tuple(q[:3]) for q in stdpal(bits)]
        for w, h in ((75, 2), (94, 3), (144, 9), (249, 4), (499, 1), (4, 94), (9, 249), (1044, 14)):
            img = mkimg(w, h, bits, pal=pal_k(bits, 1))
            buf = mkbuf(img)
            a = [p[3] for p in img.pal]
            new = pal_k(bits, 3)
            cases = [('palshift', lambda b, s=s: B.palshift(b, s), img.pal if bits == 1 else rot(img.pal, abs(s))) for s in (0, 1, 4, 5, 9, -9, 14, -14, 44, 99, 149, 254, 444)]
            for i in sorted({0, 1, n - 1, n // 2} | {i for i in (4, 9, 14, 44, 49, 94, 149, 249) if i < n}):
                want = list(img.pal)
                want[i] = (9, 44, 249, a[i])
                cases.append(('setRGBpal', lambda b, i=i: B.setRGBpal(b, i, 9, 44, 249), want))
                if list(B.getRGBpal(buf, i)) != list(img.pal[i][:3]):
                    ctx.fail('getRGBpal|wide|b%d' % bits, entry=i, size=(w, h))
            cases += [('setbmppal', lambda b: B.setbmppal(b, [list(p[:3]) for p in new]), [p[:3] + (x,) for p, x in zip(new, a)]),
                      ('setbmppal wrong length', lambda b: B.setbmppal(b, [list(p[:3]) for p in new][1:]), img.pal),
                      ('setbmppalwithBGRlist', lambda b: B.setbmppalwithBGRlist(b, [[p[2], p[1], p[0]] for p in new]), [p[:3] + (x,) for p, x in zip(new, a)]),
                      ('setbmppalwithBGRAlist', lambda b: B.setbmppalwithBGRAlist(b, [[p[2], p[1], p[0], p[3]] for p in new]), new)]
            for f in ((1, 1, 1), (0.44, 0.9, 0.04)):
                cases.append(('setBMP2monochrome', lambda b, f=f: B.setBMP2monochrome(b, list(f)), [tuple(round(c * l) for c in f) + (x,) for l, x in zip(lum, a)]))
                for mult, shift in ((4, 14), (14, 9), (9, 44), (44, 149)):
                    cases.append(('setBMP2invshiftedmonochrome', lambda b, f=f, m=mult, t=shift: B.setBMP2invshiftedmonochrome(b, f, m, t),
                                  [tuple(round(c * (((255 - l) * mult + shift) % 256)) for c in f) + (0,) for l in lum]))
            for nm, op, want in cases:
                b = buf[:]
                ok, _ = call(ctx, nm + '|wide|b%d' % bits, op, b)
                if ok:
                    expect(ctx, nm + '|wide|b%d' % bits, b, img, want, size=(w, h))
                ctx.trace()
            if [list(p) for p in B.getallRGBpal(buf)] != [list(p[:3]) for p in img.pal] or B.getmaxcolors(buf) != n or B.isdefaultpal(buf) is not False or B.isdefaultpal(mkbuf(mkimg(w, h, bits))) is not True:
                ctx.fail('getallRGBpal|wide|b%d' % bits, size=(w, h))
            for pct in (-94, -4, 4, 9, 14, 44, 149, 999):
                b = buf[:]
                ok, ret = call(ctx, 'RGBpalbrightnessadjust|wide|b%d' % bits, B.RGBpalbrightnessadjust, b, pct)
                if ok and (bytes(b) != bytes(buf) or len(ret) != n or any(abs(min(max(c * (1 + pct / 100), 0), 255) - v) > 0.51 for p, q in zip(img.pal, ret) for c, v in zip(p[:3], q))):
                    ctx.fail('RGBpalbrightnessadjust|wide|b%d' % bits, percent=pct, size=(w, h))
            o_img = mkimg(3, 4, bits, pal=pal_k(bits, 4))
            o = mkbuf(o_img)
            ok, _ = call(ctx, 'copyRGBpal|wide|b%d' % bits, B.copyRGBpal, buf, o)
            if ok:
                expect(ctx, 'copyRGBpal|wide|b%d' % bits, o, o_img, img.pal, size=(w, h))
            o = mkbuf(o_img)
            b = buf[:]
            ok, _ = call(ctx, 'copyRGBpal|wide|b%d' % bits, B.copyRGBpal, o, b)
            if ok:
                expect(ctx, 'copyRGBpal|wide|b%d' % bits, b, img, o_img.pal, size=(w, h))
            ok, c = call(ctx, 'copyBMPhdr|wide|b%d' % bits, B.copyBMPhdr, buf)
            if ok:
                expect(ctx, 'copyBMPhdr|wide|b%d' % bits, c, Img(w, h, bits, None, img.pal), img.pal, size=(w, h))
            ctx.state((bits, w, h))
    elif kind == 'guard24':
        img = mkimg(3, 2, 24)
        b = mkbuf(img)
        keep = bytes(b)
        call(ctx, 'palshift|b24', B.palshift, b, 1)
        if bytes(b) != keep:
            ctx.fail('palshift|b24 changed')
        d = {'a': 0x123456}
        call(ctx, 'adjustcolordicttopal|b24', B.adjustcolordicttopal, b, d)
        if d != {'a': 0x123456} or bytes(b) != keep:
            ctx.fail('adjustcolordicttopal|b24')
        ctx.trace()
