"""File-to-file functions: the written file is exactly the in-memory operation applied to the source."""
import random, shutil, tempfile
from pathlib import Path
from mc.core import *

BOUNDS = {
    'quick': 'all 78 file-to-file functions x four depths x image sizes x parameters x destination absent / longer file present / same file as the source / str and Path; '
             'missing source for each; every ordered pair of 22 functions chained through files against the in-memory composition; '
             'autocrop and crop-by-boundary on every rectangle of a small image; every function on rectangles and circles far from the origin of a 301x283 image',
    'thorough': 'as quick with more sizes and contents, and chains at two sizes'}

RECTS = [(1, 0, 6, 3), (0, 0, 8, 4), (5, 4, 2, 1), (3, 2, 3, 2)]
BADRECTS = [(-1, 0, 3, 3), (0, 0, 99, 2)]
CIRCS = [(4, 2, 2), (4, 2, 1), (5, 2, 0)]
BADCIRCS = [(0, 0, 3), (40, 2, 3)]
# whole-image in place: file function, operation
WHOLE = dict(invertbits='invertimagebits', flipvertical=0, mirrortop=0, mirrortopleft=0, mirrortopright=0, mirrorbottomleft=0, mirrorbottomright=0, mirrorbottom=0,
             mirrorleft=0, mirrorright=0, fliphorizontal=0, outline=0)
REG = {k: 0 for k in ('flipverticalregion fliphorizontalregion mirrorleftinregion mirrorrightinregion mirrortopinregion mirrorbottominregion mirrortopleftinregion '
                      'mirrortoprightinregion mirrorbottomleftinregion mirrorbottomrightinregion invertregion outlineregion').split()}
REGP = dict(eraseeverynthhorilineinregion=(0, [(2,), (3,)]), rectangle=(0, [(3,), (1,)]), filledrect=(0, [(2,), (1,)]),
            filledgradrect=(0, [([0, 255], (0.5, 1, 0.2), 0), ([200, 10], (1, 1, 1), 1)]), filleddichromaticgradrect=(0, [(0x000AFA, 0xC8141E, 0), (0xFFFFFF, 0, 1)]))
REG24 = dict(adjustbrightnessinregion=('brightnesseadjto24bitregion', [(40,), (-30,)]), adjustthresholdinregion=('thresholdadjto24bitregion', [([30, 180],)]),
             colorfilterinregion=('colorfilterto24bitregion', [([1, 0.5, 0],)]), monofilterinregion=('monofilterto24bitregion', [()]),
             gammaadjtoregion=('gammaadjto24bitregion', [(0.7,)]), horizontalbrightnessgradregion=('horizontalbrightnessgradto24bitregion', [([0, 255],)]),
             verticalbrightnessgradregion=('verticalbrightnessgradto24bitregion', [([200, 20],)]))
ADJ = dict(adjustbrightness=('brightnesseadjto24bitimage', [40, -60, 94, 9], 'brightnessadjust'), thresholdadjust=('thresholdadjto24bitimage', [[60, 160], [4, 44], [199, 9]], 'thresholdadjust'),
           colorfilter=('colorfilterto24bitimage', [[1, 0.5, 0.25], [0, 0.9, 0.04]], 'colorfilter'), gammaadj=('gammaadjto24bitimage', [0.6, 4, 9, 14], 'gammacorrect'), monochrome=('monofilterto24bitimage', None, 'monochrome'))
FN24 = dict(pixelizenxnto=('pixelizenxn', [2, 3]), resizeNtimessmaller=(0, [2, 3]), resizeNtimesbigger=(0, [2, 3]))
FN = dict(flipXY=0, upgradeto24bitimage=0)
CLR24 = dict(horizontalbrightnessgrad=('horizontalbrightnessgradto24bitimage', [[0, 200]]), verticalbrightnessgrad=('verticalbrightnessgradto24bitimage', [[255, 30]]))
CIRC = {k: 0 for k in ('invertbitsincircregion flipvertcircregion mirrortopincircregion mirrorbottomincircregion mirrorleftincircregion mirrorrightincircregion '
                       'mirrortopleftincircregion mirrorbottomleftincircregion mirrortoprightincircregion mirrorbottomrightincircregion fliphoricircregion outlinecircregion flipXYcircregion').split()}
CIRCP = dict(filledcircle=(0, [3, 1]), circle=(0, [2, 1]), eraseeverynthhorilineinccircregion=('eraseeverynthhorizontallineinccircregion', [2, 3]), magnifyNtimescircregion=(0, [2]),
             pixelizenxncircregion=(0, [2]), copycircregion=(0, [(2, 2), (6, 3)]))
CIRC24 = dict(monochromecircregion=('monocircle', [()]), colorfiltercircregion=(0, [([1, 0, 0.5],)]), thresholdadjcircregion=(0, [([50, 120],)]), gammacorrectcircregion=(0, [(0.5,)]),
              brightnessadjcircregion=(0, [(35,)]), vertbrightnessgrad2circregion=(0, [([0, 255],)]), horibrightnessgrad2circregion=(0, [([255, 0],)]),
              thickencirclearea=(0, [((1, 0.5, 0.5),)]), sphere=(0, [((0.5, 1, 0.5),), ((1, 1, 1), 'smoothstep')]))


def table():
    """[(file function, operation, how, [argument tuples], only24)]"""
    t = []

    def add(fn, op, how, args, only=False):
        base = fn if fn.endswith('to') else fn + '2'
        t.append((base + 'file', op or fn, how, args, only))
    for k, v in WHOLE.items():
        add(k, v, 'in', [()])
    add('palshift', 0, 'in', [(1,), (3,), (-1,)])
    add('eraseeverynthhoriline', 'eraseeverynthhorizontalline', 'in', [(2,), (3,)])
    for k, v in REG.items():
        add(k, v, 'in', RECTS + BADRECTS)
    for k, (v, ps) in REGP.items():
        add(k, v, 'in', [r + p for r in RECTS + BADRECTS for p in ps])
    for k, (v, ps) in REG24.items():
        add(k, v, 'in', [r + p for r in RECTS + BADRECTS for p in ps], True)
    for k, v in CIRC.items():
        add(k, v, 'in', CIRCS + BADCIRCS)
    for k, (v, ps) in CIRCP.items():
        add(k, v, 'in', [c + (p,) for c in CIRCS + BADCIRCS for p in ps])
    for k, (v, ps) in CIRC24.items():
        add(k, v, 'in', [c + p for c in CIRCS + BADCIRCS for p in ps], True)
    for k, (v, ps) in CLR24.items():
        add(k, v, 'in', [(p,) for p in ps], True)
    for k, (v, ps) in FN24.items():
        add(k, v, 'ret', [(p,) for p in ps], True)
    for k, v in FN.items():
        add(k, v, 'ret', [()])
    t.append(('cropBMPandsave', 'crop', 'ret', RECTS + BADRECTS, False))
    t.append(('fern2file', 'fern', 'rnd', [(0, 0, 8, 4, 1), (1, 1, 6, 4, 3)], False))
    return t


def units(tier):
    n = len(table())
    u = [('op', i, b) for i in range(n) for b in DEPTHS]
    u += [('adj', k, b) for k in ADJ for b in DEPTHS] + [('missing',), ('notbmp',)] + [('chain', i, b) for i in range(len(CHAIN)) for b in DEPTHS]
    u += [('bound', b) for b in DEPTHS] + [('autocrop', b) for b in DEPTHS] + [('shape',)]
    return u


CHAIN = [('invertbits2file', ()), ('flipvertical2file', ()), ('fliphorizontal2file', ()), ('mirrortopleft2file', ()), ('mirrorright2file', ()), ('flipXY2file', ()),
         ('outline2file', ()), ('palshift2file', (1,)), ('eraseeverynthhoriline2file', (3,)), ('invertregion2file', (0, 1, 3, 2)), ('flipverticalregion2file', (1, 0, 3, 3)),
         ('rectangle2file', (0, 0, 2, 3, 1)), ('filledrect2file', (1, 1, 3, 3, 0)), ('circle2file', (2, 2, 1, 1)), ('filledcircle2file', (2, 2, 1, 1)),
         ('invertbitsincircregion2file', (2, 2, 1)), ('flipvertcircregion2file', (2, 2, 1)), ('upgradeto24bitimage2file', ()), ('cropBMPandsave', (0, 0, 4, 3)),
         ('adjustbrightnessinregion2file', (0, 0, 2, 2, 30)), ('resizeNtimesbigger2file', (2,)), ('resizeNtimessmaller2file', (2,))]


CLIPPED = ('circle2file', 'filledcircle2file', 'invertbitsincircregion2file', 'outlinecircregion2file', 'sphere2file', 'thickencirclearea2file')


def tails(t):
    """The parameters as given, and for a single small count also two larger ones."""
    return [t] if len(t) != 1 or type(t[0]) != int or not 1 < t[0] < 4 else [t, (4,), (14,)]


def run_unit(unit, ctx, tier):
    d = tempfile.mkdtemp(prefix='c14')
    try:
        go(unit, ctx, tier, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def args_of(args):
    from pythonbmp.mathlib import smoothstep
    return tuple(smoothstep if a == 'smoothstep' else (list(a) if isinstance(a, list) else a) for a in args)


def expected(ctx, B, op, how, buf, args, only):
    """Bytes the destination must hold, or None when nothing may be written; False on error."""
    b = buf[:]
    if only and b[28] != 24:
        return None
    if how == 'rnd':
        random.seed(7)
    ok, r = call(ctx, 'in-memory %s' % op, getattr(B, op), b, *args)
    if not ok:
        return False
    if how == 'ret':
        return None if r is None else bytes(r)
    return bytes(b)


def one(ctx, B, sig, fn, op, how, buf, args, only, src, dst, pre, maybe=False):
    """Run one file function with destination state `pre` and compare files."""
    Path(src).write_bytes(bytes(buf))
    same = Path(src) == Path(dst)
    if not same:
        if pre is None:
            if os.path.exists(dst):
                os.remove(dst)
        else:
            Path(dst).write_bytes(pre)
    want = expected(ctx, B, op, how, buf, args_of(args), only)
    if want is False:
        return
    if how == 'rnd':
        random.seed(7)
    ok, _ = call(ctx, sig, getattr(B, fn), src, dst, *args_of(args))
    ctx.trace()
    if not ok:
        return
    if not same and Path(src).read_bytes() != bytes(buf):
        ctx.fail(sig + '|source changed', args=args)
    got = Path(dst).read_bytes() if os.path.exists(dst) else None
    untouched = bytes(buf) if same else pre
    if want is None:
        if got != untouched:
            ctx.fail(sig + '|written although refused', args=args)
    elif got != want:
        if got is None:
            ctx.fail(sig + '|nothing written', args=args)
            return
        try:
            gd, wd = decode(got), decode(want)
            ctx.fail(sig, args=args, got=(gd.w, gd.h, gd.bits), want=(wd.w, wd.h, wd.bits),
                     diff=grid_diff(wd.px, gd.px), expected=show(wd.px, wd.bits), shown=show(gd.px, gd.bits))
        except BadImage as e:
            ctx.fail(sig + '|malformed', args=args, error=str(e))
    left = sorted(os.listdir(os.path.dirname(str(dst))))
    if any(n not in ('s.bmp', 'd e.bmp') for n in left):
        ctx.fail(sig + '|stray files', files=left)
    ctx.state((fn, bytes(buf)[28], args.__repr__(), got))


def go(unit, ctx, tier, d):
    B = bind()
    from pythonbmp import colors as C
    q = tier == 'quick'
    src, dst = os.path.join(d, 's.bmp'), os.path.join(d, 'd e.bmp')
    kind = unit[0]
    junk = b'BM' + b'\xa7' * 5000
    if kind == 'op':
        fn, op, how, argss, only = table()[unit[1]]
        bits = unit[2]
        for w, h in ((9, 5),) if how == 'rnd' else ((9, 5), (32, 6)) if q else ((9, 5), (32, 6), (16, 6), (11, 7), (13, 9)):
            for k in range(1 if q else 2):
                img = mkimg(w, h, bits, k=k)
                if bits < 24:
                    img.pal = [((i * 37 + 9) & 255, (i * 91 + 5) & 255, (i * 3 + k) & 255, 0) for i in range(1 << bits)]
                buf = mkbuf(img)
                for args in argss:
                    sig = '%s|b%d' % (fn, bits)
                    one(ctx, B, sig, fn, op, how, buf, args, only, src, dst, None)
                    one(ctx, B, sig + '|overwrite', fn, op, how, buf, args, only, Path(src), Path(dst), junk)
                    one(ctx, B, sig + '|in place', fn, op, how, buf, args, only, src, src, None)
        big = mkimg(301, 283, bits, k=1)
        seen = set()
        for args in argss:
            if how == 'rnd':
                more = [(45, 53, 280, 270, 90), (262, 12, 299, 281, 60), (14, 9, 274, 264, 94)]
            elif args[:4] in RECTS:
                more = [r + t for r in ((261, 200, 299, 280), (290, 277, 4, 258), (14, 259, 294, 264)) for t in tails(args[4:])]
            elif args[:3] in CIRCS:
                rest = args[3 + fn.startswith('copycirc'):]
                more = [(270, 252, 28) + ((258, 40),) * (fn.startswith('copycirc')) + rest, (140, 141, 113) + args[3:]]
                more += [(264, 249, 34) + ((254, 44),) * (fn.startswith('copycirc')) + t for t in tails(rest)]
                if fn in CLIPPED:
                    more += [(-9, 144, 64) + args[3:], (149, -14, 74) + args[3:], (309, 294, 49) + args[3:]]
            else:
                more = [t for t in tails(args)]
            for a in more:
                if repr(a) not in seen:
                    seen.add(repr(a))
                    one(ctx, B, '%s|b%d' % (fn, bits), fn, op, how, mkbuf(big), a, only, src, dst, None)
        ctx.sample('%s at %d bits = load, %s, save' % (fn, bits, op))
    elif kind == 'adj':
        fn = unit[1]
        op, params, ref = ADJ[fn]
        bits = unit[2]
        name = fn + '2file'
        for p in ([None] if params is None else params):
            args = () if params is None else (p,)
            img = mkimg(9, 5, bits)
            sig = '%s|b%d' % (name, bits)
            if bits == 24:
                one(ctx, B, sig, name, op, 'in', mkbuf(img), args, True, src, dst, None)
                one(ctx, B, sig + '|in place', name, op, 'in', mkbuf(img), args, True, src, src, None)
                continue
            for k in range(2):
                img.pal = [(0, 0, 0, 0)] * (1 << bits)
                img.pal = [((i * 37 + 90 * k) & 255, (i * 91 + 5) & 255, (255 - i) & 255, 0) for i in range(1 << bits)] if k else stdpal(bits)
                buf = mkbuf(img)
                Path(src).write_bytes(bytes(buf))
                if os.path.exists(dst):
                    os.remove(dst)
                for target in (dst, src):
                    ok, _ = call(ctx, sig, getattr(B, name), src, target, *args_of(args))
                    ctx.trace()
                    if not ok:
                        continue
                    if not os.path.exists(target):
                        ctx.fail(sig + '|nothing written')
                        continue
                    try:
                        g = decode(Path(target).read_bytes())
                    except BadImage as e:
                        ctx.fail(sig + '|malformed', error=str(e))
                        continue
                    if (g.w, g.h, g.bits) != (9, 5, bits) or g.px != img.px:
                        ctx.fail(sig + '|pixels', params=p)
                    bad = []
                    for i, (a, b) in enumerate(zip(img.pal, g.pal)):
                        # one colour at a time, as judged by C12
                        w3 = tuple(getattr(C, ref)(list(a[:3]), *args_of(args)))
                        if b[:3] != w3:
                            bad.append((i, a[:3], b[:3], w3))
                    if bad:
                        ctx.fail(sig + '|palette', params=p, wrong=bad[:4])
                    if target == dst and Path(src).read_bytes() != bytes(buf):
                        ctx.fail(sig + '|source changed')
                    ctx.state((sig, k, bytes(Path(target).read_bytes())))
        ctx.sample('%s at %d bits' % (name, bits))
    elif kind == 'missing':
        fns = [(t[0], t[3][0]) for t in table()] + [(k + '2file', () if v[1] is None else (v[1][0],)) for k, v in ADJ.items()]
        fns += [('cropBMPandsaveusingrectbnd', (((0, 0), (2, 2), (0, 2), (2, 0)),)), ('autocropimg2file', (10,)), ('imgregionbyRGB2file', (1, 2, (0, 0, 0), 10, True)),
                ('reduce24bitimagebits', (8, 10, True, (1, 1, 1)))]
        for fn, args in fns:
            for pre in (None, junk):
                if pre:
                    Path(dst).write_bytes(pre)
                elif os.path.exists(dst):
                    os.remove(dst)
                for s in (os.path.join(d, 'nothere.bmp'), d):
                    ok, _ = call(ctx, 'missing source|' + fn, getattr(B, fn), s, dst, *args_of(args))
                    ctx.trace()
                    got = Path(dst).read_bytes() if os.path.exists(dst) else None
                    if got != pre:
                        ctx.fail('missing source|%s|destination touched' % fn)
                    if sorted(os.listdir(d)) != (['d e.bmp'] if pre else []):
                        ctx.fail('missing source|%s|stray files' % fn, files=os.listdir(d))
            ctx.state(fn)
        ctx.sample('every file function on a missing source and on a directory')
    elif kind == 'notbmp':
        # a source that is no bitmap: whatever is reported, no image is written and the source stays
        fns = [(t[0], t[3][0]) for t in table()] + [(k + '2file', () if v[1] is None else (v[1][0],)) for k, v in ADJ.items()]
        for fn, args in fns:
            for content in (b'', b'GIF89a' + b'x' * 90, b'BM\x10\0\0\0'):
                for pre in (None, junk):
                    Path(src).write_bytes(content)
                    if pre:
                        Path(dst).write_bytes(pre)
                    elif os.path.exists(dst):
                        os.remove(dst)
                    ctx.step()
                    try:
                        getattr(B, fn)(src, dst, *args_of(args))
                    except Exception:
                        pass
                    ctx.trace()
                    got = Path(dst).read_bytes() if os.path.exists(dst) else None
                    if got != pre:
                        ctx.fail('not a bitmap|%s|destination written' % fn, content=str(content[:6]), got=got and len(got))
                    if Path(src).read_bytes() != content:
                        ctx.fail('not a bitmap|%s|source changed' % fn)
            ctx.state(('notbmp', fn))
    elif kind == 'chain':
        f1, a1 = CHAIN[unit[1]]
        bits = unit[2]
        ops = {t[0]: t for t in table()}
        for w, h in ((6, 5),) if q else ((6, 5), (17, 6)):
            buf = mkbuf(mkimg(w, h, bits))
            for f2, a2 in CHAIN:
                cur = bytes(buf)
                model = []
                for f, a in ((f1, a1), (f2, a2)):
                    r = expected(ctx, B, ops[f][1], ops[f][2], array('B', cur), args_of(a), ops[f][4])
                    model.append(r)
                    if r is False or r is None:
                        break
                    cur = r
                if model[-1] is False:
                    continue
                mid = os.path.join(d, 'm.bmp')
                for f in (src, dst, mid):
                    if os.path.exists(f):
                        os.remove(f)
                Path(src).write_bytes(bytes(buf))
                sig = 'chain|%s|%s|b%d' % (f1, f2, bits)
                call(ctx, sig, getattr(B, f1), src, mid, *args_of(a1))
                call(ctx, sig, getattr(B, f2), mid, dst, *args_of(a2))
                ctx.trace()
                got = [Path(f).read_bytes() if os.path.exists(f) else None for f in (mid, dst)]
                model = (model + [None, None])[:2]
                if got != model:
                    ctx.fail(sig, step=0 if got[0] != model[0] else 1)
                # the same chain through one file
                Path(src).write_bytes(bytes(buf))
                call(ctx, sig, getattr(B, f1), src, src, *args_of(a1))
                if model[0] is not None:
                    call(ctx, sig, getattr(B, f2), src, src, *args_of(a2))
                    want = model[1] or model[0]
                    if Path(src).read_bytes() != want:
                        ctx.fail(sig + '|in place')
                ctx.state((sig, got[1]))
    elif kind == 'bound':
        # crop by a rectangular boundary: the boundary is kept whole; one more column and row are allowed inside the image
        bits = unit[1]
        w, h = 6, 5
        img = mkimg(w, h, bits)
        buf = mkbuf(img)
        Path(src).write_bytes(bytes(buf))
        for x1 in range(w):
            for x2 in range(x1, w):
                for y1 in range(h):
                    for y2 in range(y1, h):
                        if os.path.exists(dst):
                            os.remove(dst)
                        sig = 'cropBMPandsaveusingrectbnd|b%d' % bits
                        ok, _ = call(ctx, sig, B.cropBMPandsaveusingrectbnd, src, dst, ((x1, y1), (x2, y2)))
                        ctx.trace()
                        if ok:
                            check_crop(ctx, sig, img, dst, x1, y1, x2, y2)
        ctx.sample('every boundary rectangle of a 6x5 image')
    elif kind == 'autocrop':
        # one block of a second colour on a plain background: the block must be in the crop
        bits = unit[1]
        w, h = 7, 6
        a, b = {1: (0, 1), 4: (1, 10), 8: (0, 255), 24: (0x101010, 0xF0E0D0)}[bits]
        for x1 in range(w):
            for x2 in range(x1, w):
                for y1 in range(h):
                    for y2 in range(y1, h):
                        if (x1, y1, x2, y2) == (0, 0, w - 1, h - 1):
                            continue
                        px = [[b if x1 <= x <= x2 and y1 <= y <= y2 else a for x in range(w)] for y in range(h)]
                        img = mkimg(w, h, bits, px)
                        Path(src).write_bytes(bytes(mkbuf(img)))
                        if os.path.exists(dst):
                            os.remove(dst)
                        sig = 'autocropimg2file|b%d' % bits
                        ok, _ = call(ctx, sig, B.autocropimg2file, src, dst, 20)
                        ctx.trace()
                        if not ok:
                            continue
                        if not os.path.exists(dst):
                            ctx.fail(sig + '|nothing written', block=(x1, y1, x2, y2))
                            continue
                        try:
                            g = decode(Path(dst).read_bytes())
                        except BadImage as e:
                            ctx.fail(sig + '|malformed', error=str(e))
                            continue
                        edge = [(x, y) for y in range(h) for x in range(w) if any(
                            0 <= x + i < w and 0 <= y + j < h and px[y + j][x + i] != px[y][x] for i in (-1, 0, 1) for j in (-1, 0, 1))]
                        ex1, ey1, ex2, ey2 = min(p[0] for p in edge), min(p[1] for p in edge), max(p[0] for p in edge), max(p[1] for p in edge)
                        # smallest crop that shows the block's border, largest that the documented margin allows
                        subs = set()
                        for lx in range(ex1, ex1 + 2):
                            for ty in range(ey1, ey1 + 2):
                                for rx in range(ex2 - 1, ex2 + 2):
                                    for by in range(ey2 - 1, ey2 + 2):
                                        if rx < w and by < h and lx <= rx and ty <= by:
                                            subs.add((lx, ty, rx, by))
                        if not any(g.px == [r[lx:rx + 1] for r in px[ty:by + 1]] for lx, ty, rx, by in subs):
                            ctx.fail(sig, block=(x1, y1, x2, y2), got=show(g.px, bits))
                        n = sum(r.count(b) for r in g.px)
                        ctx.state((bits, x1, y1, x2, y2, g.key()))
        ctx.sample('every block in a 7x6 image')
    elif kind == 'shape':
        # every file function's first argument really is only read: read-only source file works
        for t in table():
            img = mkimg(9, 5, 24)
            Path(src).write_bytes(bytes(mkbuf(img)))
            os.chmod(src, 0o444)
            if os.path.exists(dst):
                os.remove(dst)
            st = os.stat(src)
            call(ctx, 'read-only source|' + t[0], getattr(B, t[0]), src, dst, *args_of(t[3][0]))
            s2 = os.stat(src)
            if (st.st_mtime_ns, st.st_ino, st.st_size) != (s2.st_mtime_ns, s2.st_ino, s2.st_size):
                ctx.fail('read-only source|%s|rewritten' % t[0])
            if not os.path.exists(dst):
                ctx.fail('read-only source|%s|nothing written' % t[0])
            os.chmod(src, 0o644)
            ctx.trace()


def check_crop(ctx, sig, img, dst, x1, y1, x2, y2):
    if not os.path.exists(dst):
        ctx.fail(sig + '|nothing written', bound=(x1, y1, x2, y2))
        return
    try:
        g = decode(Path(dst).read_bytes())
    except BadImage as e:
        ctx.fail(sig + '|malformed', error=str(e))
        return
    good = [[r[x1:x2 + 1 + i] for r in img.px[y1:y2 + 1 + j]] for i in (0, 1) for j in (0, 1)]
    if g.px not in good or g.pal != img.pal:
        ctx.fail(sig, bound=(x1, y1, x2, y2), got=show(g.px, img.bits))
    ctx.state((img.bits, x1, y1, x2, y2))
