"""Byte, buffer, rectangle, string and number helpers against their definitions; sizes of packed rows; function metadata; timers."""
import itertools, io, contextlib, re
from array import array
from mc.core import *

BOUNDS = {
    'quick': 'little-endian numbers of 1 to 8 bytes at every offset and every byte-carry value; splitting, flipping and enlarging of all buffers of up to 3 bytes over a byte grid plus every single byte, '
             'at every depth and factors 1 to 5; rectangles and discs against every point of a 7 by 7 field; neighbours of every point; all of these also for long buffers, wide rows, far coordinates and factors, offsets and ways of 9 to 490; strings of up to 4 letters; row part sizes for all column pairs of 40 columns',
    'thorough': 'as quick with longer buffers and larger fields'}
BYTES = (0, 1, 2, 0x0f, 0x10, 0x55, 0x7f, 0x80, 0xa3, 0xf0, 0xff)
LONG = [tuple(i * 37 % 251 ^ n for i in range(n)) for n in (4, 5, 9, 14, 44, 49, 94, 144, 210)]
UNITS = ['ints', 'split', 'flip', 'enlarge', 'rects', 'discs', 'neighbours', 'strings', 'choose', 'sizes', 'meta', 'timer', 'lists']


def units(tier):
    return [(u,) for u in UNITS]


def run_unit(unit, ctx, tier):
    bind()
    globals()[unit[0]](ctx, tier)


def same(ctx, sig, got, want, **d):
    ctx.trace()
    if got != want:
        ctx.fail(sig, got=got, expected=want, **d)


def ints(ctx, tier):
    from pythonbmp import inttools as I
    for cnt in list(range(1, 10)) + [14, 44]:
        vals = {0, 1, 256 ** cnt - 1, 256 ** cnt // 2} | {v for k in range(cnt) for b in (1, 0x80, 0xff) for v in (b << 8 * k, (b << 8 * k) - 1, (b << 8 * k) + 1) if v < 256 ** cnt}
        vals |= {int.from_bytes(bytes((i * 37 + s) % 256 for i in range(cnt)), 'little') for s in range(64)}
        for v in sorted(vals):
            want = v.to_bytes(cnt, 'little')
            ok, b = call(ctx, 'int2buf', I.int2buf, cnt, v)
            if ok:
                same(ctx, 'int2buf', (type(b), bytes(b)), (array, want), value=v, bytes=cnt)
            ok, n = call(ctx, 'buf2int', I.buf2int, array('B', want))
            if ok:
                same(ctx, 'buf2int', n, v, bytes=cnt)
            for off in (0, 1, 5):
                for fill in (0, 0xee):
                    a = array('B', [fill] * (cnt + 7))
                    ok, _ = call(ctx, 'writeint', I.writeint, off, cnt, a, v)
                    if ok:
                        same(ctx, 'writeint', bytes(a), bytes([fill] * off) + want + bytes([fill] * (7 - off)), value=v, bytes=cnt, offset=off)
                    a = array('B', bytes([fill] * off) + want + bytes([fill] * 3))
                    ok, n = call(ctx, 'readint', I.readint, off, cnt, a)
                    if ok:
                        same(ctx, 'readint', n, v, bytes=cnt, offset=off)
            for off, size in ((4, 60), (9, 60), (14, 64), (44, 1078), (54, 1078), (490, 1078)):
                a = array('B', [0xee] * size)
                ok, _ = call(ctx, 'writeint', I.writeint, off, cnt, a, v)
                if ok:
                    same(ctx, 'writeint', bytes(a), bytes([0xee] * off) + want + bytes([0xee] * (size - off - cnt)), value=v, bytes=cnt, offset=off)
                ok, n = call(ctx, 'readint', I.readint, off, cnt, a)
                if ok:
                    same(ctx, 'readint', n, v, bytes=cnt, offset=off)
            ctx.state((cnt, v))


def bufs(n, vals=BYTES):
    for k in range(n + 1):
        yield from itertools.product(vals, repeat=k)


def split(ctx, tier):
    from pythonbmp import buffersplit as S
    for n in list(range(0, 25 if tier == 'quick' else 61)) + [80, 96, 100, 126, 192, 288, 420, 1024]:
        for mk in (list, lambda b: array('B', b), bytes):
            b = mk([i * 7 % 251 for i in range(n)])
            for k in list(range(1, 8)) + [9, 14, 44]:
                m = n // k * k
                want = [b[i:m:k] for i in range(k)]
                ok, g = call(ctx, 'altsplitbufnway', S.altsplitbufnway, b, k)
                if ok:
                    same(ctx, 'altsplitbufnway', g, want, length=n, ways=k)
                if k in (2, 3):
                    f = S.altsplitbuf if k == 2 else S.altsplitbuf3way
                    ok, g = call(ctx, f.__name__, f, b)
                    if ok:
                        same(ctx, f.__name__, g, want, length=n)
            ctx.state((n, type(b).__name__))


def nib(b):
    return [v for c in b for v in (c >> 4, c & 15)]


def flip(ctx, tier):
    """A flipped buffer holds the pixels in reverse order."""
    from pythonbmp import bufferflip as F
    for p in itertools.chain(bufs(3), ((b,) for b in range(256)), LONG):
        ctx.state(p)
        want = {1: [int('{:08b}'.format(b)[::-1], 2) for b in reversed(p)], 4: [(b & 15) << 4 | b >> 4 for b in reversed(p)], 8: list(reversed(p))}
        for bits in (1, 4, 8):
            ok, g = call(ctx, 'flipbuf', F.flipbuf, array('B', p), bits)
            if ok:
                same(ctx, 'flipbuf|%d' % bits, list(g), want[bits], buffer=p)
        ok, g = call(ctx, 'rotatebitsinbuf', F.rotatebitsinbuf, array('B', p))
        if ok:
            same(ctx, 'rotatebitsinbuf', list(g), want[1][::-1], buffer=p)
        ok, g = call(ctx, 'flipnibbleinbuf', F.flipnibbleinbuf, array('B', p))
        if ok:
            same(ctx, 'flipnibbleinbuf', list(g), want[4][::-1], buffer=p)
    for n in (0, 1, 2, 3, 4, 9, 14, 44, 94, 144):
        b = [i * 11 % 256 for i in range(3 * n)]
        want = [v for i in range(n - 1, -1, -1) for v in b[3 * i:3 * i + 3]]
        for f in (lambda a: F.flip24bitbuf(a), lambda a: F.flipbuf(a, 24)):
            ok, g = call(ctx, 'flip24bitbuf', f, array('B', b))
            if ok:
                same(ctx, 'flip24bitbuf', list(g), want, buffer=b)


def enlarge(ctx, tier):
    """Every pixel of a packed row repeated n times."""
    from pythonbmp import bufresize as R
    top = 3 if tier == 'quick' else 4
    for p in itertools.chain(bufs(top, BYTES[::2]), ((b,) for b in range(256)), LONG):
        ctx.state(p)
        b = array('B', p)
        bits = [v for c in p for v in map(int, '{:08b}'.format(c))]
        for n in list(range(1, 6)) + ([] if len(p) > 1 and len(p) < 4 else [9, 14, 44]):
            big = [v for v in bits for _ in range(n)]
            ok, g = call(ctx, 'resize1bitbufNtimesbigger', R.resize1bitbufNtimesbigger, b, n)
            w1 = [int(''.join(map(str, big[i:i + 8])), 2) for i in range(0, len(big), 8)]
            if ok:
                same(ctx, 'resize1bitbufNtimesbigger', list(g), w1, buffer=p, times=n)
            nb = [v for v in nib(p) for _ in range(n)]
            w4 = [nb[i] << 4 | nb[i + 1] for i in range(0, len(nb), 2)]
            w8 = [v for v in p for _ in range(n)]
            for bd, w in ((1, w1), (4, w4), (8, w8)):
                ok, g = call(ctx, 'resizebufNtimesbigger', R.resizebufNtimesbigger, b, n, bd)
                if ok:
                    same(ctx, 'resizebufNtimesbigger|%d' % bd, (type(g), list(g)), (array, w), buffer=p, times=n)
            for f, w in ((R.resize4bitbufNtimesbigger, w4), (R.resize8bitbufNtimesbigger, w8), (R.unpack4bitbufresizeNtimesbigger, nb)):
                ok, g = call(ctx, f.__name__, f, b, n)
                if ok:
                    same(ctx, f.__name__, list(g), w, buffer=p, times=n)
            if len(p) == 1:
                ok, g = call(ctx, 'resizebitpattenNtimesbigger', R.resizebitpattenNtimesbigger, p[0], n)
                if ok:
                    same(ctx, 'resizebitpattenNtimesbigger', list(g), big, byte=p, times=n)
        ok, g = call(ctx, 'packbitlisttobuf', R.packbitlisttobuf, bits)
        if ok:
            same(ctx, 'packbitlisttobuf', list(g), list(p), bits=bits)
        ok, g = call(ctx, 'unpack4bitbuf', R.unpack4bitbuf, b)
        if ok:
            same(ctx, 'unpack4bitbuf', list(g), nib(p), buffer=p)
        ok, g = call(ctx, 'pack4bitbuf', R.pack4bitbuf, nib(p))
        if ok:
            same(ctx, 'pack4bitbuf', list(g), list(p), buffer=p)
        if list(b) != list(p):
            ctx.fail('enlarge|arguments changed', buffer=p)
    for n in (0, 1, 2, 3, 9, 14, 44):
        p = [i * 29 % 256 for i in range(3 * n)]
        for k in (1, 2, 3, 4, 5, 9, 14, 44):
            w = [v for i in range(n) for _ in range(k) for v in p[3 * i:3 * i + 3]]
            for f in (R.resize24bitbufNtimesbigger, lambda b, k: R.resizebufNtimesbigger(b, k, 24)):
                ok, g = call(ctx, 'resize24bitbufNtimesbigger', f, array('B', p), k)
                if ok:
                    same(ctx, 'resize24bitbufNtimesbigger', list(g), w, buffer=p, times=k)
    # n rows of n by w pixels averaged into one row of w pixels
    for n in (1, 2, 3, 4, 5, 9, 14):
        for w in (1, 2, 5, 14, 44):
            for s in range(30 if n * w < 25 else 1):
                rows = [[(i * 41 + r * 97 + s * 13) % 256 for i in range(3 * n * w)] for r in range(n)]
                ok, g = call(ctx, 'resizesmaller24bitbuf', R.resizesmaller24bitbuf, [array('B', r) for r in rows])
                if ok:
                    for x in range(w):
                        for c in range(3):
                            t = sum(r[3 * (x * n + i) + c] for r in rows for i in range(n))
                            if len(g) != 3 * w or abs(g[3 * x + c] - t / n ** 2) > 0.5 + 1e-9:
                                ctx.fail('resizesmaller24bitbuf', rows=rows, got=list(g), pixel=x, channel=c, expected=t / n ** 2)
                ctx.trace()


def sizes(ctx, tier):
    """Bytes of the row part from x1 to x2 that holds every pixel of it, at every depth."""
    from pythonbmp import bufresize as R
    for bits in DEPTHS:
        buf = mkbuf(mkimg(41, 1, bits))
        for x1 in range(41):
            for x2 in range(x1, 41):
                ok, n = call(ctx, 'adjustxbufsize', R.adjustxbufsize, buf, x1, x2)
                first, last = x1 * bits // 8, (x2 * bits + bits - 1) // 8
                if ok:
                    same(ctx, 'adjustxbufsize|%d' % bits, n, last - first + 1, x1=x1, x2=x2)
                ctx.state((bits, x1, x2))
        for b2 in (98, 149, 444, 70001, 140003, 530001):
            buf = mkbuf(mkimg(b2, 2, bits))
            for x1 in (0, 1, 4, 9, 14, 44, 49, 90):
                for x2 in (x1, x1 + 1, 94, b2 // 2, b2 - 9, b2 - 4, b2 - 1):
                    if x2 >= x1:
                        ok, n = call(ctx, 'adjustxbufsize', R.adjustxbufsize, buf, x1, x2)
                        if ok:
                            same(ctx, 'adjustxbufsize|%d' % bits, n, (x2 * bits + bits - 1) // 8 - x1 * bits // 8 + 1, x1=x1, x2=x2)
        for n in list(range(0, 200, 8)) + [400, 944, 4096, 9440, 65528, 65536, 131072, 131080, 1 << 20, (1 << 24) + 8]:
            ok, g = call(ctx, 'adjustbufsize', R.adjustbufsize, n, bits)
            if ok:
                same(ctx, 'adjustbufsize|%d' % bits, g, n * bits // 8, size=n)


def rects(ctx, tier):
    from pythonbmp import primitives2D as P
    R = range(-1, 5 if tier == 'quick' else 7)
    for a in itertools.chain(itertools.product(R, repeat=4), itertools.product((0, 3, 44, 149), (1, 3, 94, 209), repeat=2)):
        x1, y1, x2, y2 = a
        ctx.state(a)
        ok, g = call(ctx, 'sortrecpoints', P.sortrecpoints, *a)
        if ok:
            same(ctx, 'sortrecpoints', g, (min(x1, x2), min(y1, y2), max(x1, x2), max(y1, y2)), args=a)
        ok, g = call(ctx, 'recvert', P.recvert, *a)
        if ok:
            same(ctx, 'recvert', g, [(x1, y1), (x2, y1), (x2, y2), (x1, y2)], args=a)
        pts = [(x, y) for x in range(-2, 6) for y in range(-2, 6)]
        if max(a) > 9:
            pts = [(x, y) for i in (0, 3, 44, 149) for x in range(i - 1, i + 2) for j in (1, 3, 94, 209) for y in range(j - 1, j + 2)]
        inside = []
        for p in pts:
            want = x1 < p[0] < x2 and y1 < p[1] < y2
            g = P.isinrectbnd(*p, *a)
            if g != want:
                ctx.fail('isinrectbnd', point=p, bounds=a, got=g)
            if want:
                inside.append(p)
        ctx.trace(len(pts))
        for l in (inside, inside + [(x1, y1)], [(x2, y2)] + inside, inside[:1] * 3, [(x1 + 1, y2)]):
            ok, g = call(ctx, 'listinrecbnd', P.listinrecbnd, l, *a)
            if ok:
                same(ctx, 'listinrecbnd', bool(g), all(x1 < p[0] < x2 and y1 < p[1] < y2 for p in l), points=l, bounds=a)
        if a[0] != a[2]:
            l = [(x1, y2), (x2, y1), (x2, y2), (0, 0)]
            ok, g = call(ctx, 'rectboundarycoords', P.rectboundarycoords, l)
            if ok:
                same(ctx, 'rectboundarycoords', g, ((min(p[0] for p in l), min(p[1] for p in l)), (max(p[0] for p in l), max(p[1] for p in l))), points=l)
    for y, x1, x2, d in itertools.chain(itertools.product((0, 5), range(-3, 4), range(-3, 12), (1, 2, 5)), itertools.product((14, 249), (0, 4, 44), (49, 144), (1, 4, 9, 14, 44))):
        for f, w in ((P.horizontalvert, [[x, y] for x in range(x1, x2) if (x - x1) % d == 0]), (P.verticalvert, [[y, x] for x in range(x1, x2) if (x - x1) % d == 0])):
            ok, g = call(ctx, f.__name__, f, y, x1, x2, d)
            if ok:
                same(ctx, f.__name__, [list(p) for p in g], w, args=(y, x1, x2, d))


def discs(ctx, tier):
    """Inside the open bounds exactly when all four extremes are."""
    from pythonbmp import primitives2D as P
    R = range(-2, 9 if tier == 'quick' else 12)
    for x, y in itertools.product(R, R):
        for (x1, x2, y1, y2) in ((-1, 7, -1, 7), (-1, 5, -1, 8), (0, 6, 1, 7), (-1, 1, -1, 1)):
            for r, s in itertools.product(range(5), range(5)):
                want = x1 < x - s and x + s < x2 and y1 < y - r and y + r < y2
                ok, g = call(ctx, 'entireellipseisinboundary', P.entireellipseisinboundary, x, y, x1, x2, y1, y2, r, s)
                if ok:
                    same(ctx, 'entireellipseisinboundary', bool(g), want, args=(x, y, x1, x2, y1, y2, r, s))
                if r == s:
                    ok, g = call(ctx, 'entirecircleisinboundary', P.entirecircleisinboundary, x, y, x1, x2, y1, y2, r)
                    if ok:
                        same(ctx, 'entirecircleisinboundary', bool(g), want, args=(x, y, x1, x2, y1, y2, r))
            ctx.state((x, y, x1, x2))
    for x, y in itertools.product((-1, 4, 14, 15, 44, 94, 99, 100, 149, 201), repeat=2):
        for (x1, x2, y1, y2) in ((-1, 150, -1, 100), (9, 149, 14, 209), (-1, 49, 4, 49)):
            for r, s in itertools.product((0, 4, 5, 9, 14, 44, 45, 55), repeat=2):
                want = x1 < x - s and x + s < x2 and y1 < y - r and y + r < y2
                ok, g = call(ctx, 'entireellipseisinboundary', P.entireellipseisinboundary, x, y, x1, x2, y1, y2, r, s)
                if ok:
                    same(ctx, 'entireellipseisinboundary', bool(g), want, args=(x, y, x1, x2, y1, y2, r, s))
                if r == s:
                    ok, g = call(ctx, 'entirecircleisinboundary', P.entirecircleisinboundary, x, y, x1, x2, y1, y2, r)
                    if ok:
                        same(ctx, 'entirecircleisinboundary', bool(g), want, args=(x, y, x1, x2, y1, y2, r))


def neighbours(ctx, tier):
    from pythonbmp import primitives2D as P
    for w, h in itertools.chain(itertools.product(range(1, 6), repeat=2), ((94, 49), (14, 149), (244, 44))):
        xs, ys = ([v for v in r if n < 9 or v in (-1, 0, 1, 4, 9, 44, 49, 90, 144) or v > n - 3] for n, r in ((w, range(-1, w)), (h, range(-1, h))))
        for x in xs:
            for y in ys:
                for c in (True, False):
                    want = sorted([i, j] for i in range(x - 1, x + 2) for j in range(y - 1, y + 2) if 0 <= i < w and 0 <= j < h and (c or (i, j) != (x, y))) if x >= 0 and y >= 0 else []
                    ok, g = call(ctx, 'getneighborlist', P.getneighborlist, [x, y], w, h, c)
                    if ok:
                        same(ctx, 'getneighborlist', sorted(map(list, g)), want, point=(x, y), size=(w, h), center=c)
                        same(ctx, 'itergetneighbors', list(P.itergetneighbors([x, y], w, h, c)), g, point=(x, y))
        ctx.state((w, h))
    far = sorted({(1 << k) + d for k in range(3, 18) for d in (-1, 0, 1, 2)})
    for n in far:
        for w, h, x, y in ((n + 3, 9, n, 5), (9, n + 3, 4, n), (n + 1, n + 1, n, n), (1 << 20, 1 << 20, n, n + 1)):
            for c in (True, False):
                ok, g = call(ctx, 'getneighborlist', P.getneighborlist, [x, y], w, h, c)
                if ok:
                    want = sorted([i, j] for i in range(x - 1, x + 2) for j in range(y - 1, y + 2) if i < w and j < h and (c or (i, j) != (x, y)))
                    same(ctx, 'getneighborlist', sorted(map(list, g)), want, point=(x, y), size=(w, h), center=c)
                    same(ctx, 'itergetneighbors', list(P.itergetneighbors([x, y], w, h, c)), g, point=(x, y))


def strings(ctx, tier):
    from pythonbmp import chartools as C
    for n in range(5):
        for t in itertools.chain(itertools.product('aZ\x00\u00ff', repeat=n), ([chr((i * 37 + n) % 256) for i in range(9 * n)], 'Hello, World 499 times.' * n)):
            s = ''.join(t)
            ctx.state(s)
            same(ctx, 'enumletters', list(C.enumletters(s)), list(t), text=s)
            same(ctx, 'enumreverseletters', list(C.enumreverseletters(s)), list(t)[::-1], text=s)
            same(ctx, 'char2int', C.char2int(s), int.from_bytes(s.encode('latin-1'), 'little'), text=s)


    from pythonbmp.textgraphics import computetextrowandcolcnt
    for n in range(6):
        for t in itertools.chain(itertools.product('a\t\n ', repeat=n), ['ab\tcde\t' * n + 'x' * 49 + '\n' * n]):
            s = ''.join(t)
            rows = s.split('\n')
            same(ctx, 'computetextrowandcolcnt', list(computetextrowandcolcnt(s)), [max(len(r) + 3 * r.count('\t') for r in rows), len(rows)], text=s)


def choose(ctx, tier):
    from pythonbmp import conditionaltools as C
    for c, a, b in itertools.product((True, False, 0, 1, [], [0], None), (1, 'x', None), (2, [3])):
        same(ctx, 'iif', C.iif(c, a, b), a if c else b, cond=repr(c))
        same(ctx, 'swapif', tuple(C.swapif(a, b, c)), (b, a) if c else (a, b), cond=repr(c))
        ctx.state(repr((c, a, b)))


def lists(ctx, tier):
    """Values largest first, ties by key."""
    from pythonbmp import dicttools as D
    for v in itertools.chain(itertools.product((0, 1, 5), repeat=4), itertools.product((4, 14, 49, 94, 444), repeat=4), [tuple(i * 37 % 19 for i in range(99))]):
        d = dict(zip('dacb' if len(v) == 4 else [i * 53 % 99 for i in range(99)], v))
        keep = dict(d)
        same(ctx, 'dict2descorderlist', [list(i) for i in D.dict2descorderlist(d)], sorted([[n, k] for k, n in d.items()], reverse=True), dict=keep)
        same(ctx, 'dict2descorderlist|arguments', d, keep)
        ctx.state(v)


def meta(ctx, tier):
    """The text names the function, its parameters with defaults, and its documentation."""
    from pythonbmp import BITMAPlib as B, funcmeta
    import inspect
    for n, f in sorted(vars(B).items()):
        if inspect.isfunction(f) and f.__module__ == B.__name__ and not n.startswith('_'):
            ok, s = call(ctx, 'getfuncmetastr', funcmeta.getfuncmetastr, f)
            if ok:
                names = list(inspect.signature(f).parameters)
                if not s.startswith('def %s(' % f.__name__) or f.__doc__ and f.__doc__ not in s or any(not re.search(r'\b%s\b' % p, s) for p in names):
                    ctx.fail('getfuncmetastr', function=n, got=s[:200])
                ctx.state(n)
                ctx.trace()


def timer(ctx, tier):
    """Elapsed time under a controlled clock: seconds exact, hh:mm:ss padded; a timed function runs once, returns its value and announces itself."""
    from pythonbmp import proctimer as T
    keep = T.process_time_ns
    try:
        for start in (0, 7, 10 ** 9):
            for el in [0, 1, 999999999, 10 ** 9, 59 * 10 ** 9, 60 * 10 ** 9, 61 * 10 ** 9 + 5, 3599 * 10 ** 9, 3600 * 10 ** 9, 36000 * 10 ** 9 + 61 * 10 ** 9, 360000 * 10 ** 9 + 12]:
                T.process_time_ns = lambda: start + el
                ok, g = call(ctx, 'elaspedtimeinseconds', T.elaspedtimeinseconds, start)
                if ok and abs(g - el / 10 ** 9) > 1e-9:
                    ctx.fail('elaspedtimeinseconds', elapsed=el, got=g)
                ok, g = call(ctx, 'hhmmsselaspedtime', T.hhmmsselaspedtime, start)
                s = el // 10 ** 9
                if ok and not (g.rsplit('.', 1)[0] == '%02d:%02d:%02d' % (s // 3600, s // 60 % 60, s % 60) and ('0.' + g.rsplit('.', 1)[1])[:11] == '0.%09d' % (el % 10 ** 9)):
                    ctx.fail('hhmmsselaspedtime', elapsed=el, got=g)
                ctx.state((start, el))
                ctx.trace(2)
        T.process_time_ns = keep
        for args, kw in (((), {}), ((1, 'a'), {}), ((), {'k': 3}), ((5,), {'k': [1]})):
            for val in (None, 0, 'x', [1]):
                calls = []

                def probe(*a, **k):
                    """doc"""
                    calls.append((a, k))
                    return val
                g = T.functimer(probe)
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    r = g(*args, **kw)
                if r is not val or calls != [(args, kw)] or g.__name__ != 'probe' or g.__doc__ != 'doc' or 'probe' not in out.getvalue():
                    ctx.fail('functimer', args=args, got=r, calls=calls, printed=out.getvalue())
                ctx.trace()

        def bad():
            raise KeyError(7)
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                T.functimer(bad)()
                ctx.fail('functimer|error swallowed')
            except KeyError:
                pass
    finally:
        T.process_time_ns = keep
