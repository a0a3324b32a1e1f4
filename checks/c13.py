"""Text rendering: glyph bits, scaling, slant, mirroring, layout and the text-to-file wrappers."""
from mc.core import *
from mc.gridop import *
from mc.draw import *
from mc.disc import *
import itertools, os, io, contextlib, tempfile, shutil

BOUNDS = {
    'quick': 'all 256 glyphs of all six fonts in every style at scale 1; scales 1-5 with every pixel gap and both cell shapes on single-bit and dense patterns; '
             'positions across every border at all depths; every string of length <= 3 over {A, b, space, newline, tab} in every style; every text-to-file wrapper '
             'over strings, scales, gaps, depths and background colours; colour lists of 1-4 entries; every pattern byte; '
             'every pattern and string function with scales to 45, gaps from -5 to 44, long texts and far positions on images to 451x447',
    'thorough': 'as quick with strings of length <= 4 and scales to 7'}

FONTS = ['font8x8', 'font8x8thin', 'font8x14', 'font8x14thin', 'font8x8sanserif', 'font8x14sanserif']
COL = {1: 1, 4: 6, 8: 0xa5, 24: 0x123456}

# pattern function -> (cell kind, dots?)
PAT = {
    'plot8bitpattern': ('up', 0), 'plot8bitpatternasdots': ('up', 1),
    'plotitalic8bitpattern': ('it', 0), 'plotitalic8bitpatternasdots': ('it', 1),
    'plotrotated8bitpattern': ('rot', 0), 'plotrotated8bitpatternasdots': ('rot', 1),
    'plotreverseditalic8bitpattern': ('rotit', 0), 'plotreverseditalic8bitpatternasdots': ('rotit', 1),
    'plot8bitpatternupsidedown': ('ud', 0), 'plot8bitpatternupsidedownasdots': ('ud', 1),
    'plotupsidedownitalic8bitpattern': ('udit', 0), 'plotupsidedownitalic8bitpatternasdots': ('udit', 1),
    'plotitalic8bitpatternupdsidedownasdots': ('udit', 1),
    'plot8bitpatternsideway': ('side', 0), 'plot8bitpatternsidewaywithdots': ('side', 1),
    'plotitalic8bitpatternsideway': ('sideit', 0), 'plotitalic8bitpatternsidewayasdots': ('sideit', 1),
}
# string function -> (reversed order?, cell kind, dots?, layout)
STR = {
    'plotstring': (0, 'up', 0, 'h'), 'plotstringasdots': (0, 'up', 1, 'h'),
    'plotitalicstring': (0, 'it', 0, 'h'), 'plotitalicstringasdots': (0, 'it', 1, 'h'),
    'plotreverseditalicstring': (1, 'rotit', 0, 'h'), 'plotreverseditalicstringasdots': (1, 'rotit', 1, 'h'),
    'plotstringupsidedown': (1, 'ud', 0, 'h'), 'plotstringupsidedownasdots': (1, 'ud', 1, 'h'),
    'plotupsidedownitalicstring': (1, 'udit', 0, 'h'), 'plotupsidedownitalicstringasdots': (1, 'udit', 1, 'h'),
    'plotreversestring': (1, 'rot', 0, 'h'), 'plotreversestringasdots': (1, 'rot', 1, 'h'),
    'plotstringsideway': (0, 'side', 0, 's'), 'plotstringsidewayasdots': (0, 'side', 1, 's'),
    'plotitalicstringsideway': (0, 'sideit', 0, 's'), 'plotitalicstringsidewayasdots': (0, 'sideit', 1, 's'),
    'plotstringvertical': (0, 'up', 0, 'v'), 'plotstringverticalasdots': (0, 'up', 1, 'v'),
    'plotitalicstringvertical': (0, 'it', 0, 'v'), 'plotitalicstringverticalasdots': (0, 'it', 1, 'v'),
}
FILE = {
    'plotstring2file': (0, 'up', 0, 'h'), 'plotverticalstring2file': (0, 'up', 0, 'v'),
    'plotitalicstring2file': (0, 'it', 0, 'h'), 'plotverticalitalicstring2file': (0, 'it', 0, 'v'),
    'plotreverseditalicstring2file': (1, 'rotit', 0, 'h'), 'plotverticalstringasdots2file': (0, 'up', 1, 'v'),
    'plotverticalitalicstringasdots2file': (0, 'it', 1, 'v'), 'plotstringasdots2file': (0, 'up', 1, 'h'),
    'plotitalicstringasdots2file': (0, 'it', 1, 'h'), 'plotreversedstring2file': (1, 'rot', 0, 'h'),
    'plotreversedstringasdots2file': (1, 'rot', 1, 'h'), 'plotupsidedownstring2file': (1, 'ud', 0, 'h'),
    'plotupsidedownstringasdots2file': (1, 'ud', 1, 'h'),
}


def units(tier):
    q = tier == 'quick'
    u = [('font', f) for f in FONTS]
    u += [('glyph', p, f) for p in PAT for f in FONTS]
    u += [('scale', p, b) for p in PAT for b in DEPTHS]
    u += [('edge', p, b) for p in PAT for b in DEPTHS]
    u += [('cols', p) for p in PAT]
    u += [('str', s, 3 if q else 4) for s in STR]
    u += [('large', n) for n in list(PAT) + list(STR)]
    u += [('file', f) for f in FILE]
    u += [('bytes',), ('astext',), ('attr',)]
    return u


def cells(kind, x, y, rows, s):
    """(x, y, row number) of every lit cell of a glyph, in drawing order; the second list leaves out the
    cells of bit 0 in mirrored glyphs (recorded defect of rotatebits)."""
    h = len(rows)
    out, lost = [], []
    it = kind.endswith('it')
    if kind in ('it', 'rotit'):
        x += (s >> 1) * h if s > 1 else h >> 1
    for i, b in enumerate(rows[::-1] if kind in ('ud', 'udit') else rows):
        for j in range(8):
            if kind in ('rot', 'rotit'):
                lit, weak = b >> j & 1, j == 0
            else:
                lit, weak = b >> (7 - j) & 1, False
            if lit:
                c = (x, y - j * s, i) if kind.startswith('side') else (x + j * s, y, i)
                out.append(c)
                if not weak:
                    lost.append(c)
        if kind.startswith('side'):
            x += s
            if it:
                y += s >> 1
                if s == 1 and x % 2 == 0:
                    y += 1
        else:
            y += s
            if it:
                x -= s >> 1
                if s == 1 and y % 2 == 0:
                    x -= 1
    return out, lost


def put(g, cs, s, gap, cols, dots, bits, defect4):
    """Draw cells on grid g in order."""
    h, w = len(g), len(g[0])
    inc = s - 1 - gap
    m = (1 << bits) - 1
    for x, y, i in cs:
        c = cols[i % len(cols)] & m
        if s == 1 or inc <= 0:
            if 0 <= x < w and 0 <= y < h:
                g[y][x] = c
            continue
        if dots:
            r = inc >> 1
            rh = rowhalf(r)
            rws = [(y + r + d, x + r - rh[abs(d)], x + r + rh[abs(d)]) for d in range(-r, r + 1)]
        else:
            if x < 0 or y < 0 or x + inc >= w or y + inc >= h:
                continue            # a square that leaves the image is not drawn
            rws = [(y + d, x, x + inc) for d in range(inc + 1)]
        for yy, a, b in rws:
            if defect4:
                row4(g, yy, a, b, c)
            elif 0 <= yy < h:
                for xx in range(max(a, 0), min(b, w - 1) + 1):
                    g[yy][xx] = c


def layout(order, lay, text, x, y, s, sp, fh):
    """(character, x, y) for each glyph of a string."""
    sp = sp or 1
    xs, ys = 8 * s + sp, fh * s + sp
    ox, oy = x, y
    out = []
    for ch in (text[::-1] if order else text):
        if ch == '\n':
            if lay == 'h':
                x, y = ox, y + ys
            elif lay == 'v':
                x, y = x + xs, oy
            else:
                x, y = x + ys, oy
        elif ch == '\t':
            if lay == 'h':
                x += 4 * xs
            elif lay == 'v':
                y += 4 * ys
            else:
                y -= 4 * xs
        else:
            out.append((ch, x, y))
            if lay == 'h':
                x += xs
            elif lay == 'v':
                y += ys
            else:
                y -= xs
    return out


def models(px, bits, jobs, s, gap, cols, dots):
    """jobs: list of (full cells, cells without bit 0).  Expected grid and the recorded defects' grids."""
    def run(k, d4):
        g = [r[:] for r in px]
        for j in jobs:
            put(g, j[k], s, gap, cols, dots, bits, d4)
        return g
    want = run(0, False)
    known = {}
    weak = any(len(a) != len(b) for a, b in jobs)
    if weak:
        known['|knownrot'] = run(1, False)
    if bits == 4 and s > 1 and s - 1 - gap > 0:
        known['|known4bit'] = run(0, True)
        if weak:
            known['|knownrot4'] = run(1, True)
    return want, known


def run_unit(unit, ctx, tier):
    B = bind()
    from pythonbmp import fonts as F
    kind = unit[0]
    q = tier == 'quick'
    if kind == 'font':
        f = getattr(F, unit[1])
        h = f[0]
        if len(f) < 1 + 256 * h or h != int(unit[1].split('x')[1][:2].rstrip('tsan')):
            ctx.fail('font|size', font=unit[1], height=h, length=len(f))
        seen = {}
        for i in range(256):
            ok, g = call(ctx, 'getcharfont', F.getcharfont, f, chr(i))
            if not ok:
                continue
            if list(g) != list(f[1 + i * h:1 + i * h + h]):
                ctx.fail('getcharfont', font=unit[1], char=i, got=list(g))
            if 33 <= i < 127:
                if not any(g):
                    ctx.fail('font|blank', font=unit[1], char=i)
                if tuple(g) in seen:
                    ctx.fail('font|duplicate', font=unit[1], char=i, other=seen[tuple(g)])
                seen[tuple(g)] = i
            if i == 32 and any(g):
                ctx.fail('font|space', font=unit[1])
            ctx.trace()
            ctx.state((unit[1], i))
    elif kind == 'glyph':
        _, pn, fn = unit
        f = getattr(F, fn)
        h = f[0]
        ck, dots = PAT[pn]
        w, hh = 26, 24
        x, y = (12, 12) if ck.startswith('side') else (9, 5)
        for bits in (24, 1):
            img = mkimg(w, hh, bits, px=[[0] * w for _ in range(hh)])
            c = Case(img)
            for i in range(256) if bits == 24 else range(1, 256, 5):
                rows = list(f[1 + i * h:1 + i * h + h])
                j = cells(ck, x, y, rows, 1)
                want, kn = models(img.px, bits, [j], 1, 0, [COL[bits]], dots)
                apply_inplace(ctx, '%s|b%d' % (pn, bits), c, getattr(B, pn), (x, y, rows, 1, 0, COL[bits]), want, known=kn)
                ctx.trace()
        ctx.state(unit)
    elif kind == 'scale':
        _, pn, bits = unit
        ck, dots = PAT[pn]
        rows_all = [[1 << k] for k in range(8)] + [[255, 129, 90], [0x81, 0, 0xff, 0x3c]]
        for s in range(1, 6 if q else 8):
            for gap in range(0, s + 1):
                w, hh = 12 * s + 4, 12 * s + 4
                img = mkimg(w, hh, bits)
                c = Case(img)
                x, y = (s + 1, 9 * s) if ck.startswith('side') else (2 * s, s + 1)
                for rows in rows_all:
                    j = cells(ck, x, y, rows, s)
                    want, kn = models(img.px, bits, [j], s, gap, [COL[bits]], dots)
                    apply_inplace(ctx, '%s|b%d' % (pn, bits), c, getattr(B, pn), (x, y, rows, s, gap, COL[bits]), want, known=kn)
                    ctx.trace()
                ctx.state((pn, bits, s, gap))
    elif kind == 'edge':
        _, pn, bits = unit
        ck, dots = PAT[pn]
        rows = [0xff, 0x81, 0xbd]
        w, hh = {1: 32, 4: 8, 8: 12, 24: 12}[bits], 9      # no padding bytes
        for s, gap in ((1, 0), (2, 0), (3, 0), (3, 1), (4, 1)):
            img = mkimg(w, hh, bits)
            c = Case(img)
            for x in range(-8 * s, w + 2, 1 if s == 1 else 3):
                for y in range(-3 * s, hh + 8 * s + 1, 1 if s == 1 else 3):
                    j = cells(ck, x, y, rows, s)
                    want, kn = models(img.px, bits, [j], s, gap, [COL[bits]], dots)
                    apply_inplace(ctx, '%s|b%d' % (pn, bits), c, getattr(B, pn), (x, y, rows, s, gap, COL[bits]), want, known=kn)
                    ctx.trace()
            ctx.state((pn, bits, s, gap))
    elif kind == 'large' and unit[1] in PAT:
        # far positions, big cells, wide and negative gaps
        pn = unit[1]
        ck, dots = PAT[pn]
        side = ck.startswith('side')
        rows = [0x99, 0x42, 0x81]
        for bits in ((24, 8) if q else DEPTHS):
            for s, gap, (w, hh) in ((13, 0, (170, 180)), (14, 4, (170, 181)), (19, 14, (211, 190)), (45, 3, (440, 420)), (44, 41, (440, 421)), (3, -5, (90, 97)), (4, -1, (90, 97)), (1, 44, (90, 97)), (2, 0, (451, 447))):
                img = mkimg(w, hh, bits)
                c = Case(img)
                for x, y in ((s + 2, hh - 2 * s), (w - 9 * s, 8 * s + 3), (w // 2, hh // 2), (-s - 5, hh // 3), (w // 3, -s - 6), (-3 * s - 41, hh // 2), (w - 4 * s, hh - s - 44)):
                    j = cells(ck, x, y, rows, s)
                    want, kn = models(img.px, bits, [j], s, gap, [COL[bits]], dots)
                    apply_inplace(ctx, '%s|b%d' % (pn, bits), c, getattr(B, pn), (x, y, rows, s, gap, COL[bits]), want, known=kn)
                    ctx.trace()
                ctx.state((pn, bits, s, gap))
    elif kind == 'large':
        sn = unit[1]
        order, ck, dots, lay = STR[sn]
        for bits in ((24, 8) if q else DEPTHS):
            for text, s, gap, sp, fn in (('Hello, model checker!', 1, 0, 0, 'font8x8'), ('Wide\n\ta gap 0123456789', 1, 0, 14, 'font8x14'), ('Ab\nC', 13, 2, 3, 'font8x8'),
                                         ('oK', 14, 4, -5, 'font8x8'), ('a\tZ\nq', 2, 0, 49, 'font8x14thin'), ('{}', 19, 14, 45, 'font8x8'), ('x', 44, 41, 1, 'font8x8'),
                                         ('A long line of text\nand\tanother', 3, -5, -1, 'font8x8thin'), ('The quick brown fox jumps over the lazy dog 0123', 1, 0, 4, 'font8x8')):
                f = getattr(F, fn)
                fh = f[0]
                for w, hh, x, y in ((448, 407, 14, 19), (448, 407, 49, 44), (448, 407, -7, -9), (331, 421, 304, 44), (331, 421, 44, 394), (320, 99, 300, -2)):
                    if lay == 's' and y < 300:
                        y = hh - y
                    img = mkimg(w, hh, bits, px=[[0] * w for _ in range(hh)])
                    c = Case(img)
                    jobs = [cells(ck, gx, gy, list(f[1 + ord(ch) * fh:1 + ord(ch) * fh + fh]), s) for ch, gx, gy in layout(order, lay, text, x, y, s, sp, fh)]
                    want, kn = models(img.px, bits, jobs, s, gap, [COL[bits]], dots)
                    apply_inplace(ctx, '%s|b%d' % (sn, bits), c, getattr(B, sn), (x, y, text, s, gap, sp, COL[bits], f), want, known=kn)
                    ctx.trace()
                    ctx.state((sn, s, text, x))
    elif kind == 'cols':
        pn = unit[1]
        ck, dots = PAT[pn]
        if ck == 'rot':
            return          # mirrored upright text takes one colour only
        rows = [0xff, 0x81, 0xbd, 0x18, 0xff, 1]
        for bits, base in ((24, 0x10203), (8, 0x21), (4, 3)):
            for n in range(1, 5):
                cols = [base * (k + 1) for k in range(n)]
                for s, gap in ((1, 0), (2, 0), (3, 1)):
                    w, hh = 14 * s, 14 * s
                    img = mkimg(w, hh, bits)
                    c = Case(img)
                    x, y = (s, 9 * s) if ck.startswith('side') else (4 * s, s)
                    j = cells(ck, x, y, rows, s)
                    want, kn = models(img.px, bits, [j], s, gap, cols, dots)
                    for t in (list, tuple):
                        apply_inplace(ctx, '%s|b%d' % (pn, bits), c, getattr(B, pn), (x, y, rows, s, gap, t(cols)), want, known=kn)
                    ctx.trace()
                    ctx.state((pn, bits, n, s))
            # more rows and more colours than any font has, far positions
            many = [(k * 37 + 5 | k & 1) & 0xff or 0xff for k in range(47)]
            for n in (5, 8, 13, 14, 15, 16, 17, 33, 47) if bits == 24 else (7, 9, 12, 31, 44, 60):
                cols = [(base * (k + 1)) & ((1 << bits) - 1) for k in range(n)]
                for s, gap, (w, hh), at in ((1, 0, (70, 64), ((9, 5), (5, 11), (-3, -8), (60, 50))), (2, 0, (170, 160), ((66, 44),)), (3, 1, (350, 330), ((97, 43), (-5, -30), (44, 94)))):
                    img = mkimg(w, hh, bits)
                    c = Case(img)
                    for x, y in at:
                        if ck.startswith('side'):
                            y = hh - y
                        j = cells(ck, x, y, many, s)
                        want, kn = models(img.px, bits, [j], s, gap, cols, dots)
                        apply_inplace(ctx, '%s|b%d' % (pn, bits), c, getattr(B, pn), (x, y, many, s, gap, cols), want, known=kn)
                        ctx.trace()
                    ctx.state((pn, bits, n, s))
    elif kind == 'str':
        _, sn, n = unit
        order, ck, dots, lay = STR[sn]
        f = F.font8x8
        fh = f[0]
        for s, gap, sp, bits, dens in ((1, 0, 0, 24, 1), (1, 0, 3, 8, 2), (2, 0, 1, 24, 3), (3, 1, 2, 1, 7), (2, 1, 0, 4, 7)):
            w, hh = 46 * s if bits > 8 or s == 3 else 48 * s if bits == 8 else 64 * s, 44 * s
            x, y = (2, hh - 8 * s) if lay == 's' else (3, 2)
            img = mkimg(w, hh, bits, px=[[0] * w for _ in range(hh)])
            c = Case(img)
            k = 0
            for L in range(n + 1):
                for t in itertools.product('Ab \n\t', repeat=L):
                    k += 1
                    if k % (dens * (5 if L == 4 else 1)):
                        continue
                    text = ''.join(t)
                    jobs = [cells(ck, gx, gy, list(f[1 + ord(ch) * fh:1 + ord(ch) * fh + fh]), s) for ch, gx, gy in layout(order, lay, text, x, y, s, sp, fh)]
                    want, kn = models(img.px, bits, jobs, s, gap, [COL[bits]], dots)
                    apply_inplace(ctx, '%s|b%d' % (sn, bits), c, getattr(B, sn), (x, y, text, s, gap, sp, COL[bits], f), want, known=kn)
                    ctx.trace()
                    ctx.state((sn, s, text))
    elif kind == 'file':
        fn = unit[1]
        order, ck, dots, lay = FILE[fn]
        d = tempfile.mkdtemp(prefix='vc13')
        p = os.path.join(d, 't.bmp')
        try:
            for font in ('font8x8', 'font8x14'):
                f = getattr(F, font)
                fh = f[0]
                for text in ('A', 'gW', 'A\nbg', 'a\tb', 'abc\n\nx', ' ', 'A much longer line\nof text'):
                    for s, gap, sp in ((1, 0, 0), (2, 0, 1), (3, 1, 0), (2, 2, 4), (14, 4, 5), (13, 0, 44), (44, 41, 14), (1, 0, 9), (19, 14, -5)):
                        for bits, bg in ((24, 0), (24, 0x804020), (8, 9), (4, 2), (1, 0)):
                            if bits != 24 and len(text) > 3:
                                continue
                            if s > 9 and (len(text) > 3 or bits in (1, 4) or bg == 0x804020):
                                continue
                            if len(text) > 9 and s > 1:
                                continue
                            args = (p, text, s, gap, sp, COL[bits], f)
                            with contextlib.redirect_stdout(io.StringIO()):
                                ok, _ = call(ctx, fn, getattr(B, fn), *args, backgroundcolor=bg, bitdepth=bits)
                            if not ok:
                                continue
                            spc = sp or 1
                            lines = text.replace('\t', '    ').split('\n')
                            nc, nr = max(map(len, lines)), len(lines)
                            xs, ys = 8 * s + spc, fh * s + spc
                            w, hh = (nc * xs + 2 * s, nr * ys + 2 * s) if lay == 'h' else (nr * xs + 2 * s, nc * ys + 2 * s)
                            if ck in ('it', 'rotit'):
                                w += fh * (s >> 1) if s > 1 else fh >> 1
                            px = [[bg] * w for _ in range(hh)]
                            kn4 = [r[:] for r in px]
                            if bits == 4 and bg:
                                kn4 = [[0] * w for _ in range(hh)]
                                for r in range(hh):
                                    row4(kn4, r, 0, w - 1, bg)
                            jobs = [cells(ck, gx, gy, list(f[1 + ord(ch) * fh:1 + ord(ch) * fh + fh]), s) for ch, gx, gy in layout(order, lay, text, s, s, s, sp, fh)]
                            want, kn = models(px, bits, jobs, s, gap, [COL[bits]], dots)
                            if bits == 4:
                                for k, d4 in ((0, 0), (0, 1), (1, 0), (1, 1)):
                                    g = [r[:] for r in kn4]
                                    for j in jobs:
                                        put(g, j[k], s, gap, [COL[bits]], dots, bits, d4)
                                    kn['|knownbg%d%d' % (k, d4)] = g
                            # nothing of the text may be cut off
                            size = max(s - 1 - gap, 0) if s > 1 else 0
                            if any(not (0 <= a and a + size < w and 0 <= b and b + size < hh) for j in jobs for a, b, _ in j[0]):
                                ctx.fail(fn + '|cut', text=text, scale=s, size=(w, hh))
                            with open(p, 'rb') as fh_:
                                data = array('B', fh_.read())
                            os.unlink(p)
                            sig = '%s|b%d' % (fn, bits)
                            try:
                                got = decode(data)
                            except BadImage as e:
                                ctx.fail(sig + '|malformed', error=str(e), text=text)
                                continue
                            if (got.w, got.h, got.bits) != (w, hh, bits):
                                ctx.fail(sig + '|shape', expected=(w, hh, bits), got=(got.w, got.h, got.bits), text=text, scale=s)
                                continue
                            if got.px != want:
                                for suf, g in kn.items():
                                    if g == got.px:
                                        ctx.fail(sig + suf, text=text)
                                        break
                                else:
                                    ctx.fail(sig, text=text, scale=s, gap=gap, diff=grid_diff(want, got.px))
                            ctx.trace()
                            ctx.state((fn, font, text, s, gap, sp, bits, bg))
        finally:
            shutil.rmtree(d)
    elif kind == 'bytes':
        # every pattern byte in every style, both as a single row and mirrored
        w, hh = 20, 20
        img = mkimg(w, hh, 8, px=[[0] * w for _ in range(hh)])
        c = Case(img)
        for pn, (ck, dots) in PAT.items():
            x, y = (9, 15) if ck.startswith('side') else (5, 5)
            for b in range(256):
                j = cells(ck, x, y, [b], 1)
                want, kn = models(img.px, 8, [j], 1, 0, [7], dots)
                apply_inplace(ctx, pn + '|b8', c, getattr(B, pn), (x, y, [b], 1, 0, 7), want, known=kn)
                ctx.trace()
            ctx.state(pn)
    elif kind == 'astext':
        from pythonbmp import textgraphics as T
        for b in range(256):
            ok, s = call(ctx, 'plot8bitpatternastext', T.plot8bitpatternastext, [b, b ^ 255], '#', '.')
            want = ''.join('#' if b >> (7 - j) & 1 else '.' for j in range(8)) + '\n'
            want += ''.join('.' if c == '#' else '#' for c in want[:8]) + '\n'
            if ok and s != want:
                ctx.fail('plot8bitpatternastext', byte=b, got=s)
            o = io.StringIO()
            with contextlib.redirect_stdout(o):
                ok, _ = call(ctx, 'plotbitsastext', T.plotbitsastext, b)
            if ok and o.getvalue() != ''.join('*' if b >> (7 - j) & 1 else ' ' for j in range(8)):
                ctx.fail('plotbitsastext', byte=b, got=o.getvalue())
            ctx.trace()
            ctx.state(b)
        for t in itertools.product('a \t\n', repeat=4):
            text = ''.join(t)
            ok, r = call(ctx, 'computetextrowandcolcnt', T.computetextrowandcolcnt, text)
            l = text.replace('\t', '    ').split('\n')
            if ok and list(r) != [max(map(len, l)), len(l)]:
                ctx.fail('computetextrowandcolcnt', text=text, got=r)
        # an image printed as text: every row, top first
        for bits in (1, 4, 8):
            for w in (8, 16) if bits == 1 else (8,):
                for h in (1, 2, 3, 5):
                    img = mkimg(w, h, bits)
                    if bits == 8:
                        for r in img.px:
                            r[:] = [32 + v % 90 for v in r]
                    o = io.StringIO()
                    with contextlib.redirect_stdout(o):
                        ok, _ = call(ctx, 'plotbmpastext', B.plotbmpastext, mkbuf(img))
                    f = {1: lambda v: ' *'[v], 4: lambda v: chr(97 + v), 8: chr}[bits]
                    got = [l[:w] for l in o.getvalue().split('\n')[:-1]]
                    if ok and got != [''.join(map(f, r)) for r in img.px]:
                        ctx.fail('plotbmpastext|b%d' % bits, size=(w, h), got=got, expected=[''.join(map(f, r)) for r in img.px])
                    ctx.trace()
    elif kind == 'attr':
        # drawing never changes the pattern, the string or the font
        for pn in PAT:
            rows = [0xff, 1, 2]
            buf = mkbuf(mkimg(9, 9, 24))
            ok, _ = call(ctx, pn, getattr(B, pn), buf, 1, 1, rows, 2, 0, 5)
            if rows != [0xff, 1, 2]:
                ctx.fail(pn + '|pattern changed')
            ctx.trace()
        for sn in STR:
            before = bytes(F.font8x8)
            buf = mkbuf(mkimg(9, 9, 24))
            call(ctx, sn, getattr(B, sn), buf, 1, 1, 'ab', 2, 0, 1, 5, F.font8x8)
            if bytes(F.font8x8) != before:
                ctx.fail(sn + '|font changed')
            ctx.trace()
        ctx.state('attr')
