"""Comparing two image files: difference and similar parts, pixel for pixel."""
import contextlib, io, itertools, shutil, tempfile
from pathlib import Path
from mc.core import *

BOUNDS = {
    'quick': 'every pair of contents of 1-bit 3x1, 4-bit 1x1 and three-colour 24-bit 2x1 images; every pair of sizes up to 9x3 and depths; every width 1..34 at every depth; sides to 2500 pixels; '
             'equal and different palettes; destination absent, existing or one of the sources; missing, foreign and identical inputs; difference applied twice',
    'thorough': 'as quick with every width to 70 and 1-bit 2x2 pairs'}


def units(tier):
    return [('tiny', i) for i in range(4)] + [('width', b) for b in DEPTHS] + [('pair', b) for b in DEPTHS] + [('dest', b) for b in DEPTHS] + [('missing',)]


OPS = {'imagediff': lambda a, b: a ^ b, 'showsimilarparts': lambda a, b: a & b}


def bind_msgs():
    from pythonbmp.messages import sysmsg
    return sysmsg


def Like(a, b):
    """image b in the palette of a"""
    b.pal = list(a.pal)
    return b


def run_unit(unit, ctx, tier):
    d = tempfile.mkdtemp(prefix='c28')
    try:
        go(unit, ctx, tier, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def go(unit, ctx, tier, d):
    B = bind()
    q = tier == 'quick'
    kind = unit[0]
    fa, fb, fo = (os.path.join(d, n) for n in ('a.bmp', 'b.bmp', 'out.bmp'))

    def compare(a, b, dst=None, extra=''):
        ba, bb = bytes(mkbuf(a)), bytes(mkbuf(b))
        for nm, f in OPS.items():
            sig = '%s|b%d%s' % (nm, a.bits, extra)
            Path(fa).write_bytes(ba)
            Path(fb).write_bytes(bb)
            out = dst or fo
            if dst is None and os.path.exists(fo):
                os.remove(fo)
            before = Path(out).read_bytes() if os.path.exists(out) else None
            with contextlib.redirect_stdout(io.StringIO()) as said:
                ok, _ = call(ctx, sig, getattr(B, nm), fa, fb, out)
            ctx.trace()
            if not ok:
                continue
            said, msg = said.getvalue(), bind_msgs()
            for key, must in (('cantcomparefiles', (a.w, a.h, a.bits) != (b.w, b.h, b.bits)),
                              ('diffpal', (a.w, a.h, a.bits) == (b.w, b.h, b.bits) and a.bits < 24 and [p[:3] for p in a.pal] != [p[:3] for p in b.pal])):
                if (msg[key].split('%')[0] in said) != must:
                    ctx.fail(sig + '|said', a=(a.w, a.h, a.bits), b=(b.w, b.h, b.bits), message=msg[key], got=said[:200])
            for p, v in ((fa, ba), (fb, bb)):
                if p != out and Path(p).read_bytes() != v:
                    ctx.fail(sig + '|source changed')
            same = (a.w, a.h, a.bits) == (b.w, b.h, b.bits)
            if not same:
                got = Path(out).read_bytes() if os.path.exists(out) else None
                if got != before:
                    ctx.fail(sig + '|different sizes compared', a=(a.w, a.h, a.bits), b=(b.w, b.h, b.bits))
                continue
            if not os.path.exists(out):
                ctx.fail(sig + '|nothing written')
                continue
            raw = Path(out).read_bytes()
            try:
                g = decode(raw)
            except BadImage as e:
                ctx.fail(sig + '|malformed', error=str(e))
                continue
            want = [[f(p, s) for p, s in zip(r, t)] for r, t in zip(a.px, b.px)]
            if (g.w, g.h, g.bits) != (a.w, a.h, a.bits):
                ctx.fail(sig + '|shape', got=(g.w, g.h, g.bits))
            elif g.px != want:
                ctx.fail(sig, size=(a.w, a.h), diff=grid_diff(want, g.px))
            elif a.bits < 24 and [p[:3] for p in g.pal] != [p[:3] for p in a.pal]:
                ctx.fail(sig + '|palette')
            elif any(pad_bits(raw, a.w, a.h, a.bits)):
                ctx.fail(sig + '|padding', size=(a.w, a.h))
            elif nm == 'imagediff' and out == fo:
                # the difference applied to one image gives the other
                call(ctx, sig, B.imagediff, fo, fb, fo)
                if Path(fo).read_bytes() != ba:
                    ctx.fail(sig + '|twice', size=(a.w, a.h))
            ctx.state((nm, ba, bb))
    if kind == 'tiny':
        i = unit[1]
        if i == 0:
            n = 3 if q else 4
            sh = (3, 1) if q else (2, 2)
            for v, u in itertools.product(range(1 << n), repeat=2):
                im = [mkimg(sh[0], sh[1], 1, [[t >> (y * sh[0] + x) & 1 for x in range(sh[0])] for y in range(sh[1])]) for t in (v, u)]
                compare(*im)
        elif i == 1:
            for v, u in itertools.product(range(16), repeat=2):
                compare(mkimg(1, 1, 4, [[v]]), mkimg(1, 1, 4, [[u]]))
        elif i == 2:
            cols = (0, 0xFFFFFF, 0x0F80F1)
            for v in itertools.product(cols, repeat=4):
                compare(mkimg(2, 1, 24, [list(v[:2])]), mkimg(2, 1, 24, [list(v[2:])]))
        else:
            for v in range(256):
                for u in (0, 255, 85, v, 255 - v):
                    compare(mkimg(1, 1, 8, [[v]]), mkimg(1, 1, 8, [[u]]))
    elif kind == 'width':
        bits = unit[1]
        for w in range(1, 35 if q else 71):
            compare(mkimg(w, 2, bits), mkimg(w, 2, bits, k=1))
            if bits < 24:
                b = mkimg(w, 2, bits, k=2)
                b.pal = [(255 - p[0], p[2], p[1], 0) for p in b.pal]
                compare(mkimg(w, 2, bits), b)
                for c in (b, b.copy()):     # the same palette in both, other than the usual one
                    c.pal = [(255 - p[0], p[2], p[1] ^ w, 0) for p in b.pal]
                    compare(c, Like(c, mkimg(w, 2, bits, k=1)))
        if bits < 24:
            # palettes that differ in one channel of one entry only
            for e in range(1 << bits):
                for ch in range(3):
                    for d in (1, 128) if e % 5 == 0 or bits < 8 else (1 << e % 8,):
                        b = mkimg(5, 2, bits, k=2)
                        p = list(b.pal[e])
                        p[ch] ^= d
                        b.pal = [*b.pal[:e], tuple(p), *b.pal[e + 1:]]
                        compare(mkimg(5, 2, bits), b)
        for w, h in ((301, 283), (5, 1100), (2500, 3)):
            compare(mkimg(w, h, bits), mkimg(w, h, bits, k=1))
            b = mkimg(w, h, bits)
            b.px[0][-1] ^= 1            # one pixel apart, in the first and in the last row
            b.px[-1][w // 2] ^= 1
            compare(mkimg(w, h, bits), b)
        ctx.sample('every width at %d bits' % bits)
    elif kind == 'pair':
        sizes = [(1, 1), (2, 1), (1, 2), (3, 3), (9, 3), (8, 3), (3, 9)]
        for s in sizes:
            for t in sizes:
                for b2 in DEPTHS:
                    compare(mkimg(s[0], s[1], unit[1]), mkimg(t[0], t[1], b2, k=1))
        for s, t in itertools.permutations([(3, 3), (259, 3), (3, 259), (515, 3)], 2):      # alike but for the second byte of a side
            compare(mkimg(*s, unit[1]), mkimg(*t, unit[1], k=1))
        ctx.sample('every pair of sizes and depths')
    elif kind == 'dest':
        bits = unit[1]
        for w, h in ((5, 3), (9, 2)):
            a, b = mkimg(w, h, bits), mkimg(w, h, bits, k=1)
            compare(a, b, dst=fa, extra='|over first')
            compare(a, b, dst=fb, extra='|over second')
            Path(fo).write_bytes(b'BM' + b'\x99' * 4000)
            compare(a, b, dst=fo, extra='|over longer file')
            compare(a, a.copy())
            compare(a, mkimg(w + 1, h, bits), dst=fa, extra='|refused over first')
    elif kind == 'missing':
        good = bytes(mkbuf(mkimg(4, 3, 24)))
        for nm in OPS:
            for x, y in itertools.product(('good', 'none', 'dir'), repeat=2):
                for pre in (None, b'keep me'):
                    paths = []
                    for p, s in ((fa, x), (fb, y)):
                        if os.path.isdir(p):
                            os.rmdir(p)
                        elif os.path.exists(p):
                            os.remove(p)
                        if s == 'good':
                            Path(p).write_bytes(good)
                        elif s == 'dir':
                            os.mkdir(p)
                    if os.path.exists(fo):
                        os.remove(fo)
                    if pre:
                        Path(fo).write_bytes(pre)
                    call(ctx, nm + '|missing', getattr(B, nm), fa, fb, fo)
                    ctx.trace()
                    got = Path(fo).read_bytes() if os.path.exists(fo) else None
                    if (x, y) != ('good', 'good') and got != pre:
                        ctx.fail(nm + '|missing|destination touched', inputs=(x, y))
                    ctx.state((nm, x, y, pre))
        ctx.sample('every combination of existing, missing and directory inputs')
