"""Parameter guards: every guarded operation over every depth, every place of its corners or disc around the edges, and every type of every coordinate."""
import contextlib, io, itertools
from decimal import Decimal
from fractions import Fraction
from mc.core import *

BOUNDS = {
    'quick': '60 guarded operations x every depth x (every corner or centre and radius over the edge values of 2 image sizes, including numbers of 40 bits; images of 70001 columns and of 70001 rows) and (every subset of the coordinates replaced by a value of another type: float, whole float, text, None, Fraction, Decimal, complex, list)',
    'thorough': 'as quick with 4 image sizes and every pair of other types'}

OTHER = [1.0, 1.5, '1', None, Fraction(1), Decimal(1), 1 + 0j, [1], True]
MSG = ('inttypereq', 'not24bit', 'not24or8bit', 'not4or8bit', 'regionoutofbounds')
ANY, D24, D824, D48 = DEPTHS, (24,), (8, 24), (4, 8)

RECT = {
    ANY: dict(filledrect=(1,), xygrid=([2, 3], 1), copyrect=(), itercopyrect=(), erasealternatehorizontallinesinregion=(2, 0, 0), eraseeverynthhorilineinregion=(2,), fliphorizontalregion=(), flipverticalregion=(),
              mirrortopinregion=(), mirrorbottominregion=(), mirrorleftinregion=(), mirrorrightinregion=(), mirrortopleftinregion=(), mirrortoprightinregion=(), mirrorbottomleftinregion=(), mirrorbottomrightinregion=(),
              fliphorzontalpixelbased=(), fliphverticalalpixelbased=(), crop=(), invertregion=(), itergetcolorfromrectregion=(), outlineregion=(), fern=(1,)),
    D24: dict(verticalbrightnessgradto24bitregion=([0, 255],), horizontalbrightnessgradto24bitregion=([0, 255],), brightnesseadjto24bitregion=(40,), thresholdadjto24bitregion=([30, 180],), colorfilterto24bitregion=([1, 0.5, 0],),
              gammaadjto24bitregion=(0.7,), monofilterto24bitregion=(), filleddichromaticgradrect=(0x000AFA, 0xC8141E, 0)),
    D824: dict(filledgradrect=([0, 255], [0.5, 1, 0.2], 0)),
}
CIRC = {
    ANY: dict(copycircregion2buf=(), flipXYcircregion=(), erasealternatehorizontallinesincircregion=(2, 0, 0), eraseeverynthhorizontallineinccircregion=(2,), flipvertcircregion=(), mirrortopincircregion=(), mirrorbottomincircregion=()),
    D824: dict(fliphoricircregion=(), mirrorleftincircregion=(), mirrorrightincircregion=()),
    D24: dict(vertbrightnessgrad2circregion=([0, 255],), horibrightnessgrad2circregion=([255, 0],), magnifyNtimescircregion=(2,), pixelizenxncircregion=(2,)),
}
# integer parameters, any place
CLIP = {
    ANY: dict(drawarc=(10, 80, 1, True, 1, False), outlinecircregion=(), sphere=([0.5, 1, 0.5],), thickencirclearea=([0.5, 1, 0.5],), invertbitsincircregion=()),
    D24: dict(monocircle=(), colorfiltercircregion=([1, 0.5, 0],), gammacorrectcircregion=(0.5,), brightnessadjcircregion=(35,), thresholdadjcircregion=([50, 120],)),
}
WHOLE = {D24: dict(graddichromiccircle=(4, 3, 2, 0xFF, 0xFF00), resizeNtimessmaller=(2,)), D48: dict(palshift=(1,), itercolorcycle=())}


def units(tier):
    return [(kind, name) for kind, t in (('rect', RECT), ('circ', CIRC), ('clip', CLIP), ('whole', WHOLE)) for d in t.values() for name in d] + \
        [('huge', name) for t in (RECT, CIRC) for d in t.values() for name in d if name != 'fern']


def run_unit(unit, ctx, tier):
    bind()
    kind, name = unit
    t = dict(rect=RECT, circ=CIRC, clip=CLIP, whole=WHOLE, huge={d: {**RECT.get(d, {}), **CIRC.get(d, {})} for d in (*RECT, *CIRC)})[kind]
    depths, args = next((d, t[d][name]) for d in t if name in t[d])
    with contextlib.redirect_stdout(io.StringIO()) as out:
        globals()[kind](ctx, tier, name, depths, args, out)


SIZES = {'quick': ((9, 6), (4, 7), (32, 3)), 'thorough': ((9, 6), (4, 7), (32, 3), (2, 2), (17, 3))}


class Run:
    def __init__(self, ctx, name, depths, args, out):
        import pythonbmp.BITMAPlib as B
        from pythonbmp.messages import sysmsg
        self.ctx, self.name, self.depths, self.args, self.out = ctx, name, depths, args, out
        self.fn = getattr(B, name)
        self.words = {k: sysmsg[k] for k in MSG}
        self.last = None

    def __call__(self, bits, img, where, reasons):
        """call with the coordinates; reasons: what of it calls for a refusal"""
        ctx = self.ctx
        if self.last is not img:
            self.last, self.fresh = img, mkbuf(img)
        buf = self.fresh[:]
        before = bytes(buf)
        self.out.seek(0)
        self.out.truncate()
        d = dict(at=where, bits=bits, size=(img.w, img.h))
        args = [list(a) if isinstance(a, list) else a for a in self.args]
        given = list(where)
        ok, r = call(ctx, self.name + '|raised', self.fn, buf, *given, *args)
        ctx.trace()
        if not ok:
            return
        if reasons:
            said = self.out.getvalue()
            if r is not None:
                ctx.fail(self.name + '|ran', returned=type(r).__name__, reasons=sorted(reasons), **d)
            if bytes(buf) != before:
                ctx.fail(self.name + '|changed', reasons=sorted(reasons), **d)
            if not any(self.words[k] in said for k in reasons):
                ctx.fail(self.name + '|message', said=said[:80], reasons=sorted(reasons), **d)
        else:
            if hasattr(r, '__next__'):
                list(r)
            said = self.out.getvalue()
            if any(m in said for m in self.words.values()):
                ctx.fail(self.name + '|refused', said=said[:80], **d)
            if len(buf) != len(before) or bytes(buf[:54]) != before[:54]:
                ctx.fail(self.name + '|header', **d)
        ctx.state((self.name, bits, img.w, img.h, repr(where)))

    def depth(self, bits):
        if bits in self.depths:
            return set()
        return {{D24: 'not24bit', D824: 'not24or8bit', D48: 'not4or8bit'}[self.depths]}


def types(n, tier):
    """which coordinates get another type, and which"""
    for k in range(1, n + 1):
        for which in itertools.combinations(range(n), k):
            if tier == 'thorough' and k == 2:
                yield from (dict(zip(which, o)) for o in itertools.product(OTHER, repeat=2))
            else:
                yield from (dict.fromkeys(which, o) for o in OTHER)


def rect(ctx, tier, name, depths, args, out):
    go = Run(ctx, name, depths, args, out)
    big = name == 'fern'        # paints 10000s of points a call
    for w, h in SIZES[tier]:
        if name.startswith(('filledgrad', 'filleddichro')) and min(w, h) < 2:
            continue
        for bits in DEPTHS:
            img = mkimg(w, h, bits)
            xs, ys = (-1, 0, w // 2, w - 1, w, 1 << 40), (-1, 0, h // 2, h - 1, h, -(1 << 40))
            for x1, x2 in itertools.product(xs, repeat=2):
                for y1, y2 in itertools.product(ys, repeat=2):
                    inside = all(0 <= x < w for x in (x1, x2)) and all(0 <= y < h for y in (y1, y2))
                    if inside and (big and (x1, y1) != (0, 0) or x1 == x2 or y1 == y2):
                        continue
                    if inside and (x1 > x2 or y1 > y2) and depths == ANY:
                        pass
                    go(bits, img, (x1, y1, x2, y2), go.depth(bits) | (set() if inside else {'regionoutofbounds'}))
            for t in types(4, tier):
                where = [1, 1, w - 1, h - 1]
                for k, v in t.items():
                    where[k] = v
                go(bits, img, tuple(where), go.depth(bits) | {'inttypereq'})
    ctx.sample(name)


def circ(ctx, tier, name, depths, args, out):
    go = Run(ctx, name, depths, args, out)
    for w, h in SIZES[tier]:
        for bits in DEPTHS:
            img = mkimg(w, h, bits)
            for x, y, r in itertools.product(list(range(-2, w + 2)) + [1 << 40], list(range(-2, h + 2)) + [-(1 << 40)], (0, 1, 2, 3, 9)):
                inside = 0 <= x - r and x + r < w and 0 <= y - r and y + r < h
                go(bits, img, (x, y, r), go.depth(bits) | (set() if inside else {'regionoutofbounds'}))
            for t in types(3, tier):
                where = [1, 1, 1]
                for k, v in t.items():
                    where[k] = v
                go(bits, img, tuple(where), go.depth(bits) | {'inttypereq'})
    ctx.sample(name)


def huge(ctx, tier, name, depths, args, out):
    """Images more than 65535 pixels wide or tall: the guards know their true size."""
    go = Run(ctx, name, depths, args, out)
    disc = any(name in d for d in CIRC.values())
    for bits in depths:
        for w, h in ((70001, 4), (4, 70001)):
            px = [[0] * w] * h
            img = mkimg(w, h, bits, px)
            for a in (0, 4464, 4466, 65534, 65536, 69000, 69998, 70000, 70001, 80000):
                if disc:
                    for r in (0, 1):
                        c = (a, 2, r) if w > h else (2, a, r)
                        ok = a - r >= 0 and a + r < 70001
                        go(bits, img, c, set() if ok else {'regionoutofbounds'})
                else:
                    for b in (a + 2, 3 if a < 5000 else a + 3, 70001):
                        c = (a, 0, b, 2) if w > h else (0, a, 2, b)
                        if abs(b - a) > 9 and b < 70001 and a < 70001:
                            continue
                        go(bits, img, c, set() if max(a, b) < 70001 else {'regionoutofbounds'})
    ctx.sample(name)


def clip(ctx, tier, name, depths, args, out):
    go = Run(ctx, name, depths, args, out)
    for w, h in SIZES[tier]:
        for bits in DEPTHS:
            img = mkimg(w, h, bits)
            for x, y, r in itertools.product((-9, -1, 0, 2, w, w + 9), (-9, 0, h // 2, h - 1, h + 9), (0, 1, 2, 3, 9)):
                go(bits, img, (x, y, r), go.depth(bits))
            for t in types(3, tier):
                where = [2, 2, 2]
                for k, v in t.items():
                    where[k] = v
                go(bits, img, tuple(where), go.depth(bits) | {'inttypereq'})
    ctx.sample(name)


def whole(ctx, tier, name, depths, args, out):
    for w, h in SIZES[tier]:
        for bits in DEPTHS:
            go = Run(ctx, name, depths, args, out)
            go(bits, mkimg(w, h, bits), (), go.depth(bits))
            if name == 'graddichromiccircle' and bits == 24:
                for x, y, r in itertools.product((-9, 0, w, w + 9), (-9, 0, h, h + 9), (1, 2, 9)):
                    go.args = (x, y, r, 0xFF, 0xFF00)
                    go(bits, mkimg(w, h, bits), (), set())
    ctx.sample(name)
