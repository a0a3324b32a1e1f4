"""One table of public operations of the whole library with small arguments, for properties about every operation.

Entry: (name, depths, run) where run(buf, w, h, bits) -> returned value; buf is the image the operation may change.
All arguments are built afresh on every call; ARGS (last call) lets a caller see whether an operation changed them."""
from .core import *
from . import optable

ALL = (1, 4, 8, 24)
LAST = []


def cache_args(args):
    LAST[:] = [args]
    return args


def table(B, scratch=None):
    from checks import c14
    from pythonbmp import primitives2D as P, solids3D as S, fractals as F, colors as C, mathlib as M, charts, textgraphics as T, fonts
    from pythonbmp import bufresize as R, buffersplit as BS, bufferflip as BF, inttools as I, colordict, X11colordict as X11, XKCDcolordict as XK, chartools as CT, dicttools as DT
    t = []

    def add(name, fn, make, depths=ALL, img=True, gen=False):
        def run(buf, w, h, bits):
            args = cache_args(make(w, h, bits, buf))
            r = fn(buf, *args) if img else fn(*args)
            return list(r) if gen else r
        run.make, run.fn, run.img, run.gen = make, fn, img, gen
        t.append((name, depths, run))
    # every drawing operation, two argument sets
    for name, modes, fn, make in optable.table(B):
        for j, (x, y, s, c) in enumerate(((4, 4, 3, 5), (7, 3, 2, 0x3))):
            add('%s#%d' % (name, j), fn, lambda w, h, b, buf, make=make, a=(x, y, s, c): make(a[0], a[1], a[2], a[3] & ((1 << b) - 1)))
    # every in-memory transformation that has a file variant
    seen = set()
    for fname, op, how, args, only in c14.table():
        if op in seen:
            continue
        seen.add(op)
        for a in (args[0], args[len(args) // 2]):
            add('%s%s' % (op, repr(a)[:40]), getattr(B, op), lambda w, h, b, buf, a=a: c14.args_of(a), (24,) if only else ALL)
    # queries
    for n in ('getmaxx getmaxy getmaxxy bottomrightcoord centercoord getmaxcolors getmaxxyandbits isdefaultpal getBMPimgbytes getallRGBpal colorhistogram '
              'copyBMPhdr CopyBMPxydim2newBMP getBGRpalbuf upgradeto24bitimage').split():
        add(n, getattr(B, n), lambda w, h, b, buf: ())
    add('isinBMPrectbnd', B.isinBMPrectbnd, lambda w, h, b, buf: (3, h))
    add('listinBMPrecbnd', B.listinBMPrecbnd, lambda w, h, b, buf: ([(1, 2), (3, 4)],))
    add('getxybit', B.getxybit, lambda w, h, b, buf: (3, 4))
    add('getRGBxybit', B.getRGBxybit, lambda w, h, b, buf: (3, 4))
    add('getxybitvec', B.getxybitvec, lambda w, h, b, buf: ((3, 4),))
    add('getRGBxybitvec', B.getRGBxybitvec, lambda w, h, b, buf: ((3, 4),))
    add('getRGBpal', B.getRGBpal, lambda w, h, b, buf: (1,), (1, 4, 8))
    add('iterimageRGB', B.iterimageRGB, lambda w, h, b, buf: ('', '', ''), gen=True)
    add('iterimagecolor', B.iterimagecolor, lambda w, h, b, buf: ('', '', ''), gen=True)
    add('getneighborcolorlist', B.getneighborcolorlist, lambda w, h, b, buf: ((2, 2),))
    add('getimagedgevert', B.getimagedgevert, lambda w, h, b, buf: (30,))
    add('getimageregionbyRGB', B.getimageregionbyRGB, lambda w, h, b, buf: ([200, 100, 50], 120))
    add('itergetcolorfromrectregion', B.itergetcolorfromrectregion, lambda w, h, b, buf: (1, 1, 5, 4), gen=True)
    add('makenewpalfromcolorhist', lambda buf, n, s: B.makenewpalfromcolorhist(B.colorhistogram(buf), n, s), lambda w, h, b, buf: (16, 8))
    add('BMPbitBLTget', B.BMPbitBLTget, lambda w, h, b, buf: (60 if b == 24 else 1100, 5))
    add('BMPbitBLTput', B.BMPbitBLTput, lambda w, h, b, buf: (1150 if b == 8 else 130, I.int2buf(2, 513)))
    add('plotbmpastext', B.plotbmpastext, lambda w, h, b, buf: ())
    add('plotRGBxybit', B.plotRGBxybit, lambda w, h, b, buf: (3, 4, [20, 30, 200]))
    add('plotRGBxybitvec', B.plotRGBxybitvec, lambda w, h, b, buf: ((3, 4), [120, 230, 100]))
    # palettes
    add('setbmppal', B.setbmppal, lambda w, h, b, buf: ([(i * 3 & 255, i * 5 & 255, 9) for i in range(1 << b)],), (1, 4, 8))
    add('setRGBpal', B.setRGBpal, lambda w, h, b, buf: (1, 7, 8, 9), (1, 4, 8))
    add('palshift', B.palshift, lambda w, h, b, buf: (2,))
    add('RGBpalbrightnessadjust', B.RGBpalbrightnessadjust, lambda w, h, b, buf: (20,), (1, 4, 8))
    add('setBMP2monochrome', B.setBMP2monochrome, lambda w, h, b, buf: ((1, 0.5, 0.2),), (1, 4, 8))
    add('setBMP2invshiftedmonochrome', B.setBMP2invshiftedmonochrome, lambda w, h, b, buf: ((1, 0.5, 0.2), 2, 3), (4, 8))
    add('setBMP2dichromaticpal', B.setBMP2dichromaticpal, lambda w, h, b, buf: (0x010203, 0xC8645A), (4, 8))
    add('copyRGBpal', lambda buf: (B.copyRGBpal(buf, d := B.newBMP(2, 2, buf[28])), d)[1], lambda w, h, b, buf: (), (1, 4, 8))
    # fresh images and recipes
    add('newBMP', B.newBMP, lambda w, h, b, buf: (w, h, b), img=False)
    add('newBMP small', B.newBMP, lambda w, h, b, buf: (3, 2, b), img=False)
    add('newBMPwithPAL', B.newBMPwithPAL, lambda w, h, b, buf: (w, h, b, (1, 0.5, 0.2)), img=False)
    for n in ('monochromepal', 'monoshiftablepal', 'monoinverseshiftablepal', 'monoinverseshiftableBGRpal', 'monoinverseshiftableBGRApal'):
        add(n, getattr(C, n), lambda w, h, b, buf: (b, (1, 0.5, 0.2)), (1, 4, 8), img=False)
    add('monoinverseshiftablepal k', C.monoinverseshiftablepal, lambda w, h, b, buf: (b, (1, 0.5, 0.2), 3, 2), (4, 8), img=False)
    add('dichromaticpal', C.dichromaticpal, lambda w, h, b, buf: ((1, 2, 3), (200, 100, 90), 1 << b), (4, 8), img=False)
    add('getdefaultbitpal', C.getdefaultbitpal, lambda w, h, b, buf: (b,), (1, 4, 8), img=False)
    add('getdefaultlumrange', C.getdefaultlumrange, lambda w, h, b, buf: (), (24,), img=False)
    add('getIFSparams', F.getIFSparams, lambda w, h, b, buf: (), (24,), img=False)
    add('fractaldomainparamdict', F.fractaldomainparamdict, lambda w, h, b, buf: (), (24,), img=False)
    add('getshapesidedict', S.getshapesidedict, lambda w, h, b, buf: (), (24,), img=False)
    for mod, k in ((colordict, ''), (X11, 'X11'), (XK, 'XKCD')):
        for n in ('get%scolorname2RGBdict' % k, 'get%scolorname2HSLdict' % k):
            add(n, getattr(mod, n), lambda w, h, b, buf: (), (24,), img=False)
        add('get%sRGBfactors' % k, getattr(mod, 'get%sRGBfactors' % k), lambda w, h, b, buf: (), (24,), img=False)

    def pure(name, fn, *args, gen=False):
        import copy
        add(name, fn, lambda w, h, b, buf: copy.deepcopy(args), (24,), img=False, gen=gen)
    for i, (n, a) in enumerate([
            ('colormix', (100, (1, 0.5, 0.2))), ('int2RGB', (0x123456,)), ('int2RGBlist', (0x123456,)), ('int2BGRarr', (0x123456,)), ('int2RGBarr', (0x123456,)),
            ('matchRGBtodefault4bitpal', ([200, 30, 40],)), ('matchRGBtopal', ([20, 30, 200], [(0, 0, 0), (10, 20, 190), (255, 255, 255)])), ('matchRGBtopal', ([20, 30, 200], [(0, 0, 200), (10, 20, 90)])),
            ('matchRGBtopal', ([20, 30, 200], [(255, 255, 255), (9, 9, 9), (10, 20, 190)])), ('RGBtoRGBfactorsandlum', ((20, 30, 200),)), ('RGBtoRGBfactorsandlum', ((90, 3, 2),)), ('colormix', (200, (1, 0.5, 0.2))), ('colormix', (100, (0.1, 0.5, 0.9))), ('monochrome', ([200, 30, 2],)), ('RGB2HSL', (200, 30, 20)), ('dichromaticpal', (1, 0xFFFFFF, 16)), ('dichromaticpal', (1, 0xFF00FF, 16)), ('probplotRGBto1bit', ([20, 30, 200], 1)), ('probplotRGBto4bitpal', ([20, 30, 200],)), ('monochrome', ([20, 30, 200],)),
            ('gammacorrect', ([20, 30, 200], 0.7)), ('gammacorrectbyte', (77, 0.6)), ('brightnessadjust', ([20, 30, 200], 30)), ('thresholdadjust', ([20, 30, 200], [25, 100])), ('colorfilter', ([20, 30, 200], [1, 0.5, 0])),
            ('monochromefiltertoBGRbuf', (array('B', range(12)),)), ('colorfiltertoBGRbuf', (array('B', range(12)), [1, 0.5, 0.3])), ('gammaBGRbuf', (array('B', range(12)), 0.6)),
            ('gammaBGRbuf', (array('B', range(40, 52)), 1.6)), ('RGBfactorstoBaseandRange', ((10, 200), (1, 0.5, 0.2))), ('invertbitsinbuffer', (array('B', range(9)),)), ('RGB2BGRbuf', (array('B', range(9)),)),
            ('RGB2HSL', (20, 30, 200)), ('RGB2BGRAlist', ([[1, 2, 3], [4, 5, 6]],)), ('interpolateRGB', (M.smoothstep, 1, 200, 3, 90, 50, 5, 0.3))]):
        pure('%s@%d' % (n, i), getattr(C, n), *a)
    v4 = [(1, 2), (5, 9), (9, 1), (4, 4)]
    for i, (n, a) in enumerate([
            ('itercirclepart', (4,)), ('itercirclepartlineedge', (4,)), ('itercirclepartvertlineedge', (5,)), ('itercirclepart', (7,)), ('itercirclepartlineedge', (2,)), ('iterline', ((1, 2), (9, 5))), ('iterparallelogram', ((1, 2), (5, 4), (2, 6))),
            ('lineseg', ((1, 2), (3, 9))), ('iterellipsepart', (3, 5)), ('iterellipse', (8, 8, 3, 5)), ('iterellipserot', (8, 8, 3, 5, 30)), ('itercircle', (8, 8, 4)), ('iterbeziercurve', (v4,)), ('beziercurvevert', (v4, True, True)),
            ('iterbspline', (v4, True, True)), ('bsplinevert', (v4, False, False)), ('recvert', (1, 2, 5, 6)), ('floatregpolygonvert', (5, 5, 4, 5, 10)), ('regpolygonvert', (5, 5, 4, 6, 0)), ('horizontalvert', (3, 1, 9, 2)), ('verticalvert', (3, 1, 9, 2)),
            ('circlevert', (5, 5, 3)), ('arcvert', (5, 5, 4, 10, 100)), ('rectboundarycoords', (v4,)), ('itergetneighbors', ((2, 2), 5, 5, True)), ('getneighborlist', ((0, 2), 5, 5, False)), ('spiralcontrolpointsvert', (9, 9, 1, 1.2, 3)),
            ('sortrecpoints', (5, 6, 1, 2)), ('ellipsevert', (5, 5, 3, 4)), ('iterspirograph', (9, 9, 8, 0.5, 0.3, 0.5, 9)), ('iterlissajouscurve', (9, 9, 3, 2, 5, 4, 1, 0.5, 9)), ('itercircleinvolute', (9, 9, 2, 0.5, 9)), ('iterepicycloid', (9, 9, 5, 2, 0.5, 9)),
            ('iterhypotrochoid', (9, 9, 5, 2, 3, 0.5, 9)), ('iterflower', (9, 9, 5, 4, 10)), ('iterdrawvec', ((1, 1), (9, 6), 3)), ('itersquircle', (9, 9, 5)), ('itersuperellipse', (9, 9, 5, 3, 2, 3)), ('itergearcurve', (9, 9, 5, 2, 6)), ('itercornuspiral', (9, 9, 5)),
            ('iterheartcurve', (9, 9, 2)), ('itereggcurve', (9, 9, 5, 2))]):
        pure('%s@%d' % (n, i), getattr(P, n), *a, gen=n.startswith('iter'))
    sq = [[0, 0], [4, 0], [4, 4], [0, 4]]
    rot = S.rotvec3D(20, 30, 40)
    for i, (n, a) in enumerate([
            ('tetrahedravert', (8,)), ('cubevert', (8,)), ('hexahedravert', (8,)), ('octahedravert', (8,)), ('decahedvertandsurface', (8,)), ('icosahedvertandsurface', (8,)), ('rotvec3D', (10, 20, 30)),
            ('perspective', (S.cubevert(5), rot, (0, 0, 40), 30)), ('fillpolydata', (S.polyboundary(sq), 20, 20)), ('polyboundary', (sq,)), ('gensides', (S.perspective(S.cubevert(5), rot, (0, 0, 40), 30), (9, 9), S.getshapesidedict()['cube'])),
            ('spherevert', ([0, 0, 0], 5, 45)), ('spherevertandsurface', ([0, 0, 0], 5, 60)), ('cylindervertandsurface', ([0, 0, 0], 4, 6, 60)), ('conevertandsurface', ([0, 0, 0], 4, 6, 60)), ('surfacetest', ((1, 2, 3), (4, 5, 7), (1, 1, 2)))]):
        pure('%s@%d' % (n, i), getattr(S, n), *a)
    xy = [(1, 2), (2, 3.5), (3, 3), (4, 6)]
    for i, (n, a) in enumerate([
            ('setmaxvec', ([1, 9, 3], 5)), ('setminmaxvec', ([1, 9, 3], 2, 5)), ('roundvect', ((1.4, 2.6),)), ('roundvectlist', ([(1.4, 2.6)],)), ('addvect', ((1, 2), (3, 4))), ('trans', ([(1, 2)], (3, 4))), ('subvect', ((1, 2), (3, 4))),
            ('mean', ([1, 2, 6],)), ('meanlist', ([[1, 2], [3, 6]],)), ('pivotlist', ([[1, 2], [3, 6]],)), ('variance', ([1, 2, 6],)), ('LSMslope', (xy,)), ('LSMYint', (xy,)), ('PearsonsR', (xy,)), ('TTest', (xy,)), ('crossprod3d', ((1, 2, 3), (4, 5, 7))),
            ('distancetable', (v4,)), ('countdist', (M.distancetable(v4),)), ('det3D', ([1, 2, 3], [4, 5, 6], [7, 8, 10])), ('dircos', ((1, 2, 3),)), ('computerotvec', (30,)), ('rotvec2D', ((3, 4), (0.5, 0.5))), ('mirror', ((3, 4), 2)), ('mirrorvec', ((3, 4), (5, 6))),
            ('mirror1stquad', (5, 5, (2, 1))), ('addvectlist', ([(1, 2)], [(3, 4)])), ('adddimz', ([(1, 2)], 3)), ('swapxy', ((1, 2),)), ('randomvect', (0, 9)), ('addrndtovert', (v4, 0, 5)), ('fft', ([1, 2, 3, 4],)), ('ifft', ([1, 2, 3, 4j],)),
            ('getdomainbounds', (v4,)), ('initmatrix', (3, 2)), ('histogram2D', (v4, 3, 4)), ('histogram2Dcomplex', ([1 + 2j, 3 + 5j, 2 + 1j], 3, 4)), ('ravel2D', ([[1, 2], [3]],)), ('normvec', ((3, 4),)), ('lerp', (1, 5, 0.3)), ('smoothstep', (0, 1, 0.3)), ('smootherstep', (0, 1, 0.3)), ('newtonmethod', (1.5, float, abs))]):
        pure('%s@%d' % (n, i), getattr(M, n), *a)
    for i, (m, n, a) in enumerate([
            (charts, 'genpiechartdata', ([[20, 1], [30, 2]],)), (T, 'computetextrowandcolcnt', ('a\nbcd\te',)), (T, 'plot8bitpatternastext', ([0x81, 0x42], '*', ' ')), (fonts, 'getcharfont', (fonts.font8x8, 'A')), (fonts, 'getcharfont', (fonts.font8x14, 'B')),
            (R, 'adjustbufsize', (9, 4)), (R, 'packbitlisttobuf', ([1, 0, 1, 1, 0, 0, 1, 0] * 2,)), (R, 'resize1bitbufNtimesbigger', (array('B', [0x5a]), 3)), (R, 'unpack4bitbuf', (array('B', [0x5a]),)), (R, 'resizebufNtimesbigger', (array('B', [1, 2, 3]), 2, 24)),
            (BS, 'altsplitbuf', (array('B', range(8)),)), (BS, 'altsplitbuf3way', (array('B', range(9)),)), (BF, 'flipbuf', (array('B', range(9)), 24)), (BF, 'flipbuf', (array('B', range(9)), 1)), (I, 'int2buf', (4, 77777)), (CT, 'char2int', ('BM',)), (DT, 'dict2descorderlist', ({'a': 2, 'b': 5},)),
            (F, 'kochsnowflakevert', (9, 9, 5, 10, 2)), (F, 'kochcurvevert', ((1, 1), (9, 9), 2)), (F, 'ikedaattractorlist', (0.8, 0.9, 0.4, 6, 9)), (F, 'nattractorlist', (1, 1.2, 0.7, 0.8, 9)), (F, 'gumowskimiraattractorlist', (1, 1, 0.3, 0.9, 9)),
            (F, 'peterdejongattractorlist', (1.4, -2.3, 2.4, -2.1, 9)), (F, 'cliffordattractorlist', (1.4, -2.3, 2.4, -2.1, 9)), (F, 'fractaldreamattractorlist', (1.4, -2.3, 0.4, -0.5, 9)), (F, 'hopalongattractorlist', (1, 2, 3, 9)), (F, 'symmetriciconattractorlist', (0.1, 0.2, 1, -0.1, 0.3, 0.1, -1.5, 3, 9)), (F, 'duffingattractorlist', (0, 0, 0, 0.01, 0.25, 0.3, 1.0, 9))]):
        pure('%s@%d' % (n, i), getattr(m, n), *a)
    hl = lambda l=None: (F.hilbertvert(l := [], (0, 0), (8, 0, 0, 8), 2), l)[1]
    add('hilbertvert', hl, lambda w, h, b, buf: (), (24,), img=False)
    dom = lambda n: F.fractaldomainparamdict()[n]
    fac = (1, 0.5, 0.2)
    for n, pars in (('mandelbrot', ()), ('multibrot', (3,)), ('multicircle', (3,)), ('multihyperbola', (3,)), ('astroidfractal', (1,)), ('lemniscatefractal', (1,)), ('tetrationfractal', (9,)), ('sinjulia', (1 + 0.2j,)), ('cosjulia', (1 + 0.2j,)), ('spiraljulia', (0.3 + 0.2j,)),
                    ('lambdafractal', (0.9 + 0.3j,)), ('julia', (0.3 + 0.5j,)), ('multijulia', (0.3 + 0.5j, 3)), ('ngonfractal', (0.3 + 0.1j, 4)), ('multibiomorph', (0.5 + 0.1j, 3)), ('multibiomorphvariant', (0.5 + 0.1j, 3)), ('multibiomorphphasevariant', (0.5 + 0.1j, 3)), ('multisinbiomorph', (0.5 + 0.1j, 3)),
                    ('multiexpbiomorph', (0.5 + 0.1j, 3)), ('tricorn', ()), ('multicorn', (3,)), ('barnsleytree', (0.6 + 1.1j,)), ('marekdragon', (0.3,))):
        for j, (box, dn, mi) in enumerate((((1, 1, 8, 7), 'maxeqdim', 9), ((0, 0, 7, 6), 'middefault', 15))):
            add('%s#%d' % (n, j), getattr(B, n), lambda w, h, b, buf, p=pars, box=box, dn=dn, mi=mi: box + p + (dom(dn), fac, mi))
    for j, d in enumerate((3, 4.1)):
        add('newtonsfractal#%d' % j, B.newtonsfractal, lambda w, h, b, buf, d=d: (1, 1, 7, 6, F.funcparamdict()[d], dom('maxeqdim'), [fac, (0.2, 1, 0.5), (1, 1, 1), (0.1, 0.3, 1), (0.5, 0.5, 0)], 12), (24,))
    for n, a in (('ikedaattractor', (0.8, 0.9, 0.4, 6, 60)), ('nattractor', (1, 1.2, 0.7, 0.8, 60)), ('peterdejongattractor', (1.4, -2.3, 2.4, -2.1, 60)), ('hopalongattractor', (1, 2, 3, 60)), ('cliffordattractor', (1.4, -2.3, 2.4, -2.1, 60)), ('duffingattractor', (0.25, 0.3, 1.0, 0.01, 60)),
                 ('fractaldreamattractor', (1.4, -2.3, 0.4, -0.5, 60)), ('gumowskimiraattractor', (1, 1, 0.3, 0.9, 60)), ('symmetriciconattractor', (0.1, 0.2, 1, -0.1, 0.3, 0.1, -1.5, 3, 60))):
        add(n, getattr(B, n), lambda w, h, b, buf, a=a: (9, 8, b) + a, (8, 24), img=False)
    return t
