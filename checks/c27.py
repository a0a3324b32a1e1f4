"""Ways to call: every operation by position and by name from every parameter on; every set of left out optional parameters against their published values."""
import contextlib, inspect, io, itertools, random, shutil, tempfile
from mc.core import *
from mc import alltable
from checks.c25 import norm, SLOW

BOUNDS = {
    'quick': 'about 430 operations of all modules x every depth they accept x every split of their parameters into a part given by position and a part given by name (in reverse order); '
             'the 110 functions with optional parameters x every subset of those left out, against all of them given',
    'thorough': 'as quick with two contents of the image and two sizes'}

# ---- published values of the parameters one may leave out
FRACTAL = {4: 'tetration multibiomorph multisinbiomorph multicosbiomorph multicoshbiomorph multisinhbiomorph multiexpbiomorph multi2ndtetrationbiomorph multizconjugatebiomorph multitanbiomorph multitanhbiomorph',
           24: 'xor xordiv multi multisuperellipse withparam with2param newtons',
           8: 'lambda sinjulia spiraljulia cosjulia  mandelbrot multibrot multicircle multihyperbola astroid lemniscate tricorn multicorn barnsleytree marekdragon julia multijulia ngon multibiomorphvariant multibiomorphphasevariant'}
NOFRACTAL = ('sinjulia', 'spiraljulia', 'cosjulia', 'marekdragon')
TEXT = ('string verticalstring italicstring verticalitalicstring reverseditalicstring verticalstringasdots verticalitalicstringasdots stringasdots italicstringasdots reversedstring reversedstringasdots upsidedownstring '
        'upsidedownstringasdots').split()
BIO = 'multibiomorph multibiomorphphasevariant multisinbiomorph multicosbiomorph multisinhbiomorph multicoshbiomorph multitanbiomorph multitanhbiomorph multiexpbiomorph multi2ndtetrationbiomorph multizconjugatebiomorph multibiomorphvariant'.split()


def optional(B):
    """[(name, function, arguments before, [(name, published value)], other values to tell them apart, kind, depths)]; kind: value, image, file (argument 0 is the file written)"""
    from pythonbmp import primitives2D as P, solids3D as S, fractals as F, colors as C, mathlib as M, fonts
    t = []
    fac = (1, 0.5, 0.2)
    lerp, font = ('fn', M.lerp), fonts.font8x8

    def value(mod, n, args, opt):
        t.append((n, getattr(mod, n), args, opt, 'value', (24,)))

    def image(n, args, opt, depths=DEPTHS):
        t.append((n, getattr(B, n), args, opt, 'image', depths))

    def file(n, args, opt, src=None):
        t.append((n, getattr(B, n), args, opt, 'file', (24,) if src is None else src))
    value(M, 'initmatrix', (2, 3), [('initval', 0)])
    value(C, 'dichromaticpal', (0x010203, 0xC8645A, 16), [('mult', 1), ('shift', 0)])
    for n in ('monoshiftablepal', 'monoinverseshiftablepal', 'monoinverseshiftableBGRpal', 'monoinverseshiftableBGRApal'):
        for b in (4, 8):
            value(C, n, (b, fac), [('mult', 1), ('shift', 0)])
    value(F, 'duffingattractorlist', (), [('x', 0), ('y', 0), ('t', 0), ('dt', 0.01), ('a', 0.25), ('b', 0.3), ('w', 1.0), ('n', 25000)])
    value(M, 'newtonmethod', (2.0, lambda x: x ** 9, lambda x: 9 * x ** 8), [('maxiter', 40), ('tol', 1e-8)])
    value(M, 'newtonmethod', (2.0, lambda x: x * x - 3, lambda x: 2 * x), [('maxiter', 40), ('tol', 1e-8)])
    for p, q in itertools.product((-1.2, 0.1, 0.7, 1.5), repeat=2):
        for n in ('sinjulia', 'cosjulia'):
            value(F, n, (p, q, 1 + 0.2j, 20), [('lim', 50)])
        for n in BIO:
            value(F, n, (p, q, 0.5 + 0.1j, 3, 20), [('a', 5)])
        value(F, 'marekdragon', (p, q, 0.3, 20), [('lim', 65)])
    value(F, 'koch', ((1, 2), (9, 4)), [('h', 3 ** 0.5 / 6)])
    image('palshift', (), [('shift', 1)], (4, 8))
    image('setBMP2invshiftedmonochrome', (fac,), [('mult', 20), ('shift', 0)], (4, 8))
    image('filledgradrect', (1, 1, 7, 6, [0, 255], fac, 0), [lerp], (8, 24))
    image('filleddichromaticgradrect', (1, 1, 7, 6, 0x0A0BFF, 0xFF0010, 1), [lerp], (24,))
    image('drawvec', ((1, 1), (9, 6), 3, 1), [('penradius', None)])
    image('circlevec', ((5, 5), 3, 1), [('isfilled', None)])
    image('circle', (5, 5, 3, 1), [('isfilled', None)])
    image('ellipse', (5, 5, 3, 4, 1), [('isfilled', None)])
    image('gradcircle', (5, 5, 4, [0, 255], fac), [lerp], (8, 24))
    image('graddichromiccircle', (5, 5, 4, 0x0A0BFF, 0xFF0010), [lerp], (24,))
    image('gradthickellipserot', (5, 5, 3, 4, 30, 5, [0, 255], fac), [lerp], (8, 24))
    image('gradellipse', (5, 5, 3, 4, [0, 255], fac), [lerp], (8, 24))
    image('sphere', (5, 5, 4, fac), [lerp])
    v = [(2, 2), (9, 3), (4, 8)]
    for n in ('gradthickplotpoly', 'gradplotlines', 'gradvert'):
        image(n, (v, 5, [0, 255], fac), [lerp], (8, 24))
    image('plotlines', (v, 1), [('penradius', 1)])
    bg = [('backgroundcolor', 0), ('bitdepth', 24)]
    for n in TEXT:
        file('plot%s2file' % n, ('Ab', 2, 0, 1, 0x10FF, font), bg)
    file('plotstringfunc2file', ('Ab', 1, 0, 1, 0x10FF, font, list, B.plot8bitpattern), bg)
    file('plotstringverticalwithfn2file', ('Ab', 1, 0, 1, 0x10FF, font, list, B.plot8bitpattern), bg)
    box = (-1.3, 1.1, -1.2, 0.9)
    pars = dict(lamb=(), julia=(0.1 + 0.1j,))
    for depth, names in FRACTAL.items():
        for n in names.split() + ([''] if depth == 8 else []):
            p = {'lambda': (0.4 + 0.3j,), 'sinjulia': (1 + 0.2j,), 'spiraljulia': (0.1 + 0.1j,), 'cosjulia': (1 + 0.2j,), 'julia': (0.1 + 0.1j,), 'multijulia': (0.1 + 0.1j, 3), 'ngon': (0.1 + 0.1j, 4), 'tetration': (9,), 'xor': (1.5,), 'xordiv': (1.5,),
                 'mandelbrot': (), 'tricorn': (), '': (B.mandelbrot,), 'multi': (B.multibrot, 3), 'withparam': (B.multibrot, 3),
                 'with2param': (B.multijulia, 0.1 + 0.1j, 3), 'astroid': (1,), 'lemniscate': (1,), 'newtons': (F.funcparamdict()[3],), 'barnsleytree': (0.6 + 1.1j,), 'marekdragon': (0.3,)}.get(n)
            if p is None:
                p = (0.2 + 0.1j, 3) if 'biomorph' in n else (3,)
            name = 'save%s2file' % (n if n in NOFRACTAL else {'withparam': 'fractalwithparam', 'with2param': 'fractalwith2param'}.get(n, n + 'fractal'))
            file(name, (6, 5) + p + (box, [fac, (0.2, 1, 0.5), (1, 1, 1)] if n == 'newtons' else fac), [('bitdepth', depth), ('maxiter', 255)])
    file('savehilbertcurve2file', (32, 32, 2), [('bitdepth', 1), ('color', 1), ('backgroundcolor', 0), ('penradius', 1), ('orientation', 0)])
    file('savekochsnowflake2file', (12, 1), [('angle', 0), ('bitdepth', 1), ('color', 1), ('backgroundcolor', 0), ('penradius', 1)])
    # file to file: image written first
    t.append(('palshift2file', B.palshift2file, (), [('shift', 1)], 'edit', (4, 8)))
    t.append(('filledgradrect2file', B.filledgradrect2file, (1, 1, 7, 6, [0, 255], fac, 0), [lerp], 'edit', (8, 24)))
    t.append(('filleddichromaticgradrect2file', B.filleddichromaticgradrect2file, (1, 1, 7, 6, 0x0A0BFF, 0xFF0010, 1), [lerp], 'edit', (24,)))
    t.append(('sphere2file', B.sphere2file, (5, 5, 4, fac), [lerp], 'edit', (24,)))
    for k in (1, 4, 8):
        for mono in (False,):
            t.append(('reduce24bitimagebits', B.reduce24bitimagebits, (k, 0.5, mono), [('RGBfactors', None)], 'edit', (24,)))
    return t


def units(tier):
    B = bind()
    n = len(alltable.table(B))
    return [('files', b) for b in DEPTHS] + [('named', i, i + 10) for i in range(0, n, 10)] + [('optional', i, i + 8) for i in range(0, len(optional(B)), 8)]


def run_unit(unit, ctx, tier):
    dict(named=named, files=files, optional=run_optional)[unit[0]](ctx, tier, *unit[1:])


def outcome(fn, args, kw, buf, gen=False):
    random.seed(11)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            v = fn(*args, **kw)
            if gen and v is not None:
                v = list(v)
        r = norm(v)
    except Exception as e:
        r = 'raised %s: %s' % (type(e).__name__, str(e)[:100])
    return r, None if buf is None else bytes(buf), out.getvalue()


def named(ctx, tier, i0, i1):
    B = bind()
    for name, depths, run in alltable.table(B)[i0:i1]:
        fn = run.fn
        try:
            ps = list(inspect.signature(fn).parameters.values())
        except ValueError:
            continue
        if getattr(fn, '__name__', '') == '<lambda>' or any(p.kind != p.POSITIONAL_OR_KEYWORD for p in ps):
            continue
        slow = any(s in name for s in SLOW)
        for bits, (w, h), k in itertools.product(depths[-1:] if slow else depths, ((13, 11),) if tier == 'quick' else ((13, 11), (9, 14)), (1,) if tier == 'quick' else (1, 2)):
            def fresh():
                buf = mkbuf(mkimg(w, h, bits, k=k))
                args = list(run.make(w, h, bits, buf))
                return ([buf] if run.img else []) + args, buf
            args, buf = fresh()
            want = outcome(fn, args, {}, buf, run.gen)
            names = [p.name for p in ps]
            for split in range(len(args)) if not slow else (0,):
                args, buf = fresh()
                kw = dict(reversed(list(zip(names, args))[split:]))
                ctx.step()
                got = outcome(fn, args[:split], kw, buf, run.gen)
                ctx.trace()
                ctx.state((name, bits, w, h, k, split))
                if got[:2] != want[:2]:
                    ctx.fail('named|%s' % name, named=names[split:len(args)], bits=bits, size=(w, h), got=str(got[0])[:200], expected=str(want[0])[:200])
                    break
    ctx.sample('operations %d to %d' % (i0, i1))


def scratch_case(fn, args, kw, kind, bits, every):
    """-> outcome with the bytes of the file written"""
    d = tempfile.mkdtemp(prefix='c27')
    try:
        dst = os.path.join(d, 'out.bmp')
        first = [dst]
        if kind == 'edit':
            src = os.path.join(d, 'in.bmp')
            with open(src, 'wb') as f:
                f.write(bytes(mkbuf(mkimg(11, 9, bits))))
            first = [src, dst]
        r = outcome(fn, [], every(first, args), None) if kw is None else outcome(fn, first + list(args), kw, None)
        data = None
        if os.path.exists(dst):
            with open(dst, 'rb') as f:
                data = f.read()
        return r[0], data
    finally:
        shutil.rmtree(d)


def run_optional(ctx, tier, i0, i1):
    import copy
    B = bind()
    for name, fn, args, opt, kind, depths in optional(B)[i0:i1]:
        for bits in depths:
            def go(kw):
                a = copy.deepcopy(args)
                if kind in ('file', 'edit'):
                    return scratch_case(fn, a, kw, kind, bits, every)
                if kind == 'image':
                    buf = mkbuf(mkimg(13, 11, bits))
                    return (outcome(fn, [], every([buf], a), buf) if kw is None else outcome(fn, [buf] + list(a), kw, buf))[:2]
                return (outcome(fn, [], every([], a), None) if kw is None else outcome(fn, a, kw, None))[:1]
            full = dict(opt)

            def every(first, a):
                # all by name, last first
                return dict(reversed(list(zip(inspect.signature(fn).parameters, list(first) + list(a) + [v for _, v in opt]))))
            ctx.step()
            want = go(full)
            if isinstance(want[0], str) and want[0].startswith('raised') or kind in ('file', 'edit') and want[-1] is None:
                ctx.fail('optional|%s|nothing to compare' % name, outcome=str(want[0])[:200], bits=bits)
                continue
            ctx.step()
            names = list(inspect.signature(fn).parameters)
            got = go(None)
            ctx.trace()
            if got != want:
                ctx.fail('named|%s' % name, named=names, bits=bits, got=str(got[0])[:200], expected=str(want[0])[:200])
            few = len(opt) <= 5
            subsets = itertools.chain.from_iterable(itertools.combinations(full, k) for k in (range(1, len(opt) + 1) if few else (1, len(opt) - 1, len(opt))))
            for out in subsets:
                ctx.step()
                got = go({k: v for k, v in full.items() if k not in out})
                ctx.trace()
                ctx.state((name, bits, out, repr(args)[:60]))
                if got != want:
                    ctx.fail('optional|%s' % name, left_out=out, published=[str(full[k]) for k in out], bits=bits, arguments=repr(args)[:120], got=str(got[0])[:120], expected=str(want[0])[:120])
    ctx.sample('functions with optional parameters %d to %d' % (i0, i1))


def files(ctx, tier, bits):
    """every function of one or two files, all by name against all by position"""
    from checks import c14
    B = bind()
    d = tempfile.mkdtemp(prefix='c27')
    try:
        a, b, dst = (os.path.join(d, n) for n in ('a.bmp', 'b.bmp', 'out.bmp'))
        for p, k in ((a, 1), (b, 2)):
            with open(p, 'wb') as f:
                f.write(bytes(mkbuf(mkimg(9, 6, bits, k=k))))
        T = [('loadBMP', (a,)), ('imagediff', (a, b, dst)), ('showsimilarparts', (a, b, dst)), ('saveBMP', (dst, mkbuf(mkimg(3, 2, bits)))), ('cropBMPandsave', (a, dst, 1, 1, 4, 4)), ('outline2file', (a, dst)), ('imgregionbyRGB2file', (a, dst, 1, 0, [200, 100, 50], 120, True))]
        T += [(fn, (a, dst) + tuple(c14.args_of(args[0]))) for fn, op, how, args, only in c14.table() if bits == 24 or not only]
        for name, args in T:
            fn = getattr(B, name)
            names = list(inspect.signature(fn).parameters)
            got = []
            for split in range(len(args), -1, -1):
                if os.path.exists(dst):
                    os.unlink(dst)
                ctx.step()
                r = outcome(fn, args[:split], dict(reversed(list(zip(names, args))[split:])), None)[0]
                data = None
                if os.path.exists(dst):
                    with open(dst, 'rb') as f:
                        data = f.read()
                got.append((r, data))
                ctx.state((name, bits, split))
                if got[-1] != got[0]:
                    ctx.fail('files|%s' % name, named=names[split:], bits=bits, got=str(r)[:200], expected=str(got[0][0])[:200])
                    break
            ctx.trace()
    finally:
        shutil.rmtree(d)
