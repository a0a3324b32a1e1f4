"""Colour cycles saved to folders: every combination of folder state, overwrite flag, way to name the folder and depth, and every history of two runs."""
import contextlib, io, itertools, os, shutil, tempfile
from mc.core import *

BOUNDS = {
    'quick': 'every depth, 3 image sizes, folder absent / empty / holding frames and strangers / a file / below a missing parent, overwriting allowed or not, folder named relatively, with a trailing slash, with dots, or by its whole path, '
             'the input named relatively or by its whole path, inside or outside the folder; all histories of 2 runs over 2 folders and 2 images; 9 palettes with repeated colours; sides to 1043 pixels',
    'thorough': 'as quick with histories of 3 runs'}


def units(tier):
    return [('one', bits) for bits in DEPTHS] + [('history', b) for b in (4, 8)] + [('absent',)] + [(k, b) for k in ('pals', 'large') for b in (4, 8)]


def run_unit(unit, ctx, tier):
    bind()
    old = os.getcwd()
    path = os.environ.get('PATH')
    top = tempfile.mkdtemp(prefix='c26')
    try:
        with contextlib.redirect_stdout(io.StringIO()) as out:
            globals()[unit[0] + '_'](ctx, tier, top, out, *unit[1:])
    finally:
        os.chdir(old)
        if path is not None:
            os.environ['PATH'] = path
        shutil.rmtree(top)


def snap(top):
    r = {}
    for d, ds, fs in os.walk(top):
        for n in ds:
            r[os.path.relpath(os.path.join(d, n), top)] = None
        for n in fs:
            p = os.path.join(d, n)
            with open(p, 'rb') as f:
                r[os.path.relpath(p, top)] = f.read()
    return r


def rot(pal, k):
    k %= len(pal)
    return pal[k:] + pal[:k]


def frames(img):
    """palette of every frame of the cycle of an image"""
    n = 2 ** img.bits
    return [rot(list(img.pal), k) for k in range(n)]


def effect(ctx, sig, before, after, img, folder, ran, **d):
    """before + (the frames in folder, if it ran) == after, nothing else"""
    ctx.trace()
    want = dict(before)
    if ran:
        parts = folder.split('/')
        for i in range(len(parts)):
            want.setdefault('/'.join(parts[:i + 1]), None)
        for k, pal in enumerate(frames(img)):
            name = '%s/%d.bmp' % (folder, k)
            got = after.get(name)
            want[name] = got
            if got is None:
                ctx.fail(sig + '|frame missing', frame=k, **d)
                return False
            try:
                i = decode(got)
            except BadImage as e:
                ctx.fail(sig + '|frame', frame=k, error=str(e), **d)
                return False
            if (i.w, i.h, i.bits) != (img.w, img.h, img.bits) or i.px != img.px or list(i.pal) != pal:
                ctx.fail(sig + '|frame', frame=k, got=(i.w, i.h, i.bits, list(i.pal)[:4]), expected=(img.w, img.h, img.bits, pal[:4]), **d)
                return False
    if want != after:
        diff = [n for n in sorted(set(want) | set(after)) if want.get(n, 0) != after.get(n, 0)]
        ctx.fail(sig + '|files', changed=diff[:8], **d)
        return False
    return True


def put(path, data):
    with open(path, 'wb') as f:
        f.write(data)


def one_(ctx, tier, top, out, bits):
    import pythonbmp.BITMAPlib as B
    shapes = ((1, 1), (5, 3), (9, 2))
    for (w, h), state, over, how, src in itertools.product(shapes, ('absent', 'empty', 'full', 'file', 'orphan'), (None, False, True), ('plain', 'slash', 'dots', 'whole', 'sub'), ('rel', 'whole', 'inside')):
        if src == 'inside' and state != 'full':
            continue
        img = mkimg(w, h, bits)
        work = os.path.join(top, 'w')
        os.makedirs(os.path.join(work, 'sub'))
        os.chdir(work)
        name = 'sub/out' if how == 'sub' else 'out'
        if state == 'orphan':
            name = 'no/' + name
        elif state in ('empty', 'full'):
            os.mkdir(name)
        if state == 'full':
            for n in ('0.bmp', '3.bmp', '1000.bmp', 'note.txt'):
                put(name + '/' + n, b'old ' + n.encode())
        if state == 'file':
            put(name, b'a file')
        put('note.txt', b'mine')
        put('0.bmp', b'not a frame')
        f = name + '/in.bmp' if src == 'inside' else 'in.bmp'
        put(f, bytes(mkbuf(img)))
        inp = os.path.join(work, f) if src == 'whole' else f
        arg = {'plain': name, 'sub': name, 'slash': name + '/', 'dots': './sub/../' + name, 'whole': os.path.join(work, name)}[how]
        before = snap(work)
        out.seek(0)
        out.truncate()
        err = None
        ctx.step()
        try:
            B.colorcycle2dir(inp, arg, *(() if over is None else (over,)))
        except OSError as e:
            err = e
        except BaseException as e:
            ctx.fail('colorcycle2dir|raised', error='%s: %s' % (type(e).__name__, e), state=state, overwrite=over, how=how, bits=bits)
            err = e
        after = snap(work)
        says = out.getvalue()
        d = dict(state=state, overwrite=over, how=how, source=src, bits=bits, error=str(err), size=(w, h))
        if bits not in (4, 8):
            effect(ctx, 'colorcycle2dir|depth', before, after, img, name, False, **d)
            if not says.strip():
                ctx.fail('colorcycle2dir|silent', **d)
        else:
            may = state == 'absent' or state in ('empty', 'full') and over
            effect(ctx, 'colorcycle2dir', before, after, img, name, may, **d)
            if may and err is not None:
                ctx.fail('colorcycle2dir|error', **d)
            if not may and err is None and not says.strip():
                ctx.fail('colorcycle2dir|silent', **d)
            if state in ('empty', 'full') and not over and not isinstance(err, FileExistsError):
                ctx.fail('colorcycle2dir|refusal', **d)
        if os.getcwd() != work:
            ctx.fail('colorcycle2dir|cwd', got=os.getcwd())
        ctx.state((w, h, state, over, how, src, bits, len(after)))
        os.chdir(top)
        shutil.rmtree(work)


def pals_(ctx, tier, top, out, bits):
    """one frame per place of the palette whatever colours it holds: repeated, all equal, one odd one"""
    import pythonbmp.BITMAPlib as B
    n = 2 ** bits
    std = stdpal(bits)
    for i, pal in enumerate([std[:p] * (n // p) for p in (1, 2, 4, n // 2)] + [std[1:2] * k + std[2:3] + std[1:2] * (n - k - 1) for k in (0, 1, n - 1)] + [std[::-1], [std[1]] * 3 + std[3:]]):
        img = mkimg(5, 3, bits, pal=pal)
        work = os.path.join(top, 'p%d' % i)
        os.makedirs(work)
        os.chdir(work)
        put('in.bmp', bytes(mkbuf(img)))
        before = snap(work)
        ok, _ = call(ctx, 'colorcycle2dir', B.colorcycle2dir, 'in.bmp', 'out')
        effect(ctx, 'colorcycle2dir|palette', before, snap(work), img, 'out', True, palette=i, bits=bits)
        ctx.state((bits, i))
        os.chdir(top)
        shutil.rmtree(work)


def large_(ctx, tier, top, out, bits):
    """frames of large images"""
    import pythonbmp.BITMAPlib as B
    for w, h in ((131, 67), (1043, 3), (3, 530)):
        img = mkimg(w, h, bits)
        work = os.path.join(top, 'l')
        os.makedirs(work)
        os.chdir(work)
        put('in.bmp', bytes(mkbuf(img)))
        before = snap(work)
        call(ctx, 'colorcycle2dir', B.colorcycle2dir, 'in.bmp', 'out')
        effect(ctx, 'colorcycle2dir|large', before, snap(work), img, 'out', True, size=(w, h), bits=bits)
        ctx.state((bits, w, h))
        os.chdir(top)
        shutil.rmtree(work)


def history_(ctx, tier, top, out, bits):
    """runs one after another over two folders and two images: each leaves exactly its own frames over what was there"""
    import pythonbmp.BITMAPlib as B
    imgs = {'a.bmp': mkimg(3, 2, bits), 'b.bmp': mkimg(2, 3, 4, k=5)}
    moves = list(itertools.product(imgs, ('p', 'q'), (False, True)))
    for seq in itertools.product(moves, repeat=2 if tier == 'quick' else 3):
        work = os.path.join(top, 'h')
        os.mkdir(work)
        os.chdir(work)
        for n, i in imgs.items():
            put(n, bytes(mkbuf(i)))
        for n, dst, over in seq:
            before = snap(work)
            may = dst not in before or over
            ctx.step()
            try:
                B.colorcycle2dir(n, dst, over)
                if not may:
                    ctx.fail('history|overwrote', history=seq)
            except FileExistsError:
                if may:
                    ctx.fail('history|refused', history=seq)
            except Exception as e:
                ctx.fail('history|raised', error='%s: %s' % (type(e).__name__, e), history=seq)
            after = snap(work)
            ctx.state(tuple(sorted((k, hash(v)) for k, v in after.items())))
            if not effect(ctx, 'history', before, after, imgs[n], dst, may, history=seq):
                break
        os.chdir(top)
        shutil.rmtree(work)


def absent_(ctx, tier, top, out):
    """no input file: said so, nothing made"""
    import pythonbmp.BITMAPlib as B
    os.chdir(top)
    os.mkdir('folder')
    for name in ('none.bmp', 'folder', '', 'folder/none.bmp', os.path.join(top, 'none.bmp')):
        for over in (False, True):
            before = snap(top)
            out.seek(0)
            out.truncate()
            ok, r = call(ctx, 'absent', B.colorcycle2dir, name, 'out', over)
            ctx.trace()
            if ok and (r is not None or snap(top) != before or not out.getvalue().strip()):
                ctx.fail('absent', name=name, result=r, files=sorted(snap(top)), said=out.getvalue()[:80])
            ctx.state((name, over))
