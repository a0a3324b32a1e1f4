"""Saving and loading: round trip, overwriting histories, files that are not bitmaps, torn files."""
import shutil, tempfile
from pathlib import Path
from mc.core import *

BOUNDS = {
    'quick': 'round trip of every size 1..33 x 1..4 at every depth and of every content of 1-bit 4x2 and 4-bit 2x1 images; every history of 4 '
             'operations (save of 3 images, in-memory edit, load, delete) over 2 file names; every truncation point and every signature byte of a saved file; '
             'every declared size 0..60',
    'thorough': 'as quick with sizes to 70 x 8, histories of 5 operations, every single-byte corruption of header bytes 0..13'}


def units(tier):
    q = tier == 'quick'
    u = []
    for bits in DEPTHS:
        for h in range(1, 5 if q else 9):
            u.append(('round', bits, h, 34 if q else 71))
        u.append(('torn', bits))
        u.append(('big', bits))
    u += [('tiny', k) for k in range(4)]
    u += [('hist', i, 4 if q else 5) for i in range(9)]
    u.append(('notbmp',))
    return u


def check_load(ctx, sig, B, path, want):
    ok, a = call(ctx, sig, B.loadBMP, path)
    if not ok:
        return None
    if not isinstance(a, array) or bytes(a) != want:
        ctx.fail(sig, expected_len=len(want), got_len=None if a is None else len(a))
        return None
    return a


def check_save(ctx, sig, B, path, buf):
    before = bytes(buf)
    ok, r = call(ctx, sig, B.saveBMP, path, buf)
    if not ok:
        return
    if bytes(buf) != before:
        ctx.fail(sig + '|argument changed')
    got = Path(path).read_bytes()
    if got != before:
        ctx.fail(sig + '|file content', expected_len=len(before), got_len=len(got))


def run_unit(unit, ctx, tier):
    d = tempfile.mkdtemp(prefix='c02')
    try:
        go(unit, ctx, tier, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def go(unit, ctx, tier, d):
    B = bind()
    kind = unit[0]
    if kind == 'round':
        _, bits, h, wm = unit
        p = os.path.join(d, 'a b.bmp')
        for w in range(1, wm):
            img = mkimg(w, h, bits, k=w % 3)
            if bits < 24:
                img.pal = [((i * 37 + w) & 255, (i * 91 + 5) & 255, (i * 3 + h) & 255, 0) for i in range(1 << bits)]
            buf = mkbuf(img)
            sig = 'roundtrip|b%d' % bits
            check_save(ctx, sig, B, Path(p) if w & 1 else p, buf)
            a = check_load(ctx, sig, B, p if w & 2 else Path(p), bytes(buf))
            if a is not None:
                if decode(a) != img:
                    ctx.fail(sig + '|decoded', size=(w, h, bits))
                a[-1] ^= 255                       # loaded image is private to the caller
                check_load(ctx, sig + '|second load', B, p, bytes(buf))
            ctx.state(bytes(buf))
            ctx.trace()
        ctx.sample('save+load of 1..%dx%d images at %d bits' % (wm - 1, h, bits))
    elif kind == 'big':
        # files whose size needs three and four bytes in the size field
        bits = unit[1]
        p = os.path.join(d, 'big.bmp')
        w, h = {1: (70003, 9), 4: (3001, 120), 8: (401, 211), 24: (237, 103)}[bits]
        sizes = [(w, h)]
        if tier != 'quick' or bits == 8:
            sizes.append({1: (1 << 20, 130), 4: (40000, 850), 8: (4100, 4100), 24: (2400, 2400)}[bits])
        for w, h in sizes:
            n = HDR[bits] + stride(w, bits) * h
            img = bytearray(bytes(mkbuf(mkimg(1, 1, bits)))[:HDR[bits]])
            img[2:6] = n.to_bytes(4, 'little')
            img[18:22] = w.to_bytes(4, 'little')
            img[22:26] = h.to_bytes(4, 'little')
            body = (bytes(range(256)) + b'\x01\x03\x07') * ((n - HDR[bits]) // 259 + 1)
            buf = array('B', bytes(img) + body[:n - HDR[bits]])
            check_save(ctx, 'roundtrip big|b%d' % bits, B, p, buf)
            check_load(ctx, 'roundtrip big|b%d' % bits, B, p, bytes(buf))
            ctx.state((w, h, bits))
            ctx.trace()
    elif kind == 'tiny':
        p = os.path.join(d, 't.bmp')
        for v in range(unit[1], 256, 4):
            for img in (mkimg(4, 2, 1, [[v >> i & 1 for i in range(4)], [v >> i & 1 for i in range(4, 8)]]),
                        mkimg(2, 1, 4, [[v >> 4, v & 15]]), mkimg(1, 1, 8, [[v]]), mkimg(1, 1, 24, [[v * 0x10203 & 0xFFFFFF]])):
                buf = mkbuf(img)
                check_save(ctx, 'roundtrip|tiny', B, p, buf)
                check_load(ctx, 'roundtrip|tiny', B, p, bytes(buf))
                ctx.state(bytes(buf))
                ctx.trace()
    elif kind == 'hist':
        # every history of `depth` operations over two file names and one in-memory image
        _, first, depth = unit
        imgs = [mkbuf(mkimg(3, 2, 24)), mkbuf(mkimg(9, 3, 1, k=1)), mkbuf(mkimg(2, 5, 8, k=2))]
        names = [os.path.join(d, 'x.bmp'), os.path.join(d, 'y.bmp')]
        ops = [('save', i, f) for i in range(3) for f in range(2)] + [('load', f) for f in range(2)] + \
              [('edit',), ('savecur', 0), ('savecur', 1), ('del', 0)]
        firsts = ops[:8] + [('del', 0)]

        def rec(trace, files, cur):
            # replay the whole trace on a clean directory
            for hist in ([trace + [o] for o in ops] if len(trace) < depth else []):
                rec2(hist)

        def rec2(hist):
            for f in names:
                if os.path.exists(f):
                    os.remove(f)
            files, cur, mcur = {}, None, None
            for o in hist:
                sig = 'history|' + o[0]
                if o[0] == 'save':
                    check_save(ctx, sig, B, names[o[2]], imgs[o[1]])
                    files[o[2]] = bytes(imgs[o[1]])
                elif o[0] == 'load':
                    if o[1] in files:
                        cur = check_load(ctx, sig, B, names[o[1]], files[o[1]])
                        if cur is None:
                            return
                        mcur = bytearray(files[o[1]])
                    else:
                        ok, a = call(ctx, sig, B.loadBMP, names[o[1]])
                        if ok and a:
                            ctx.fail(sig + '|missing file gave data')
                elif o[0] == 'edit' and cur is not None:
                    cur[-1] ^= 0x5A
                    cur[60] ^= 1
                    mcur[-1] ^= 0x5A
                    mcur[60] ^= 1
                elif o[0] == 'savecur' and cur is not None:
                    check_save(ctx, sig, B, names[o[1]], cur)
                    files[o[1]] = bytes(mcur)
                elif o[0] == 'del' and 0 in files:
                    os.remove(names[0])
                    del files[0]
            for f in range(2):
                got = Path(names[f]).read_bytes() if os.path.exists(names[f]) else None
                if got != files.get(f):
                    ctx.fail('history|files differ', history=hist)
            ctx.trace()
            ctx.state(tuple(sorted(files.items())))

        def gen(pre):
            if len(pre) == depth:
                rec2(pre)
            else:
                for o in ops:
                    gen(pre + [o])
        gen([firsts[first]])
        ctx.sample('every history of %d operations starting with %s' % (depth, firsts[first]))
    elif kind == 'torn':
        # a save torn at every byte: loading never raises, never invents bytes, never touches the file
        bits = unit[1]
        whole = bytes(mkbuf(mkimg(5, 3, bits)))
        p = os.path.join(d, 'torn.bmp')
        for n in list(range(len(whole) + 1)):
            if bits == 8 and tier == 'quick' and 60 < n < len(whole) - 40 and n % 9:
                continue
            Path(p).write_bytes(whole[:n])
            ok, a = call(ctx, 'torn|b%d' % bits, B.loadBMP, p)
            if ok:
                g = b'' if a is None else bytes(a)
                if n < 2 and g:
                    ctx.fail('torn|no signature', n=n)
                if g != whole[:len(g)] or len(g) > n or (n >= 10 and g != whole[:n]):
                    ctx.fail('torn|content', n=n, got=len(g))
            if Path(p).read_bytes() != whole[:n]:
                ctx.fail('torn|file changed', n=n)
            ctx.state((bits, n))
            ctx.trace()
        # the reserved bytes 6..9 belong to the application that wrote the file
        for v in (1, 255, 0x01020304, 0xFFFFFFFF):
            c = bytearray(whole)
            c[6:10] = v.to_bytes(4, 'little')
            Path(p).write_bytes(bytes(c))
            check_load(ctx, 'reserved bytes|b%d' % bits, B, p, bytes(c))
            ctx.state((bits, 'reserved', v))
        # trailing bytes after the declared size are not part of the image
        for extra in (1, 7, 64):
            Path(p).write_bytes(whole + b'\xee' * extra)
            check_load(ctx, 'trailing|b%d' % bits, B, p, whole)
            # saving over a longer file leaves nothing of it behind
            check_save(ctx, 'overwrite longer|b%d' % bits, B, p, array('B', whole))
        ctx.sample('every truncation of a %d byte %d-bit file' % (len(whole), bits))
    elif kind == 'notbmp':
        whole = bytearray(bytes(mkbuf(mkimg(5, 3, 24))))
        p = os.path.join(d, 'n.bmp')

        def expect_none(sig, content, **k):
            if content is not None:
                Path(p).write_bytes(content)
            ok, a = call(ctx, sig, B.loadBMP, p)
            if ok and a is not None and len(a):
                ctx.fail(sig, got=len(a), **k)
            if content is not None and Path(p).read_bytes() != content:
                ctx.fail(sig + '|file changed', **k)
            ctx.trace()
        for i in range(2):
            for v in range(256):
                if v != b'BM'[i]:
                    c = bytes(whole[:i]) + bytes([v]) + bytes(whole[i + 1:])
                    expect_none('signature', c, byte=i, value=v)
                    ctx.state((i, v))
        for n in range(0, 55):
            c = bytes(whole[:2]) + n.to_bytes(4, 'little') + bytes(whole[6:])
            expect_none('declared size', c, size=n)
            ctx.state(('size', n))
        for junk in (b'', b'M', b'B', b'MB' + bytes(whole[2:]), b'\0' * 100, b'GIF89a' + b'x' * 80):
            expect_none('junk', junk, start=str(junk[:10]))
        os.remove(p)
        expect_none('missing file', None)
        os.mkdir(p)
        expect_none('directory', None)
        if os.listdir(p):
            ctx.fail('directory|written to')
        os.rmdir(p)
        if os.path.exists(p):
            ctx.fail('missing file created')
        ctx.sample('every wrong signature byte, every declared size 0..54, missing file, directory')
