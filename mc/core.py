"""Shared machinery: binding to the code under test, the reference image model,
an independent BMP decoder/encoder, and the bookkeeping a check unit uses."""
import os, sys, hashlib, itertools
from array import array

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def bind():
    """Import the library from the current working tree of the repository."""
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import pythonbmp
    got = os.path.realpath(os.path.dirname(pythonbmp.__file__))
    want = os.path.realpath(os.path.join(REPO, 'pythonbmp'))
    assert got == want, (got, want)
    import pythonbmp.BITMAPlib as B
    return B


HDR = {1: 62, 4: 118, 8: 1078, 24: 54}
DEPTHS = (1, 4, 8, 24)


def stride(w, bits):
    return (w * bits + 31) // 32 * 4


class BadImage(Exception):
    pass


class Img:
    """Reference image: a plain grid of colour numbers plus a palette.
    px[y][x] with y = 0 at the top; 24-bit pixels are 0xRRGGBB integers."""
    __slots__ = ('w', 'h', 'bits', 'px', 'pal')

    def __init__(self, w, h, bits, px=None, pal=None):
        self.w, self.h, self.bits = w, h, bits
        self.px = px if px is not None else [[0] * w for _ in range(h)]
        self.pal = pal

    def copy(self):
        return Img(self.w, self.h, self.bits, [r[:] for r in self.px],
                   None if self.pal is None else list(self.pal))

    def mask(self, c):
        return c & ((1 << self.bits) - 1)

    def put(self, x, y, c):
        if 0 <= x < self.w and 0 <= y < self.h:
            self.px[y][x] = self.mask(c)

    def rgb(self, x, y):
        c = self.px[y][x]
        if self.bits == 24:
            return (c >> 16, c >> 8 & 255, c & 255)
        return tuple(self.pal[c][:3])

    def key(self):
        return (self.w, self.h, self.bits, tuple(map(tuple, self.px)), None if self.pal is None else tuple(self.pal))

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


def u32(b, o):
    return b[o] | b[o + 1] << 8 | b[o + 2] << 16 | b[o + 3] << 24


def decode_pixels(buf, w, h, bits):
    """Pixel rows (top first) from a whole-file buffer, independent of the library."""
    st, hd = stride(w, bits), HDR[bits]
    rows = []
    for y in range(h):
        o = hd + (h - 1 - y) * st
        if bits == 24:
            rows.append([buf[o + 3 * x + 2] << 16 | buf[o + 3 * x + 1] << 8 | buf[o + 3 * x] for x in range(w)])
        elif bits == 8:
            rows.append(list(buf[o:o + w]))
        elif bits == 4:
            rows.append([(buf[o + (x >> 1)] >> (0 if x & 1 else 4)) & 15 for x in range(w)])
        else:
            rows.append([(buf[o + (x >> 3)] >> (7 - (x & 7))) & 1 for x in range(w)])
    return rows


def decode(buf):
    """Strict independent decoder: raises BadImage for anything malformed."""
    if bytes(buf[:2]) != b'BM':
        raise BadImage('signature %r' % bytes(buf[:2]))
    if len(buf) < 54:
        raise BadImage('short header')
    bits = buf[28] | buf[29] << 8
    if bits not in HDR:
        raise BadImage('bits per pixel %d' % bits)
    w, h = u32(buf, 18), u32(buf, 22)
    if u32(buf, 10) != HDR[bits]:
        raise BadImage('pixel offset %d for %d bits' % (u32(buf, 10), bits))
    if u32(buf, 14) != 40:
        raise BadImage('info header size %d' % u32(buf, 14))
    if any(buf[6:10]):
        raise BadImage('reserved bytes')
    if u32(buf, 30):
        raise BadImage('compression %d' % u32(buf, 30))
    if w < 1 or h < 1:
        raise BadImage('dimensions %dx%d' % (w, h))
    need = HDR[bits] + stride(w, bits) * h
    if u32(buf, 2) != need:
        raise BadImage('declared size %d, %dx%dx%d needs %d' % (u32(buf, 2), w, h, bits, need))
    if len(buf) != need:
        raise BadImage('length %d, declared %d' % (len(buf), need))
    pal = None
    if bits < 24:
        pal = [(buf[54 + 4 * i + 2], buf[54 + 4 * i + 1], buf[54 + 4 * i], buf[54 + 4 * i + 3])
               for i in range(1 << bits)]
    return Img(w, h, bits, decode_pixels(buf, w, h, bits), pal)


def pad_bits(buf, w, h, bits):
    """The bits of every row that belong to no pixel (unused sub-byte bits and padding)."""
    st, hd = stride(w, bits), HDR[bits]
    out = []
    used = w * bits
    full, rem = divmod(used, 8)
    for y in range(h):
        o = hd + y * st
        row = bytes(buf[o + full:o + st])
        if rem and row:
            row = bytes([row[0] & ((1 << (8 - rem)) - 1)]) + row[1:]
        out.append(row)
    return b''.join(out)


def encode(img, base=None):
    """Write img into a whole-file buffer without using the library.  `base` is a buffer whose
    header is reused (default: a header made here with the planes field of newBMP)."""
    bits, w, h = img.bits, img.w, img.h
    st, hd = stride(w, bits), HDR[bits]
    n = hd + st * h
    b = bytearray(n)
    b[0:2] = b'BM'
    b[2:6] = n.to_bytes(4, 'little')
    b[10:14] = hd.to_bytes(4, 'little')
    b[14] = 40
    b[18:22] = w.to_bytes(4, 'little')
    b[22:26] = h.to_bytes(4, 'little')
    b[28] = bits
    if base is not None:
        b[26:28] = bytes(base[26:28])
    if bits < 24:
        for i, p in enumerate(img.pal):
            b[54 + 4 * i:58 + 4 * i] = bytes((p[2], p[1], p[0], p[3] if len(p) > 3 else 0))
    for y in range(h):
        o = hd + (h - 1 - y) * st
        row = img.px[y]
        if bits == 24:
            for x in range(w):
                c = row[x]
                b[o + 3 * x] = c & 255
                b[o + 3 * x + 1] = c >> 8 & 255
                b[o + 3 * x + 2] = c >> 16
        elif bits == 8:
            b[o:o + w] = bytes(row)
        elif bits == 4:
            for x in range(w):
                b[o + (x >> 1)] |= row[x] << (0 if x & 1 else 4)
        else:
            for x in range(w):
                b[o + (x >> 3)] |= row[x] << (7 - (x & 7))
    return array('B', bytes(b))


# standard palettes (the classic Windows ones), written down independently of the library
STD16 = [(0, 0, 0), (128, 0, 0), (0, 128, 0), (128, 128, 0), (0, 0, 128), (128, 0, 128), (0, 128, 128), (128, 128, 128),
         (192, 192, 192), (255, 0, 0), (0, 255, 0), (255, 255, 0), (0, 0, 255), (255, 0, 255), (0, 255, 255), (255, 255, 255)]
STD256 = STD16[:7] + [(192, 192, 192), (192, 220, 192), (166, 202, 240)] + [
    ((i & 7) * 32, (i >> 3 & 7) * 32, (i >> 6) * 64) for i in range(10, 246)] + [
    (255, 251, 240), (160, 160, 164), (128, 128, 128)] + STD16[9:]
STDPAL = {1: [(0, 0, 0), (255, 255, 255)], 4: STD16, 8: STD256}


def fill_pattern(w, h, bits, k=0):
    """A deterministic pixel grid in which neighbouring pixels differ and every pixel is (nearly)
    unique, so that any misplaced pixel shows.  k selects one of several independent patterns."""
    px = []
    for y in range(h):
        row = []
        for x in range(w):
            n = y * w + x
            if bits == 24:
                c = (((n * 7 + 3 + 31 * k) & 255) << 16) | (((n * 13 + 101 + k * 5) & 255) << 8) | ((n * 29 + 17 + k) & 255)
            elif bits == 8:
                c = (n * 11 + 5 + 67 * k) & 255
            elif bits == 4:
                c = (x * 3 + y * 5 + (x * y) + 1 + 7 * k + (n * n >> 3)) & 15
            else:
                v = (x * 0x9E37 + y * 0x79B9 + (x * y + 3 * k) * 0x7F4A + k * 0x1234 + 0x55)
                c = (v >> 7 ^ v >> 3 ^ v >> 11) & 1
            row.append(c)
        px.append(row)
    return px


def mkimg(w, h, bits, px=None, pal='std', k=0):
    if px is None:
        px = fill_pattern(w, h, bits, k)
    if bits == 24:
        p = None
    elif pal == 'std':
        p = stdpal(bits)
    else:
        p = pal
    return Img(w, h, bits, px, p)


def stdpal(bits):
    return [p + (0,) for p in STDPAL[bits]]


def mkbuf(img):
    """Library-side buffer holding img: a fresh library header with pixels and palette written in
    directly by this module."""
    return encode(img)


def grid_diff(a, b, limit=6):
    out = []
    for y, (ra, rb) in enumerate(zip(a, b)):
        if ra != rb:
            for x, (p, q) in enumerate(zip(ra, rb)):
                if p != q:
                    out.append('(%d,%d): expected %s got %s' % (x, y, p, q))
                    if len(out) >= limit:
                        return out
    return out


def show(px, bits):
    if len(px) * len(px[0]) > 1200:
        return None
    f = {1: '%d', 4: '%x', 8: '%02x ', 24: '%06x '}[bits]
    return [''.join(f % c for c in r) for r in px]


class Stop(Exception):
    """Raised to end a unit early once it has reported enough failures."""


class Hang(BaseException):
    pass


class Ctx:
    MAXFAIL = 12

    def __init__(self, prop, known, tier):
        self.prop, self.known, self.tier = prop, known, tier
        self.fails, self.kf = [], {}
        self.transitions = self.traces = 0
        self.seen = set()
        self.nstates = 0
        self.samples = []
        self.outcomes = {}
        self.unit = None

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def state(self, key):
        """Record a distinct reached state; True if new."""
        h = hash(key) if not isinstance(key, (bytes, bytearray, array)) else hashlib.blake2b(bytes(key), digest_size=8).digest()
        if h in self.seen:
            return False
        self.seen.add(h)
        self.nstates += 1
        return True

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(str(s)[:400])

    def fail(self, sig, **detail):
        """Report that the property fails on the case identified by sig."""
        for k in self.known:
            if k['rx'].fullmatch(sig):
                self.kf[k['id']] = self.kf.get(k['id'], 0) + 1
                return
        self.fails.append({'sig': sig, 'unit': self.unit, 'detail': {k: _js(v) for k, v in detail.items()}})
        if len(self.fails) >= self.MAXFAIL:
            raise Stop()

    def expect_grid(self, sig, want, got, **detail):
        """want/got: pixel grids."""
        if want != got:
            self.fail(sig, diff=grid_diff(want, got), **detail)
            return False
        return True


def _js(v):
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v
    if isinstance(v, (list, tuple)):
        if len(v) > 400:
            return str(v)[:2000]
        return [_js(x) for x in v]
    if isinstance(v, dict):
        return {str(a): _js(b) for a, b in v.items()}
    return str(v)[:2000]


def call(ctx, sig, fn, /, *a, **k):
    """Run one library operation; an exception is itself a failure. Returns (ok, value)."""
    ctx.step()
    try:
        return True, fn(*a, **k)
    except (Stop, Hang, KeyboardInterrupt):
        raise
    except BaseException as e:          # SystemExit included: no operation may end the process
        ctx.fail(sig + '|raised', error='%s: %s' % (type(e).__name__, e))
        return False, None
