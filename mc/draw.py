"""Reference sets for drawing operations, written independently of the library."""
from .core import *
from .disc import *


def hline(y, x1, x2):
    if x1 > x2:
        x1, x2 = x2, x1
    return {(x, y) for x in range(x1, x2 + 1)}


def vline(x, y1, y2):
    if y1 > y2:
        y1, y2 = y2, y1
    return {(x, y) for y in range(y1, y2 + 1)}


def filldisc(x, y, r):
    s = set()
    h = rowhalf(r)
    for d in range(r + 1):
        for k in range(-h[d], h[d] + 1):
            s.add((x + k, y + d))
            s.add((x + k, y - d))
    return s


def clip(s, w, h):
    return {p for p in s if 0 <= p[0] < w and 0 <= p[1] < h}


def paint(px, s, c, bits):
    c &= (1 << bits) - 1
    g = [r[:] for r in px]
    for x, y in s:
        if 0 <= y < len(g) and 0 <= x < len(g[0]):
            g[y][x] = c
    return g


def row4(g, y, x1, x2, c):
    """The recorded defect of 4-bit horizontal lines: whole bytes from the byte of x1, first nibble restored when
    x1 is odd, and x2-1 (not x2) plotted when x2 is odd.  Edits the grid g."""
    w = len(g[0])
    if not 0 <= y < len(g):
        return
    if x1 > x2:
        x1, x2 = x2, x1
    x1, x2 = max(x1, 0), min(x2, w - 1)
    if x1 > x2:
        return
    c &= 15
    row = g[y]
    b0 = x1 >> 1
    keep = row[x1 - 1] if x1 & 1 else None
    for b in range(b0, b0 + ((x2 - x1 + 1) >> 1)):
        for x in (2 * b, 2 * b + 1):
            if x < w:
                row[x] = c
    if keep is not None:
        row[x1 - 1] = keep
    if x2 & 1:
        row[x2 - 1] = c


def rows4(px, rows, c):
    g = [r[:] for r in px]
    for y, a, b in rows:
        row4(g, y, a, b, c)
    return g


def drawn(ctx, sig, fn, w, h, args, kwargs={}, color=0xffffff):
    """The set of pixels the operation paints on a blank 24-bit image, or None on failure.  The colour
    argument must already be in args; every painted pixel must have exactly that colour."""
    key = (w, h)
    c = _blank.get(key)
    if c is None:
        c = _blank[key] = mkbuf(Img(w, h, 24, [[0] * w for _ in range(h)]))
    buf = c[:]
    ok, _ = call(ctx, sig, fn, buf, *args, **kwargs)
    if not ok:
        return None
    if len(buf) != len(c) or buf[:54] != c[:54]:
        ctx.fail(sig + '|header', args=args, size=(w, h), before=len(c), after=len(buf))
        return None
    s = set()
    for y, row in enumerate(decode_pixels(buf, w, h, 24)):
        for x, v in enumerate(row):
            if v:
                if v != color:
                    ctx.fail(sig + '|colour', args=args, at=(x, y), got='%06x' % v)
                    return None
                s.add((x, y))
    if any(pad_bits(buf, w, h, 24)):
        ctx.fail(sig + "|padding", args=args)
        return None
    return s


_blank = {}


def show_set(s, w, h):
    if w * h > 1200:
        return sorted(s)[:60]
    return [''.join('#' if (x, y) in s else '.' for x in range(w)) for y in range(h)]


def line_ok(s, p1, p2):
    """None, or why the pixel set s is no straight line from p1 to p2: one pixel per step of the longer
    axis, less than one pixel from the ideal line, without gaps, both ends included."""
    (x1, y1), (x2, y2) = p1, p2
    if p1 not in s or p2 not in s:
        return 'an end point is missing'
    dx, dy = x2 - x1, y2 - y1
    if abs(dx) < abs(dy):
        s = {(y, x) for x, y in s}
        x1, y1, x2, y2, dx, dy = y1, x1, y2, x2, dy, dx
    if dx < 0:
        x1, y1, x2, y2, dx, dy = x2, y2, x1, y1, -dx, -dy
    if len(s) != dx + 1:
        return '%d pixels, %d steps' % (len(s), dx + 1)
    d = dict(s)
    prev = None
    for x in range(x1, x2 + 1):
        if x not in d:
            return 'gap'
        y = d[x]
        if abs((y - y1) * dx - (x - x1) * dy) >= max(dx, 1):
            return 'pixel off the line'
        if prev is not None and abs(y - prev) > 1:
            return 'not connected'
        prev = y
    return None


def clamp(v, lo, hi):
    return lo if v < lo else hi if v > hi else v


def mirror4(x, y, pts):
    return {(x + sx * a, y + sy * b) for a, b in pts for sx in (1, -1) for sy in (1, -1)}


def connected(s):
    """8-connected?"""
    if not s:
        return True
    s = set(s)
    st = [s.pop()]
    while st:
        x, y = st.pop()
        for dx in (-1, 0, 1):
            for dy in (-1, 0, 1):
                q = (x + dx, y + dy)
                if q in s:
                    s.discard(q)
                    st.append(q)
    return not s
