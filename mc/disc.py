"""Reference discs: the integer midpoint circle, written independently of the library."""


def octant(r):
    """(column, row) steps of the midpoint circle of radius r, from (0, r) to the diagonal."""
    row, col = r, 0
    q = r * r
    d = 2 * q * (row - 1) * row + q + 2 * q * (1 - q)
    out = []
    while row >= col:
        out.append((col, row))
        if d >= 0:
            row -= 1
            d -= 4 * q * row
        d += 2 * q * (3 + 2 * col)
        col += 1
    return out


_h, _v = {}, {}


def rowhalf(r):
    """Half width of the disc on each row distance 0..r (the widest boundary point on that row)."""
    if r not in _h:
        t = {}
        for c, w in octant(r):
            for x, y in ((c, w), (w, c)):
                t[y] = max(t.get(y, 0), x)
        _h[r] = [t[i] for i in range(r + 1)]
    return _h[r]


def colhalf(r):
    """Half height on each column distance: as rowhalf up to the diagonal, beyond it the first
    boundary point met on that column."""
    if r not in _v:
        t = {}
        for c, w in octant(r):
            t.setdefault(c, w)
            t.setdefault(w, c)
        _v[r] = [t[i] for i in range(r + 1)]
    return _v[r]


def outline(r):
    s = set()
    for c, w in octant(r):
        for a, b in ((c, w), (w, c)):
            s |= {(a, b), (-a, b), (a, -b), (-a, -b)}
    return s


def fits(w, h, x, y, r):
    return x - r >= 0 and y - r >= 0 and x + r < w and y + r < h
