"""One table of every operation that draws on an image, with an argument generator.

Each entry: (name, modes, function, make(x, y, s, colour) -> argument tuple).
modes: set of 'clip'   - draws the visible part of the same shape wherever it lies,
              'refuse' - draws nothing when any part of its box is outside,
              'any'    - only confinement is judged,
              'h'      - uses horizontal lines (recorded 4-bit defect at line ends),
              '24'     - 24-bit images only (refused elsewhere), '8' - 8- and 24-bit only,
              'grad'   - takes a luminosity range and colour factors instead of one colour."""

LUM = (0, 60)
FAC = (1, 0.5, 0.25)


def table(B):
    from pythonbmp import fonts, solids3D as S, fractals as F
    font = fonts.font8x8
    glyph = [0b10011101, 0b01000010, 0b11111111, 0b00011000]
    SD, ROT = S.getshapesidedict(), S.rotvec3D(30, 20, 10)
    t = []

    def op(name, modes, make, fn=None):
        t.append((name, set(modes.split()), fn or getattr(B, name.split(' ')[0]), make))
    op('plotxybit', 'clip', lambda x, y, s, c: (x, y, c))
    op('plotvecxypoint', 'clip', lambda x, y, s, c: ((x, y), c))
    op('intplotvecxypoint', 'clip', lambda x, y, s, c: ((x, y), c))
    op('roundpen', 'clip h', lambda x, y, s, c: ((x, y), s, c))
    op('plotxypointlist', 'clip h', lambda x, y, s, c: ([(x, y), (x + s, y - 1)], 2, c))
    op('circle', 'clip', lambda x, y, s, c: (x, y, s, c))
    op('circle filled', 'clip h', lambda x, y, s, c: (x, y, s, c, True))
    op('filledcircle', 'clip h', lambda x, y, s, c: (x, y, s, c))
    op('thickcircle', 'clip h', lambda x, y, s, c: (x, y, s, 2, c))
    op('ellipse', 'clip', lambda x, y, s, c: (x, y, s, s // 2 + 1, c))
    op('ellipse wide', 'clip', lambda x, y, s, c: (x, y, s // 2, s + 1, c))
    op('ellipse filled', 'clip h', lambda x, y, s, c: (x, y, s, s // 2 + 1, c, True))
    op('filledellipse', 'clip h', lambda x, y, s, c: (x, y, s // 2, s + 1, c))
    op('thickellipserot', 'any h', lambda x, y, s, c: (x, y, s, s // 2 + 1, 30, 1, c))
    op('drawarc', 'clip', lambda x, y, s, c: (x, y, s + 1, 20, 200, c, True, c, False))
    op('drawarc filled', 'h any', lambda x, y, s, c: (x, y, s + 1, 20, 120, c, True, c, True))
    op('line', 'any h', lambda x, y, s, c: (x, y, x + 2 * s, y + s, c))
    op('line steep', 'any h', lambda x, y, s, c: (x, y, x - s, y + 2 * s, c))
    op('line flat', 'any h', lambda x, y, s, c: (x - s, y, x + s, y, c))
    op('linevec', 'any h', lambda x, y, s, c: ((x, y), (x, y - s), c))
    op('horiline', 'clip h', lambda x, y, s, c: (y, x, x + s, c))
    op('horiline back', 'clip h', lambda x, y, s, c: (y, x + s, x, c))
    op('vertline', 'clip', lambda x, y, s, c: (x, y, y + s, c))
    op('vertline back', 'clip', lambda x, y, s, c: (x, y + s, y, c))
    op('rectangle', 'any h', lambda x, y, s, c: (x, y, x + s, y + s // 2, c))
    op('filledrect', 'refuse h', lambda x, y, s, c: (x, y, x + s, y + s // 2, c))
    op('plotpoly', 'any h', lambda x, y, s, c: ([(x, y), (x + s, y + 1), (x + 1, y + s)], c))
    op('plotpolylist', 'any h', lambda x, y, s, c: ([[(x, y), (x + s, y + 1)], [(x, y), (x + 1, y + s), (x, y)]], c))
    op('plotlines', 'any h', lambda x, y, s, c: ([(x, y), (x + s, y + 1), (x + 1, y + s)], c))
    op('plotlines thick', 'clip h', lambda x, y, s, c: ([(x, y), (x + s, y + 1), (x + 1, y + s)], c, 2))
    op('thickroundline', 'clip h', lambda x, y, s, c: ((x, y), (x + s, y - 2), 2, c))
    op('thickplotpoly', 'clip h', lambda x, y, s, c: ([(x, y), (x + s, y + 1), (x + 1, y + s)], 2, c))
    op('plotpolyfill', 'refuse h', lambda x, y, s, c: ([(x, y), (x + s, y + 1), (x + 1, y + s)], c))
    op('filledparallelogram', 'any h', lambda x, y, s, c: ((x, y), (x + s, y + 1), (x + 1, y + s), c))
    op('drawvec', 'any h', lambda x, y, s, c: ((x, y), (x + s + 1, y + s), 3, c))
    op('xygrid', 'refuse h', lambda x, y, s, c: (x, y, x + s, y + s, (2, 3), c))
    op('xygridvec', 'refuse h', lambda x, y, s, c: ((x, y), (x + s, y + s), (3, 2), c))
    op('beziercurve', 'clip h', lambda x, y, s, c: ([(x, y), (x + s, y + 2), (x - s, y + s), (x, y + 3)], 1, c))
    op('beziercurve thick', 'clip h', lambda x, y, s, c: ([(x, y), (x + s, y + 2), (x - s, y + s), (x, y + 3)], 2, c))
    op('bspline', 'any h', lambda x, y, s, c: ([(x, y), (x + s, y + 2), (x - s, y + s), (x, y + 3)], 1, c, True, True))
    op('bspline open', 'any h', lambda x, y, s, c: ([(x, y), (x + s, y + 2), (x - s, y + s), (x, y + 3)], 2, c, False, False))
    op('squircle', 'any h', lambda x, y, s, c: (x, y, s + 1, c))
    op('fillboundary', 'any h', lambda x, y, s, c: ({y: [x, x + s], y + 1: [x]}, c))
    op('plotstring', 'clip h', lambda x, y, s, c: (x, y, 'A\nb', 1, 0, 1, c, font))
    op('plotstring scaled', 'any h', lambda x, y, s, c: (x, y, 'A', 3, 0, 1, c, font))
    op('plotstringasdots', 'clip h', lambda x, y, s, c: (x, y, 'A', 3, 0, 1, c, font))
    op('plotitalicstringasdots', 'clip h', lambda x, y, s, c: (x, y, 'A', 2, 0, 1, c, font))
    op('plotstringsideway', 'clip', lambda x, y, s, c: (x, y, 'A', 1, 0, 1, c, font))
    op('plotstringvertical', 'clip', lambda x, y, s, c: (x, y, 'Ab', 1, 0, 1, c, font))
    op('plotstringupsidedown', 'clip', lambda x, y, s, c: (x, y, 'A', 1, 0, 1, c, font))
    op('plotreversestring', 'clip', lambda x, y, s, c: (x, y, 'A', 1, 0, 1, c, font))
    op('plot8bitpattern', 'clip', lambda x, y, s, c: (x, y, glyph, 1, 0, c))
    op('plot8bitpattern scaled', 'any h', lambda x, y, s, c: (x, y, glyph, 2, 0, c))
    op('plot8bitpatternasdots', 'clip h', lambda x, y, s, c: (x, y, glyph, 3, 0, c))
    op('vertlinevert', 'clip', lambda x, y, s, c: ([(x, y), (x + 2, y + 1)], s, -1, c))
    op('horilinevert', 'clip h', lambda x, y, s, c: ([(x, y), (x + 2, y + 1)], s, -1, c))
    op('numbervert', 'clip', lambda x, y, s, c: ([(x, y), (x + 5, y + 1)], 1, 1, 1, 7, 2, 0, 0, c, font, False, False, True))
    op('plot3Dsolid', 'any h', lambda x, y, s, c: ((S.cubevert(s + 2), SD['cube']), False, (1, 1, 1), True, c, ROT, (0, 0, 50), 60, (x, y)))
    op('plot3Dsolid solid', 'any h grad', lambda x, y, s, c: ((S.tetrahedravert(s + 3), SD['tetrahedra']), True, (0.2, 0.1, 0.2), False, c, ROT, (0, 0, 50), 60, (x, y)))
    op('IFS', 'any', lambda x, y, s, c: (F.getIFSparams()['fern'], x, y, x + s + 2, y + s + 2, 1, 1, 2, 0, c, 40))
    op('gradthickroundline', 'clip h grad', lambda x, y, s, c: ((x, y), (x + s, y + 2), 2, LUM, FAC))
    op('gradthickcircle', 'clip h grad', lambda x, y, s, c: (x, y, s, 2, LUM, FAC))
    op('gradcircle', 'clip h grad', lambda x, y, s, c: (x, y, s, LUM, FAC))
    op('graddichromiccircle', 'clip h grad 24', lambda x, y, s, c: (x, y, s, 0x200010, 0x002020))
    op('orb', 'clip h grad', lambda x, y, s, c: (x, y, s, (0.1, 0.2, 0.1)))
    op('sphere', 'clip h grad', lambda x, y, s, c: (x, y, s, (0.1, 0.2, 0.1)))
    op('thickencirclearea', 'clip h grad', lambda x, y, s, c: (x, y, s, (0.1, 0.2, 0.1)))
    op('gradthickellipserot', 'clip h grad', lambda x, y, s, c: (x, y, s, s // 2 + 1, 45, 2, LUM, FAC))
    op('gradellipse', 'clip h grad', lambda x, y, s, c: (x, y, s + 1, s // 2 + 1, LUM, FAC))
    op('gradthickplotpoly', 'clip h grad', lambda x, y, s, c: ([(x, y), (x + s, y + 1), (x + 1, y + s)], 2, LUM, FAC))
    op('gradplotlines', 'any h grad', lambda x, y, s, c: ([(x, y), (x + s, y + 1), (x + 1, y + s)], 2, LUM, FAC))
    op('gradvert', 'clip h grad', lambda x, y, s, c: ([(x, y), (x + s, y + 1)], 2, LUM, FAC))
    op('filledgradrect', 'refuse h grad 8', lambda x, y, s, c: (x, y, x + s, y + s // 2, LUM, FAC, s & 1))
    op('filleddichromaticgradrect', 'refuse h grad 24', lambda x, y, s, c: (x, y, x + s, y + s // 2, 0x200010, 0x002020, s & 1))
    op('plotflower', 'any grad', lambda x, y, s, c: (x, y, s + 1, 5, 0, LUM, FAC))
    op('plotfilledflower', 'any grad', lambda x, y, s, c: (x, y, s + 1, 3, 10, LUM, FAC))
    op('piechart', 'any h', lambda x, y, s, c: (x, y, s + 2, [[20, c], [30, c], [50, c]]))
    return t
