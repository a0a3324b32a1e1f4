"""Source of properties.jsonl and MANIFEST.json (python3 tools/props.py writes both)."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
LIB = 'pythonbmp/BITMAPlib.py'
TECH = 'explicit-state model checking of the real code: exhaustive bounded enumeration of operations against an independent reference model'


def prop(id, title, statement, over, text, tests, files, mech, observe, note, technique=TECH, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append((d, note, technique))


prop('C01', 'A fresh image is a well-formed all-zero bitmap of the requested shape',
     'Creating an image of any positive width and height at 1, 4, 8 or 24 bits per pixel yields a byte-exact bitmap file image: signature, size, pixel offset, '
     'dimensions and depth fields agree with each other and with the length of the data, rows are padded to four bytes, the palette is the standard one for the depth '
     '(or the requested recipe), and every pixel is zero. The size, centre, corner and inside/outside queries on it agree with its shape, and no two images share storage.',
     ['inputs', 'configurations'], 'all widths, heights and depths, including sizes whose header fields need all four bytes',
     'The test suite creates images of a handful of sizes, all below 64 KB wide and below 16 MB, and compares finished pictures; a padding or carry error shows only at particular width residues or sizes.',
     [LIB, 'pythonbmp/inttools.py', 'pythonbmp/bmpconstants.py', 'pythonbmp/bmppal.py'],
     [('newBMP / _setmeta / _bmmeta', LIB), ('_xbytes, _pdbytes row padding', LIB), ('writeint / readint', 'pythonbmp/inttools.py')],
     ['bytes of the returned buffer', 'getmaxx, getmaxy, getmaxxy, bottomrightcoord, centercoord, isinBMPrectbnd'],
     'Every size in the stated grid plus all byte-carry boundaries is built by the real code and decoded byte by byte by an independent decoder. Trusts the decoder (mc/core.py).')

prop('C02', 'Saving and loading preserve images exactly; non-bitmaps load as nothing',
     'Loading a saved image gives back exactly the saved bytes for every size, depth, palette and pixel content, whatever was saved, loaded, edited or deleted before, '
     'and saving over a longer file leaves nothing of it. Loading a missing file, a directory, a file with a wrong signature or one that declares no room for pixels yields no image, '
     'raises nothing and changes no file; a torn file never yields bytes it does not contain.',
     ['histories', 'crash_points', 'inputs'], 'all histories of saves, loads, edits and deletions over two files, all truncation points, all contents',
     'Tests save each picture once and reload whole valid files; no test tears, corrupts or overwrites a file or keeps a loaded image alive across a second load.',
     [LIB, 'pythonbmp/fileutils.py', 'pythonbmp/chartools.py'],
     [('saveBMP', LIB), ('loadBMP', LIB), ('checklink', 'pythonbmp/fileutils.py'), ('char2int', 'pythonbmp/chartools.py')],
     ['file bytes', 'array returned by loadBMP'],
     'All operation histories of the stated depth over two files, all truncation points and all listed corruptions are executed on real files in a scratch directory and compared with a dictionary model.',
     state=[('file contents', 'bytes of each named file', 'file system'), ('in-memory image', 'buffer returned by the last load', 'caller')])

prop('C03', 'Every pixel is an independent cell; plots outside the image change nothing',
     'Plotting a pixel changes exactly that pixel to exactly that colour (for a colour triple on an indexed image, to a nearest palette entry; a colour number past the palette counts on from 0, at 1 bit any but 0 sets the pixel) and nothing else: no neighbour sharing its byte, no padding, '
     'header or palette. Reading returns the last colour plotted there, and any coordinate outside the image reads as absent and is ignored when plotted.',
     ['histories', 'inputs'], 'all sequences of plots (full reachable state graph of small images), all positions, widths and colours at all four depths',
     'Tests compare whole drawings at a few sizes; they never read back each cell after each write, nor plot outside every edge, nor use widths of every residue modulo eight.',
     [LIB], [('plotxybit', LIB), ('getxybit', LIB), ('_1bmofhd/_4bmofhd/_8bmofhd/_24bmofhd', LIB), ('matchRGBtopal', 'pythonbmp/colors.py'), ('BMPbitBLTput/BMPbitBLTget', LIB)],
     ['whole buffer after every plot', 'getxybit, getRGBxybit at every coordinate'],
     'The complete state graph of tiny images is explored breadth-first with every plot at every coordinate inside and outside; larger sizes are enumerated cell by cell. Every resulting buffer is compared byte by byte with a grid model.',
     state=[('pixel grid', 'colour of each pixel', 'image buffer')])

prop('C04', 'Palette operations change exactly the named entries and nothing else',
     'Setting, replacing, copying, recolouring or rotating a palette gives exactly the requested entries, leaves pixels and header alone, and a palette list of the wrong length changes nothing. '
     'Rotating is a cyclic permutation that returns to the start after as many steps as there are colours, and on depths without rotatable palette nothing happens.',
     ['histories', 'inputs'], 'all entries, channel values, list lengths, rotation amounts and sequences of palette operations at 1, 4 and 8 bits',
     'Tests touch one palette function through a single picture; entry-level effects, wrong lengths, wrap-around and sequences are not tested.',
     [LIB, 'pythonbmp/colors.py'], [('setRGBpal, setbmppal, setbmppalwithBGRlist, setbmppalwithBGRAlist', LIB), ('palshift / itercolorcycle', LIB), ('copyRGBpal, copyBMPhdr', LIB), ('monochromepal, dichromaticpal', 'pythonbmp/colors.py')],
     ['whole buffer after each call'], 'Breadth-first exploration of palettes reached by sequences of operations plus exhaustive single-operation enumeration; every buffer compared byte by byte with a list model.',
     state=[('palette', 'list of entries', 'image buffer')])

prop('C06', 'Straight lines join their end points without gaps and touch nothing else',
     'A line drawn between two points (moved to the nearest pixel of the image when outside) paints both ends and one pixel per step of its longer axis, each less than one pixel from the ideal line, '
     'identically at every depth, and changes nothing else in the image. Poly-lines, polygon outlines, rectangles, grids, thick lines and arrows are exactly the union of such lines, or of discs along them; '
     'horizontal and vertical lines are clipped at the border and vanish outside.',
     ['inputs'], 'all pairs of end points inside and outside, every byte alignment, all directions, pens and depths',
     'Tests compare a few finished drawings at one depth; wrong end pixels, gaps at particular slopes, clipped ends and neighbours sharing a byte are not covered.',
     [LIB, 'pythonbmp/primitives2D.py'], [('line, horiline, vertline', LIB), ('iterline', 'pythonbmp/primitives2D.py'), ('plotlines, plotpoly, thickroundline, drawvec, xygrid', LIB)],
     ['whole buffer after each call', 'points of iterline, lineseg, iterdrawvec'],
     'All end-point pairs on small images at all depths against independently tested line shapes. Known finding: 4-bit horizontal lines treat their end pixels wrongly (pinned by reference images).')

prop('C07', 'Rectangles, circles, ellipses and polygons fill exactly their inside',
     'Circle and ellipse outlines are closed, symmetric, reach exactly their radii and stay within a pixel of the ideal curve; filled rectangles, circles, ellipses and convex polygons paint exactly the rows between their outline pixels, '
     'filled parallelograms have no holes, and thick outlines are exactly the discs along the outline. Parts outside the image are dropped (rectangles and polygons that leave the image are refused), every other pixel, the palette and the header stay unchanged, at every depth.',
     ['inputs'], 'all corner pairs, centres, radii, half axes and vertex tuples inside, across and outside the border of small images, at all four depths',
     'Tests compare a few finished drawings at one depth, wholly inside the image; cut shapes, tiny and degenerate shapes, holes and other depths are not covered.',
     [LIB, 'pythonbmp/primitives2D.py', 'pythonbmp/solids3D.py'], [('filledrect, circle, filledcircle, ellipse, filledellipse, plotpolyfill, filledparallelogram', LIB), ('itercirclepart, iterellipsepart, iterparallelogram, squirclevert', 'pythonbmp/primitives2D.py'), ('polyboundary, fillpolydata', 'pythonbmp/solids3D.py')],
     ['whole buffer after each call'],
     'Every centre/size in the bounds at every depth against independent midpoint-circle rows and geometric criteria for outlines. Known findings: 4-bit rows treat end pixels wrongly (pinned), non-convex polygons are filled across their dents.')

prop('C08', 'In-place region transforms move exactly the pixels of their rectangle',
     'Flipping, mirroring, inverting, outlining and erasing alternate lines, on a rectangle given by any two opposite corners or on the whole image, gives exactly the picture the operation names inside the rectangle '
     'and leaves every pixel outside it, the palette and the header unchanged, at every depth. Flips and inversion undo themselves, and mirrors are idempotent.',
     ['inputs', 'histories'], 'all rectangles, corner orders, image widths of every byte alignment, contents of tiny images, and sequences of operations, at all four depths',
     'Tests run each operation once on one 24-bit photograph with one rectangle, so unaligned packed pixels, one-pixel rectangles, swapped corners and combinations are never reached.',
     [LIB, 'pythonbmp/bufferflip.py'], [('verttransregion, horizontalbulkswap, flip*/mirror* family', LIB), ('invertregion, outlineregion', LIB), ('erasealternatehorizontallines*', LIB), ('flipbuf', 'pythonbmp/bufferflip.py')],
     ['whole buffer after each call'], 'Every rectangle in every corner order on every listed size and depth, every content of tiny images and every short sequence, compared with list-of-rows models.')

prop('C09', 'Copying, cropping, pasting, transposing and scaling place every pixel exactly',
     'Cropping or extracting a rectangle, pasting it back, exchanging the axes and enlarging n times yield well-formed images in which every pixel and palette entry comes from exactly the right source pixel, with the source unchanged. '
     'Shrinking n times gives the rounded mean of each block, and pixelizing shows that mean over the whole block.',
     ['inputs'], 'all rectangles, paste positions, factors and image sizes of every byte alignment at all four depths',
     'Tests crop one photograph once and enlarge by one factor at 24 bits; packed depths, odd widths, remainders and clipping are not reached.',
     [LIB, 'pythonbmp/bufresize.py', 'pythonbmp/buffersplit.py'], [('copyrect, pasterect, crop, convertselection2BMP, flipXY', LIB), ('resizeNtimesbigger, resizeNtimessmaller, pixelizenxn', LIB), ('packbitlisttobuf, resizebufNtimesbigger', 'pythonbmp/bufresize.py')],
     ['decoded result image', 'source buffer'], 'Every rectangle, position and factor within the bounds on every depth, decoded by a strict independent decoder and compared with an index model.')

prop('C10', 'Circular region operations act on exactly the pixels of the disc',
     'Inverting, outlining, flipping, mirroring, transposing, erasing lines in, magnifying, pixelizing, copying and pasting a circular region changes exactly the pixels of that disc, to exactly the values the operation names, at every depth it supports. '
     'Operations that clip treat a disc cut by the border as the visible part of the same disc; operations that do not accept such a disc, or the depth, leave the image unchanged.',
     ['inputs', 'histories'], 'all centres and radii inside, across and outside the border, all paste targets, short sequences, at all four depths',
     'Tests apply each operation to one disc wholly inside one 24-bit photograph; clipping, other depths, zero radius and paste into other images are never run.',
     [LIB, 'pythonbmp/primitives2D.py', 'pythonbmp/paramchecks.py'], [('copycircregion2buf, pastecirularbuf', LIB), ('horitransformincircregion, verttransformincircregion, flipXYcircregion', LIB), ('invertbitsincircregion, outlinecircregion, magnifyNtimescircregion, pixelizenxncircregion', LIB), ('itercirclepartlineedge, itercirclepartvertlineedge, entirecircleisinboundary', 'pythonbmp/primitives2D.py')],
     ['whole buffer after each call'], 'Every centre/radius in the bounds against a disc model built from an independent midpoint circle. Known finding: pixelated content is shifted when the height is no multiple of the block.')

prop('C11', 'Colour adjustments change exactly their region, each pixel by the stated formula',
     'Monochrome, colour filter, brightness, luminosity threshold, gamma and brightness gradients give every pixel of the rectangle, circle or whole 24-bit image the value their formula prescribes, clamped to 0..255, and leave all other bytes unchanged. '
     'Regions outside the image, wrong parameter types and other depths are refused without any change.',
     ['inputs', 'histories'], 'all (brightest, channel) byte pairs in all channel positions over a parameter grid, all rectangles and discs of small images, pairs of adjustments',
     'Tests apply each adjustment once to one photograph with one parameter; extreme values, clamping, region edges and refusals are not covered.',
     [LIB, 'pythonbmp/colors.py', 'pythonbmp/paramchecks.py'], [('_usebyref24btfn2reg, _use24bitfn2reg, _use24btfn2circreg', LIB), ('apply*BGRbuf', 'pythonbmp/colors.py'), ('verticalbrightnessgradto24bitregion, horizontalbrightnessgradto24bitregion, *brightnessgrad2circregion', LIB)],
     ['whole buffer after each call'], 'Exhaustive over byte pairs and small regions against exact-rational acceptance sets. Known findings: filters skip the last pixel of a row, horizontal gradients skip the top row (pinned by reference images).')

prop('C13', 'Text draws exactly the font\'s bits in the stated style, size and layout',
     'Every character drawn shows exactly the set bits of its font glyph, upright, italic, mirrored, upside down or sideways, as pixels, squares or dots of the given scale and gap and in the given colour (or colour per row), at every depth; '
     'strings place characters at a fixed pitch with newlines and tabs, cut glyphs leave no trace beyond the border, and text-to-file functions give an image with the text complete on the requested background. The image as text shows every row.',
     ['inputs'], 'all glyphs of all fonts, all pattern bytes, scales, gaps, positions, colour lists and all short strings over letters, space, newline and tab, in every style and depth',
     'Tests render one long string per style at one scale in one depth and compare pictures; single columns, gaps, clipping, colour lists and line breaks are not isolated.',
     [LIB, 'pythonbmp/fonts.py', 'pythonbmp/textgraphics.py'], [('plot*8bitpattern*withfn', LIB), ('plotstringfunc, plotstringsidewayfn, plotstringverticalwithfn and their 2file forms', LIB), ('getcharfont', 'pythonbmp/fonts.py')],
     ['whole buffer or written file after each call'],
     'Every glyph, byte, scale, gap, position and short string against a cell model. Known findings: mirrored text loses bit 0 of each row (pinned), 4-bit squares inherit the horizontal-line defect (pinned).')

prop('C12', 'Colour arithmetic, palette recipes, matching and named colours are exact',
     'Packing and unpacking colours are inverse for every colour; mixing, filters, brightness, thresholds, gamma and hue/saturation/lightness conversion follow their formulas over the whole byte range; palette recipes give every entry its stated shade; '
     'the nearest-colour search returns an entry no other entry beats; dithering only chooses between the two stated levels with the stated odds; and every named colour has its published value.',
     ['inputs'], 'all byte values of the luminosity/channel pairs, factor grids, all entries of all palettes, every outcome of the dithering random draw, every table entry',
     'Tests check a few sample colours; ties, black, short palettes, extreme luminosities and the 1,600 table entries are not covered.',
     ['pythonbmp/colors.py', 'pythonbmp/colordict.py', 'pythonbmp/X11colordict.py', 'pythonbmp/XKCDcolordict.py', 'pythonbmp/buffersplit.py'],
     [('RGB2int, int2RGB, colormix, brightnessadjust, thresholdadjust, gammacorrect, RGB2HSL', 'pythonbmp/colors.py'), ('monochromepal, dichromaticpal, monochromepalfilter', 'pythonbmp/colors.py'), ('matchRGBtopal', 'pythonbmp/colors.py'), ('color name tables', 'pythonbmp/X11colordict.py')],
     ['function results'], 'Exhaustive over byte pairs, grids and tables against exact rationals and an independent list of published colour values. Known finding: X11 aquamarine is stored as cyan (pinned by a test).')

prop('C14', 'File-to-file functions write exactly the in-memory result and nothing else',
     'Every function that reads a bitmap file and writes another produces exactly the file that loading, applying the operation of the same name and saving would give, whatever the destination held before and even when source and destination are the same file; '
     'the source is never touched otherwise. When the source is missing or is no bitmap, or the operation refuses its depth or region, no new image is written and no other file changes.',
     ['inputs', 'histories', 'faults'], 'all file functions at all depths, destination states (absent, longer file, same file), missing and foreign sources, all ordered pairs of operations chained through files, all boundaries of small images',
     'Tests run each function once on one 24-bit photograph into a fresh file; in-place use, refused input, missing files, other depths and chains are not run.',
     [LIB, 'pythonbmp/fileutils.py'], [('_usebyreffnsv ... _useclradjfn helper family and the *2file functions', LIB), ('cropBMPandsaveusingrectbnd, autocropimg2file', LIB), ('checklink', 'pythonbmp/fileutils.py')],
     ['files in a scratch directory'], 'Exhaustive over the listed functions, parameters, destination states and two-step chains; the in-memory operations themselves are judged by C08-C11.')

prop('C16', 'Changing colour depth keeps every pixel at its exact or nearest colour',
     'Upgrading a 1-, 4- or 8-bit image to 24 bits shows every pixel in exactly its palette colour; the colour histogram counts every pixel once, most frequent first; a palette made from it holds the most frequent colours that differ enough; '
     'and reducing a 24-bit file to 4 or 8 bits shows every pixel in the entry of the stored palette nearest to its colour. Reducing to 1 bit keeps black pixels black. Sources are unchanged.',
     ['inputs'], 'all widths of every byte alignment, all contents of tiny images, short histograms, threshold ladders, images with fewer and with more colours than the palette holds',
     'Tests convert one photograph per function; images with few colours, odd widths, ties and thresholds are not covered.',
     [LIB, 'pythonbmp/colors.py', 'pythonbmp/dicttools.py'], [('upgradeto24bitimage, convertbufto24bit', LIB), ('colorhistogram, makenewpalfromcolorhist, setnewpalfromsourcebmp', LIB), ('reduce24bitimagebits', LIB), ('matchRGBtopal', 'pythonbmp/colors.py')],
     ['result image or file'], 'Exhaustive within bounds against per-pixel models. The random dithering of 1-bit reduction is judged only for black pixels, palette and shape.')

prop('C17', 'Scanning an image visits every pixel, neighbour, edge and region point once',
     'The pixel iterators give every pixel of the image exactly once with its right position and colour; the neighbour list of a pixel is exactly the up to eight pixels around it inside the image; edge search returns only pixels that differ from a neighbour by more than the threshold '
     'and finds every such border; region search returns exactly the pixels within the threshold of the colour; swapping two pixels exchanges just them. Messages given to the iterators appear at the start and the end, and the row sign once per row.',
     ['inputs'], 'all widths of every byte alignment, all grids and positions up to the bound, all contents of tiny images, threshold ladders, all depths',
     'Tests run edge and region search on one photograph and compare the picture; first row and column, packed rows and tiny images are not isolated.',
     [LIB, 'pythonbmp/primitives2D.py'], [('iterimageRGB, iterimagecolor', LIB), ('itergetneighbors', 'pythonbmp/primitives2D.py'), ('iterimagedgevert, iterimageregionvertbyRGB, plotimgedges, imgregionbyRGB2file', LIB), ('swapcolors', LIB)],
     ['yielded sequences, result images'], 'Exhaustive within bounds against set definitions; the order of results is not judged.')

prop('C28', 'Comparing two image files is exact for every pixel',
     'The difference of two files of equal size and depth has at every pixel the exclusive-or of the two pixel values, and the similar parts their bitwise-and, with the palette of the first file; applying the difference to one file gives back the other. '
     'Files of different size or depth, or missing files, write nothing and say so, a difference of palettes is pointed out, and sources are never changed unless named as the destination.',
     ['inputs', 'faults'], 'all pairs of contents of tiny images, all widths, all pairs of sizes and depths, all destination and missing-file combinations',
     'Tests compare one pair of 24-bit photographs; packed depths, mismatched sizes, in-place output and missing files are not run.',
     [LIB, 'pythonbmp/mathlib.py', 'pythonbmp/fileutils.py'], [('imagecomp, imagediff, showsimilarparts', LIB), ('xorvect, andvect', 'pythonbmp/mathlib.py'), ('checklinks', 'pythonbmp/fileutils.py')],
     ['files in a scratch directory'], 'Exhaustive within bounds against a per-pixel model.')

prop('C05', 'Drawing stays inside the image and shows the same shape at every depth',
     'Whatever a drawing operation is given, however far outside the image, it neither raises nor changes the length, header, palette or row padding of the image nor its own arguments, and paints only pixels of its shape, in the colour asked for (a colour number past the palette counts on from 0): '
     'the same pixels at every colour depth it supports and none at a depth it refuses; shapes that are clipped show exactly the visible part of the shape drawn on a larger image, and operations that refuse a shape that does not fit draw nothing of it.',
     ['inputs', 'configurations'], 'all drawing operations, all depths, positions in a field three times the image and far away in every direction, several sizes, tiny images, clean and dirty row padding',
     'Tests draw each shape once, fully visible, mostly at one depth; a shape that leaves the image on one side at one depth, and what happens to the bytes around it, is never run.',
     [LIB, 'pythonbmp/primitives2D.py', 'pythonbmp/paramchecks.py', 'pythonbmp/solids3D.py'],
     [('plotxybit, horiline, vertline, circle, filledellipse direct buffer writes', LIB), ('entirerectinboundary and depth guards', 'pythonbmp/paramchecks.py'), ('all shape operations (mc/optable.py lists them)', LIB)],
     ['bytes of the buffer'], 'Every operation in the table is run at every listed position, size and depth on the real code; the painted sets are compared across depths and with a larger canvas. Exact shapes are judged by C06, C07, C13, C21-C24.')

prop('C24', 'Gradient shapes show every step in the right place and colour',
     'A gradient shape is its plain shape repeated from the outside in, step i of n in the colour at i/n of the luminosity or colour range under the given interpolation function; a gradient rectangle shows in each column or row the colour at its share of the width or height, '
     'on paletted images always the nearest palette colour. Nothing outside the outermost step changes, and depths or positions the operation refuses leave the image untouched.',
     ['inputs'], 'all gradient functions, radii, pen sizes, ranges, colour factors and interpolation functions of the stated grid at every depth and across the borders; every rectangle of a small image in both directions',
     'Tests draw one gradient of each kind in full view with the default interpolation; other depths, ranges running backwards, border positions and own interpolation functions are not run.',
     [LIB, 'pythonbmp/colors.py', 'pythonbmp/mathlib.py'],
     [('gradcircle, gradthick*, gradellipse, gradvert, orb, sphere, thickencirclearea, filledgradrect, filleddichromaticgradrect, fillbackgroundwith*', LIB), ('colormix, interpolateRGB, matchRGBtopal', 'pythonbmp/colors.py'), ('lerp', 'pythonbmp/mathlib.py')],
     ['pixels of the image'], 'Steps are painted in step numbers with the plain shapes (judged by C06 and C07) and every pixel colour is compared with the exact rational colour of its step; either side of a rounding boundary is accepted.')

prop('C21', 'Charts show the data: slices, arcs, axes, numbers, points and trend line',
     'A pie chart shows every slice in its colour over exactly its share of the circle, clockwise from the top, whatever its radius and shares, and returns the matching table; an arc paints the circle between its two angles with both straight edges, filled arcs the whole sector and nothing else; '
     'axes carry a tick and number at every step with the right value; user coordinates map linearly to the screen; a scatter plot draws every point inside the axes at its mapped place, none outside, and the least-squares line clipped to the axes.',
     ['inputs'], 'all small slice lists, radii, angle pairs, axis layouts, number flags, coordinate grids and data lists of the stated bounds',
     'Tests draw one large pie and one scatter plot; small radii, equal halves, empty slices, wide arcs, data beyond the axes and falling trend lines are not run.',
     [LIB, 'pythonbmp/charts.py', 'pythonbmp/primitives2D.py', 'pythonbmp/mathlib.py'],
     [('piechart, drawarc, XYaxis, numbervert, userdef2Dcooordsys2screenxy, XYscatterplot', LIB), ('genpiechartdata', 'pythonbmp/charts.py'), ('arcvert, horizontalvert, verticalvert', 'pythonbmp/primitives2D.py'), ('LSMslope, LSMYint', 'pythonbmp/mathlib.py')],
     ['pixels of the image', 'returned tables'], 'Pixels nearer than 1.6 to a slice edge or 1 to the rim are not judged. Axes and scatter plots are recomposed from plain shapes judged by C06, C07 and C13, with exact rational mapping.')

prop('C25', 'Results depend only on the arguments: nothing is remembered, shared or altered',
     'What an operation of the library draws, returns or raises depends only on its arguments and the image it is given, not on which operations ran before in the process, on which images, depths or sizes, or how often it ran. '
     'No operation changes its arguments (other than the image or buffer it works on), values returned earlier, another image, or the public tables (fonts, palettes, colour names); overwriting a returned value never affects later calls.',
     ['inputs', 'histories'], 'all ordered pairs of 581 operation instances of all modules, all pairs of 20 configurations of the same operation, and reruns after overwriting every returned value',
     'Tests run every operation once in a new image; whether a cached circle, palette, font or argument list leaks into a later call with another depth, size or image is never looked at.',
     [LIB, 'pythonbmp/colors.py', 'pythonbmp/primitives2D.py', 'pythonbmp/fractals.py', 'pythonbmp/solids3D.py', 'pythonbmp/mathlib.py', 'pythonbmp/bmppal.py'],
     [('newBMP, all drawing and image operations', LIB), ('getdefaultbitpal', 'pythonbmp/colors.py'), ('getIFSparams, fractaldomainparamdict', 'pythonbmp/fractals.py'), ('getshapesidedict', 'pythonbmp/solids3D.py')],
     ['returned values', 'image bytes', 'arguments', 'public tables', 'printed text'], 'Every outcome is compared with the outcome of the same call in a freshly forked process in which nothing ran before. Buffer helpers that work in place (RGB2BGRbuf, colour filter buffers, fft, flipbuf) may change their buffer argument.')

prop('C19', 'The mathematics functions return what their names define',
     'Vector algebra, statistics and regression, limits, interpolation, coordinate conversions, rotations, bit mirroring, Newton iteration, Fourier transforms and two-dimensional histograms return, '
     'within float rounding, the value of their textbook definition for every argument list on which it is defined, and leave their arguments unchanged (the in-place transforms apart): '
     'converted coordinates describe the same point, a histogram counts every point once, an interpolation passes through its ends.',
     ['inputs'], 'every function of the module over grids of vectors in 2, 3 and 4 dimensions, data lists, bytes, angles all round the circle, value and limit triples, transform vectors and histograms',
     'Tests call a quarter of these functions, on one or two argument lists; quadrants, zero components, flat data, other dimensions and limits in the wrong order are not run.',
     ['pythonbmp/mathlib.py'], [('vector, statistics, interpolation, coordinate functions', 'pythonbmp/mathlib.py'), ('fft, ifft, newtonmethod, histogram2D, histogram2Dcomplex', 'pythonbmp/mathlib.py')],
     ['returned values', 'arguments'], 'Every argument list of the grids is run on the real code and compared with an independent definition, statistics in exact rational arithmetic. Conventions pinned by the code base (angle zero points up in polar pairs, unscaled inverse transform, bins over the data range) are taken as given.')

prop('C22', 'Curves and polygons follow their equations from end to end',
     'Every curve generator yields, for any centre, size, shape parameters, step and limit, vertices within a pixel of its equation in the order of the parameter; regular polygons have exactly the asked number of evenly spaced corners; Bezier and B-spline curves run without gaps along '
     'the curve of all their control points, from the first to the last when open; Hilbert curves visit every cell once, each next to the last; Koch curves are the exact replacement. Drawn curves are the pen at every vertex, and saved curve pictures hold exactly the joined vertices over the background, inside the image.',
     ['inputs'], 'all curve generators over grids of centres, sizes, shape parameters, steps and limits; all control point lists of 2 to 5 points of small grids; polygons of 3 to 40 sides; Hilbert and Koch orders up to 5; four depths, several pens',
     'Tests save two Hilbert and two Koch pictures and draw none of the other curves; end points, closing segments, side counts that do not divide 360 and images that are not square are never looked at.',
     ['pythonbmp/primitives2D.py', 'pythonbmp/fractals.py', LIB],
     [('iterspirograph .. itereggcurve, iterbeziercurve, iterbspline, floatregpolygonvert, spiralcontrolpointsvert', 'pythonbmp/primitives2D.py'), ('hilbertvert, kochcurvevert, kochsnowflakevert', 'pythonbmp/fractals.py'),
      ('beziercurve, bspline, squircle, plotflower, plotfilledflower, savehilbertcurve2file, savekochsnowflake2file', LIB)],
     ['yielded vertices', 'pixels of the image', 'saved files'], 'Exact equations in floating point, one pixel allowed for rounding or truncation; lines and pens between vertices are judged by C06.')

prop('C30', 'Byte, buffer, rectangle and string helpers are exact for every value',
     'Numbers written to bytes read back the same at every width and offset and touch no other byte; splitting, flipping and enlarging packed rows keep every pixel in its place at every depth; row part sizes count exactly the bytes that hold the part; inside tests, neighbours, corner lists and sorted corners are right for every point; '
     'string, selection and dictionary helpers, the function description and elapsed times are right; a timed function runs once with its arguments and its value or error comes back.',
     ['inputs'], 'all buffers up to 3 bytes of a byte grid, every byte, all carry values of 1 to 8 byte numbers, all rectangles and points of a small field, all column pairs of a 41 column row, elapsed times under a controlled clock',
     'Tests never call these helpers directly; they see only the values that occur in the pictures they compare.',
     ['pythonbmp/inttools.py', 'pythonbmp/buffersplit.py', 'pythonbmp/bufferflip.py', 'pythonbmp/bufresize.py', 'pythonbmp/primitives2D.py', 'pythonbmp/chartools.py', 'pythonbmp/conditionaltools.py', 'pythonbmp/dicttools.py', 'pythonbmp/funcmeta.py', 'pythonbmp/proctimer.py'],
     [('writeint, readint, int2buf, buf2int', 'pythonbmp/inttools.py'), ('altsplitbuf*', 'pythonbmp/buffersplit.py'), ('flipbuf', 'pythonbmp/bufferflip.py'), ('resize*, pack*, unpack*, adjustxbufsize', 'pythonbmp/bufresize.py'), ('sortrecpoints, listinrecbnd, itergetneighbors, entirecircleisinboundary', 'pythonbmp/primitives2D.py')],
     ['returned values', 'bytes of the buffer'], 'Exhaustive over small buffers against definitions written with plain Python numbers and strings. Splitting drops an incomplete last group, as the library does.')

prop('C18', 'Solids are closed and true, show only the faces turned to the viewer, shaded',
     'Every built-in solid, sphere, cylinder and cone of any size, centre and angle step is a closed surface of flat faces all turned outward, with its corners on the shape it is named for and sides of the given length; surface plots have one corner per grid point and one square per cell; rotation and projection place every point exactly. '
     'A drawn convex solid shows at every depth exactly the faces turned to the viewer, in the shade of their turn, outlines on top when asked for, and nothing outside its silhouette.',
     ['inputs'], 'all solids, sizes, centres and dividing angle steps of the stated lists; all rotations in 30 degree steps; several viewpoints, factors and all depths; grids and steps that do not divide them',
     'No test draws or builds a solid.',
     ['pythonbmp/solids3D.py', LIB], [('tetrahedravert .. icosahedvertandsurface, getshapesidedict, spherevertandsurface, cylindervertandsurface, conevertandsurface, surfplot3Dvertandsurface', 'pythonbmp/solids3D.py'),
      ('perspective, gensides, surfacetest', 'pythonbmp/solids3D.py'), ('plot3Dsolid, plot3d, plotpolyfillist', LIB)],
     ['returned vertices, faces and normals', 'pixels of the image'], 'Which faces are visible is decided from the geometry (viewer and centre on opposite sides of the face), not from the order of its corners. Pixels within two of an edge are not judged; outlines are composed of lines judged by C06.')

prop('C20', 'Fractal pictures give every pixel the colour its orbit defines',
     'For every escape time, Newton, modular and biomorph fractal, every pixel of the rectangle gets exactly the colour of the count (or value) its definition gives at the point of the plane the pixel stands for, at every depth, with three colour factors or two colours, whatever the order of the corners, iteration limit or domain; '
     'pixels outside the rectangle and the image are untouched, and saved files hold that picture under the palette of the given colours. Newton pictures report the roots they coloured. Iterated function systems plot exactly the points their random choices lead to, relative to their rectangle; the tables of parameters hold the published systems and named rectangles of the plane.',
     ['inputs', 'schedules'], 'all 33 fractals, parameter tuples, domains, rectangles (inside, across, outside, swapped) and depths of the stated lists; all sequences of random map choices to the stated depth',
     'Tests compare one 256 by 256 picture per fractal, mostly at one depth, over the whole image, and none for the random systems.',
     ['pythonbmp/fractals.py', LIB, 'pythonbmp/mathlib.py'], [('point functions, mapfractaldomain, iter*, iterIFS, parameter tables', 'pythonbmp/fractals.py'), ('plotmultifractal, plotmultifractalcomplexpar, newtonsfractal, IFS, fern, save*fractal2file, newBMPwithPAL', LIB), ('newtonmethod', 'pythonbmp/mathlib.py')],
     ['yielded points', 'pixels of the image', 'saved files', 'returned roots'], 'The random source is replaced by a script, so every choice sequence is enumerated. A pixel whose count changes when its point or the escape limit moves by 1e-10 may have any of those counts.')

prop('C23', 'Attractor orbits follow their maps and pictures are exact histograms of them',
     'Every attractor list has the requested number of points, each following from the one before by the published map from the stated start; icons have the symmetry of their degree. The picture of an attractor is the histogram of its points over equal bins stretched over the whole depth, also when the orbit settles on a point; the saved file is that picture.',
     ['inputs'], 'all attractors, parameter tuples, orbit lengths, sizes and depths of the stated lists',
     'Tests compare one 24-bit 256 by 256 picture per attractor.',
     ['pythonbmp/fractals.py', 'pythonbmp/mathlib.py', LIB], [('*attractorlist', 'pythonbmp/fractals.py'), ('histogram2D, histogram2Dcomplex, getdomainbounds, ravel2D', 'pythonbmp/mathlib.py'), ('plotattractor, plotattractorcomplex, *attractor, save*attractor2file', LIB)],
     ['returned points', 'pixels of the image', 'saved files'], 'Orbits are judged one step at a time from the points returned, so chaos does not amplify rounding. Images need at least 2 columns and rows.')

prop('C26', 'A saved colour cycle is exactly its frames, and only where allowed',
     'colorcycle2dir writes one file per palette position of a 4- or 8-bit image: the same pixels with the palette turned by that position, named by it, in the folder named. It replaces an existing folder only when told to overwrite; otherwise it refuses. Nothing else on disk changes, however the folder or the input is named; other depths and missing inputs are refused in words and make nothing.',
     ['inputs', 'histories'], 'folder states by overwrite flag by naming by depth and size; histories of runs',
     'No test saves a colour cycle.',
     [LIB, 'pythonbmp/fileutils.py'], [('colorcycle2dir, itercolorcycle, palshift', LIB)],
     ['files below a scratch folder before and after', 'what is raised or printed'], 'Files of an overwritten folder which are not frames are left alone.')

prop('C29', 'The paint launcher opens the right file, and saving keeps the search path',
     'mspaint.py opens the file named on its command line, the newest matching a pattern, or the newest bitmap below the folder when none is named, with the program of the platform it runs on, once; when there is none it opens nothing. On Android card files are named by their public path. Saving or preparing the path adds the launcher folder to PATH at most once and keeps every other entry in order.',
     ['inputs', 'histories'], 'platforms, arguments, file ages, and histories of search path edits',
     'No test runs the launcher.',
     ['mspaint.py', LIB], [('main program', 'mspaint.py'), ('ensurePaintWrapperInPath, saveBMP', LIB)],
     ['commands started (recorded by stand-ins)', 'PATH'], 'Programs are never started: subprocess and chmod are stand-ins.')

prop('C15', 'Guarded operations run exactly where their guard allows, and say why not',
     'An operation restricted to integer coordinates, to some depths or to places wholly inside the image runs whenever all of that holds; whenever any of it fails (any coordinate of another type, also one which equals an integer; any corner or any side of the disc outside; another depth) it says which, returns nothing and leaves every byte of the image as it was, without raising.',
     ['inputs'], 'all 60 guarded operations by depth by place by type of each coordinate',
     'Tests try a few guards with a single bad argument.',
     ['pythonbmp/paramchecks.py', 'pythonbmp/primitives2D.py', LIB], [('guard decorators', 'pythonbmp/paramchecks.py'), ('entirecircleisinboundary', 'pythonbmp/primitives2D.py'), ('guarded operations', LIB)],
     ['image bytes', 'return value', 'printed reason'], 'When several reasons apply any of them may be given. What an operation does when it runs is judged by C05, C07 to C11 and C24. Coordinates are passed by position.')

prop('C27', 'Arguments mean the same by name, by position and left out',
     'Every public operation does the same whether its parameters are given by position, by name from any of them on, or all by name in any order; every optional parameter left out does what giving its published value does, alone or with others: same returned value, same image bytes, same file.',
     ['inputs'], 'about 430 operations and 78 file functions by split of their parameters; 110 functions by subset of optional parameters',
     'Tests call by position and leave out few parameters.',
     ['pythonbmp/paramchecks.py', 'pythonbmp/fileutils.py', 'pythonbmp/fractals.py', 'pythonbmp/colors.py', LIB], [('guard decorators', 'pythonbmp/paramchecks.py'), ('checklink, checklinks', 'pythonbmp/fileutils.py'), ('functions with optional parameters', LIB)],
     ['returned value', 'image bytes', 'file written'], 'The published values of optional parameters are listed in the check; the names of required parameters are read from the functions.')

NA = []


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, _, _ in P:
            assert len(d['title']) <= 80, (d['id'], len(d['title']))
            f.write(json.dumps(d) + '\n')
    m = dict(version=1, setup_cmd='python3 -B -c "import sys; sys.path.insert(0, \'/verif\'); from mc import core; core.bind()"',
             checks=[dict(property=d['id'], quick_cmd='python3 run.py %s --tier quick' % d['id'], thorough_cmd='python3 run.py %s --tier thorough' % d['id'],
                          technique=t, level='model_checking', level_note=n) for d, n, t in P],
             not_applicable=[dict(property=a, reason=b) for a, b in NA],
             notes='Checks drive the real library imported from /repo; no hooks in /repo are needed. python3 run.py --replay FILE repeats a violation.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
