"""Operations depend on nothing but their arguments: no history changes a result, no argument is changed, nothing is shared."""
import copy, pickle, random
from mc.core import *
from mc import alltable

BOUNDS = {
    'quick': 'about 430 operations of all modules; every ordered pair A;B of different operations (depths rotating with the operation), A on a 13x11 '
             'image and B on a 9x14 one, every pair of 20 configurations (depths x sizes, two contents and palettes) for A = B, A on a 41x37 image followed by A on the 13x11 one, and every triple A;A;A with the values returned '
             'by the first run overwritten in between: the outcome of B is compared with its outcome in a fresh process',
    'thorough': 'as quick with every pair at every depth and every ordered triple over a subset of 60 operations'}
SIZES = ((13, 11), (9, 14), (13, 14), (9, 11), (41, 37))     # the last only as an earlier call
CFG = [(b, s, 1) for b in (24, 8, 4, 1) for s in (0, 1, 2, 3)] + [(b, 0, 2) for b in (24, 8, 4, 1)]
_base = {}
SEEN = set()
SLOW = ('fern', 'plotflower', 'plotfilledflower', 'thickencirclearea', 'squircle', 'getX11', 'getXKCD', 'iterflower')
INPLACE = ('RGB2BGRbuf', 'colorfiltertoBGRbuf', 'gammaBGRbuf', 'monochromefiltertoBGRbuf', 'fft', 'ifft', 'flipbuf')   # their buffer argument is their work space
_T = []


def ops():
    if not _T:
        B = bind()
        _T.extend(alltable.table(B))
    return _T


def norm(v, d=0):
    """Comparable picture of any returned value."""
    if isinstance(v, array):
        return ('array', v.typecode, v.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(norm(i, d + 1) for i in v)
    if isinstance(v, dict):
        return ('dict',) + tuple((norm(k), norm(x)) for k, x in v.items())
    if callable(v):
        return 'function'
    return repr(v)


def image(w, h, b, k):
    if (w, h) == SIZES[4] and b == 24:      # every pixel another colour
        return mkimg(w, h, b, [[(y * w + x) * 11057 & 0xffffff for x in range(w)] for y in range(h)])
    # content 2 comes with a palette of its own
    return mkimg(w, h, b, k=k) if k == 1 or b == 24 else mkimg(w, h, b, k=k, pal=[((255 - 7 * i) & 255, 11 * i & 255, 5 * i & 255, 0) for i in range(1 << b)])


def execute(i, cfg):
    """Run operation i in configuration cfg; returns (outcome, value, args, args before)."""
    name, depths, run = ops()[i]
    b, s, k = cfg
    w, h = SIZES[s]
    buf = mkbuf(image(w, h, b, k))
    random.seed(11)
    import io, contextlib
    out = io.StringIO()
    alltable.LAST[:] = []
    try:
        with contextlib.redirect_stdout(out):
            v = run(buf, w, h, b)
        res = norm(v)
    except Exception as e:
        v = None
        res = 'raised %s: %s' % (type(e).__name__, e)
    args = alltable.LAST[0] if alltable.LAST else ()
    return (hash((res, bytes(buf), out.getvalue())), res, bytes(buf)), v, args, buf


def isolated(fn):
    """Run fn() in a forked child; return what it returns (pickled), or ('died', code)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = pickle.dumps(fn())
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException as e:
            try:
                os.write(w, pickle.dumps([('child', 'raised', {'error': '%s: %s' % (type(e).__name__, e)})]))
            except BaseException:
                pass
        os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else [('child', 'died', {})]


def supported(i, b):
    return b in ops()[i][1]


def slow(i):
    return ops()[i][0].startswith(SLOW)


def cfgs(i):
    cs = [c for c in CFG if supported(i, c[0])]
    return cs[::4] if slow(i) else cs


def pairs_cfgs(i, tier):
    """Configurations in which operation i appears in pairs with other operations."""
    ds = [b for b in (24, 8, 4, 1) if supported(i, b)]
    return ds if tier == 'thorough' else ds[i % len(ds):][:1]


def baseline(i, cfg):
    """Outcome of operation i alone in a process in which no operation ran before."""
    key = (i, cfg)
    if key not in _base:
        r = isolated(lambda: execute(i, cfg)[0])
        _base[key] = r if isinstance(r, tuple) else (None, r, b'')
    return _base[key]


def batch(jobs):
    """Baselines of several (op, cfg): one fresh child each, four at a time through this process."""
    for j in jobs:
        baseline(*j)


def units(tier):
    bind()
    n = len(ops())
    step = 8
    # baselines: computed by a pool of clean children, before any worker has run anything
    jobs = [(i, c) for i in range(n) for c in cfgs(i)]
    parts = [jobs[k::8] for k in range(8)]
    pipes = []
    for p in parts:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out = {}
            for j in p:
                out[j] = baseline(*j)
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
            os._exit(0)
        os.close(w)
        pipes.append((r, pid))
    for r, pid in pipes:
        with os.fdopen(r, 'rb') as f:
            _base.update(pickle.load(f))
        os.waitpid(pid, 0)
    return [('pairs', i) for i in range(n)] + ([('triples', i) for i in range(0, n, max(1, n // 60))] if tier == 'thorough' else [])


def compare(i, cfg, got, out, sig):
    want = baseline(i, cfg)
    SEEN.add((i, got[0]))
    if got[0] != want[0] or got[1:] != want[1:]:
        out.append((ops()[i][0], sig, dict(config=cfg, got=show_res(got), expected=show_res(want))))
        return False
    return True


def show_res(r):
    return '%s; buffer %s' % (str(r[1])[:200], hash(r[2]))


def trash(v):
    """Overwrite everything mutable in a returned value, as a caller may."""
    if isinstance(v, array):
        for i in range(len(v)):
            v[i] = 0 if v[i] else 1
    elif isinstance(v, list):
        for i in v:
            trash(i)
        v.append('trash')
        v.reverse()
    elif isinstance(v, dict):
        for i in list(v.values()):
            trash(i)
        v.clear()
    elif isinstance(v, tuple):
        for i in v:
            trash(i)


def public_tables():
    """The library's public data a user may read: fonts, colour tables, palettes, parameter dictionaries."""
    from pythonbmp import fonts, bmppal, X11colordict, XKCDcolordict, colordict, bmpconstants, messages
    out = []
    for m in (fonts, bmppal, X11colordict, XKCDcolordict, colordict, bmpconstants, messages):
        for n in sorted(vars(m)):
            v = getattr(m, n)
            if not n.startswith('_') and isinstance(v, (list, tuple, dict, array)):
                out.append((m.__name__ + '.' + n, hash(norm(v))))
    return out


def explore(i, tier):
    fails = []
    n = 0
    T = ops()
    name = T[i][0]
    tabs = public_tables()
    cs = cfgs(i)
    # A = B in every pair of configurations, then with the returned values overwritten, and arguments compared
    for c1 in cs:
        for c2 in cs:
            execute(i, c1)
            got = execute(i, c2)[0]
            n += 2
            if not compare(i, c2, got, fails, 'after itself in configuration %r' % (c1,)):
                return fails, n, len(SEEN)
    # after a larger image with more colours
    for c in cs:
        if c[1] == 0 and not slow(i):
            execute(i, (c[0], 4, 1))
            got = execute(i, c)[0]
            n += 2
            if not compare(i, c, got, fails, 'after itself on a larger image'):
                return fails, n, len(SEEN)
    for c in cs:
        first, v, args, buf = execute(i, c)
        before = clean_args(i, c)
        if norm(args) != before and name.split('@')[0] not in INPLACE:
            fails.append((name, 'arguments changed', dict(config=c, got=str(norm(args))[:300], expected=str(before)[:300])))
        kept = norm(v)
        r2, v2, _, _ = execute(i, c)
        n += 2
        if norm(v) != kept and v is not buf:
            fails.append((name, 'an earlier returned value changes when called again', dict(config=c)))
        if v is not None:
            trash(v)
            trash(v2)
            got = execute(i, c)[0]
            n += 1
            if not compare(i, c, got, fails, 'after its returned values were overwritten'):
                return fails, n, len(SEEN)
    # A;B for every other B
    for b in pairs_cfgs(i, tier):
        ca = (b, 0, 1)
        for j in range(len(T)):
            if j == i:
                continue
            for b2 in pairs_cfgs(j, tier):
                cb = (b2, 1, 1)
                if slow(j) and (i + j) % 12:
                    continue
                if not slow(i) or j % 25 == 0:
                    execute(i, ca)
                got = execute(j, cb)[0]
                n += 2
                if not compare(j, cb, got, fails, 'after %s' % name):
                    if len(fails) > 3:
                        return fails, n, len(SEEN)
    now = public_tables()
    if now != tabs:
        fails.append((name, 'public data changed', dict(tables=[a[0] for a, b in zip(tabs, now) if a != b])))
    return fails, n, len(SEEN)


def clean_args(i, cfg):
    """Arguments as generated, before the operation sees them."""
    name, depths, run = ops()[i]
    b, s, k = cfg
    w, h = SIZES[s]
    return norm(run.make(w, h, b, mkbuf(image(w, h, b, k))))


def triples(i, tier):
    fails, n = [], 0
    T = ops()
    st = max(1, len(T) // 60)
    for j in range(0, len(T), st):
        for k in range(0, len(T), st):
            for x, s in ((i, 0), (j, 1), (k, 0)):
                b = pairs_cfgs(x, tier)[0]
                got = execute(x, (b, s, 1))[0]
                n += 1
                if not compare(x, (b, s, 1), got, fails, 'after %s; %s' % (T[i][0], T[j][0])) and len(fails) > 3:
                    return fails, n, len(SEEN)
    return fails, n, len(SEEN)



def run_unit(unit, ctx, tier):
    kind, i = unit
    B = bind()
    ops()
    fn = explore if kind == 'pairs' else triples
    r = isolated(lambda: fn(i, tier))
    if isinstance(r, list):
        ctx.fail('%s|%s' % (ops()[i][0], r[0][1]), **r[0][2])
        return
    fails, n, states = r
    ctx.step(n)
    ctx.trace(n)
    ctx.nstates += states
    for name, what, det in fails:
        ctx.fail('%s|%s' % (name, what), **det)
    if i < 2:
        ctx.sample('%s: %d runs, each compared with its outcome in a fresh process' % (ops()[i][0], n))
