"""The paint launcher opens the right file with the right program on every platform; saving keeps the search path in order."""
import contextlib, io, itertools, json, os, shutil, subprocess, sys, tempfile
from mc.core import *
from mc import core

BOUNDS = {
    'quick': 'every platform (windows, mac, linux with the Android toolbox absent, failing or naming another maker, Android) by every way to name the file (not at all, relative, whole path, in a subfolder, by pattern, by a missing name, through a link; 20 names which resemble each other) by every order of ages of 3 files; '
             'all histories of 3 search path edits and savings; Android paths under every card prefix',
    'thorough': 'as quick with histories of 4'}
SCRIPT = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'mspaint.py')


def units(tier):
    return [('launch', p) for p in range(6)] + [('card',), ('path',)]


PLAT = [('win32', None), ('darwin', None), ('linux', None), ('linux', 'fails'), ('linux', 'Google\n'), ('linux', 'Android\n')]


def run_unit(unit, ctx, tier):
    bind()
    globals()[unit[0] + '_'](ctx, tier, *unit[1:])


def run(cases):
    p = subprocess.run([sys.executable, '-B', os.path.join(os.path.dirname(core.__file__), 'launch.py')], input=json.dumps(cases), capture_output=True, text=True, env={'PATH': '/nonexistent', 'HOME': '/nonexistent'})
    if p.returncode:
        raise RuntimeError(p.stderr[-2000:])
    return json.loads(p.stdout)


def opened(plat, toolbox, f):
    """effects of opening f, or None if any set is right"""
    if plat == 'win32':
        return [['cmd.exe', '/C', 'start', '', 'mspaint.exe', f]]
    if plat == 'darwin':
        return [['open', f]]
    if (toolbox or '').strip() != 'Android':
        return [['xdg-open', f]]
    return 'android'


def check_open(ctx, sig, c, r, f, **d):
    ctx.trace()
    if r['error'] or r['exit']:
        ctx.fail(sig + '|failed', error=r['error'], exit=r['exit'], stderr=r['err'], **d)
        return
    log = [e for e in r['log'] if e[0] != 'toolbox']
    want = opened(c['platform'], c['toolbox'], f)
    if want == 'android':
        url = 'file://' + f
        ok = len(log) == 3 and log[0][:2] == ['chmod', f] and [e[:2] for e in log[1:]] == [['am', 'broadcast'], ['am', 'start']] and all(e[-2:] == ['-d', url] for e in log[1:]) \
            and 'android.intent.action.VIEW' in log[2] and 'android.intent.action.MEDIA_SCANNER_SCAN_FILE' in log[1]
        if not ok:
            ctx.fail(sig + '|android', log=log, expected=url, **d)
    elif log != want:
        ctx.fail(sig, log=log, expected=want, **d)


def launch_(ctx, tier, k):
    plat, tool = PLAT[k]
    top = os.path.realpath(tempfile.mkdtemp(prefix='c29'))
    try:
        cases, wants = [], []
        n = 0
        names = ['a.bmp', 'b.bmp', 'sub/c.bmp']
        for i, ages in enumerate(itertools.permutations(range(3))):
            # whole seconds apart, or within one second
            gap = (1, 0.25)[i % 2]
            for have in itertools.product((0, 1), repeat=3):
                d = os.path.join(top, str(n))
                n += 1
                os.makedirs(d + '/sub')
                mine = [m for m, h in zip(names, have) if h]
                for m, age in zip(names, ages):
                    if m in mine:
                        open(os.path.join(d, m), 'wb').close()
                        os.utime(os.path.join(d, m), (1e9 + age * gap, 1e9 + age * gap))
                open(d + '/z.txt', 'wb').close()
                os.utime(d + '/z.txt', (2e9, 2e9))
                os.symlink('a.bmp', d + '/link.bmp') if 'a.bmp' in mine else None

                def newest(s):
                    s = [m for m in s if m in mine]
                    return max(s, key=lambda m: ages[names.index(m)]) if s else None
                asks = [([], newest(names)), (['*.bmp'], newest(names)), (['c*.bmp'], newest(['sub/c.bmp'])), (['?.bmp'], newest(names)), (['none.bmp'], None), (['z.txt'], 'z.txt'), (['./sub/../z.txt'], 'z.txt')]
                asks += [([m], m) for m in mine] + [([os.path.join(d, m)], m) for m in mine] + [(['c.bmp'], newest(['sub/c.bmp'])), (['sub/*.bmp'], newest(['sub/c.bmp'])), (['s*/*.bmp'], newest(['sub/c.bmp'])), (['sub/a*.bmp'], None), (['nosub/*.bmp'], None)]
                asks += [(['a.bmp', 'b.bmp'], 'a.bmp')] if 'a.bmp' in mine else []
                asks += [(['link.bmp'], 'a.bmp')] if 'a.bmp' in mine else []
                for args, f in asks:
                    cases.append(dict(script=SCRIPT, args=args, cwd=d, platform=plat, toolbox=tool))
                    # a link shares the age of its file, so either name may be the newest
                    wants.append(None if f is None else os.path.join(d, f))
        # names which resemble each other: each opens itself
        d = os.path.join(top, 'odd')
        os.makedirs(d + '/My Pics')
        odd = ['a.bmp', 'a.bmp ', ' a.bmp', 'A.bmp', 'a.BMP', 'a', '[a].bmp', 'a b.bmp', 'a%20b.bmp', 'a#1.bmp', 'a?1.bmp', 'a;b.bmp', "a'b.bmp", '~.bmp', '$HOME.bmp', 'My Pics/a.bmp', 'My Pics/a b.bmp', '\u00e9.bmp', '..bmp', 'a.bmp.txt']
        for m in odd:
            open(os.path.join(d, m), 'wb').close()
        for m in odd:
            for a in (m, './' + m, os.path.join(d, m)):
                cases.append(dict(script=SCRIPT, args=[a], cwd=d, platform=plat, toolbox=tool))
                wants.append(os.path.join(d, m))
        for c, r, f in zip(cases, run(cases), wants):
            ctx.step()
            ctx.state((plat, tool, c['cwd'][len(top):], tuple(c['args'])))
            d = dict(arguments=c['args'], platform=plat, toolbox=tool, files=sorted(os.listdir(c['cwd'])))
            if f is None:
                ctx.trace()
                if r['log'] or r['exit'] in (0, None) and not r['error']:
                    ctx.fail('launch|nothing to open', log=r['log'], exit=r['exit'], **d)
                continue
            if os.path.basename(f) == 'a.bmp' and r['log'] and r['log'][-1][-1].endswith('link.bmp') and c['args'][:1] in ([], ['*.bmp']):
                f = os.path.join(os.path.dirname(f), 'link.bmp')
            check_open(ctx, 'launch', c, r, f, **d)
    finally:
        shutil.rmtree(top)


def card_(ctx, tier):
    """files on the card are named by the path every program can read"""
    top = os.path.realpath(tempfile.mkdtemp(prefix='c29'))
    try:
        T = [('/data/media/0/a.bmp', '/sdcard/a.bmp'), ('/storage/emulated/0/x/y/a.bmp', '/sdcard/x/y/a.bmp'), ('/mnt/shell/emulated/0/b.bmp', '/sdcard/b.bmp'), ('/mnt/shell/emulated/10/d/b.bmp', '/sdcard/d/b.bmp'),
             ('/data/mediax/0/a.bmp', '/data/mediax/0/a.bmp'), ('/storage/0/emulated/a.bmp', '/storage/0/emulated/a.bmp'), ('/other/storage/emulated/0/a.bmp', '/other/storage/emulated/0/a.bmp')]
        for plat, tool in PLAT:
            cases = [dict(script=SCRIPT, args=[a], cwd=top, platform=plat, toolbox=tool, pretend=[a, b]) for a, b in T]
            for (a, b), c, r in zip(T, cases, run(cases)):
                ctx.step()
                ctx.state((a, plat, tool))
                check_open(ctx, 'card', c, r, b if opened(plat, tool, a) == 'android' else a, file=a, platform=plat, toolbox=tool)
    finally:
        shutil.rmtree(top)


def path_(ctx, tier):
    """whatever the search path was, saving leaves its entries in order and adds the launcher's folder at most once, in front"""
    import pythonbmp.BITMAPlib as B
    home = os.path.dirname(os.path.dirname(os.path.abspath(B.__file__)))
    old = os.environ.get('PATH')
    top = tempfile.mkdtemp(prefix='c29')
    starts = ['/usr/bin', '/usr/bin:/bin', '/a b:/c:/a b', home, home + ':/x', '/x:' + home, '/x:' + home + ':/y', home + 'x:/x', '/x' + home]
    try:
        for p0 in starts:
            for seq in itertools.product(('save', 'ensure', 'append', 'prepend', 'double'), repeat=3 if tier == 'quick' else 4):
                os.environ['PATH'] = p0
                model = p0.split(':')
                for i, m in enumerate(seq):
                    ctx.step()
                    if m == 'append':
                        os.environ['PATH'] += ':/new%d' % i
                        model.append('/new%d' % i)
                    elif m == 'prepend':
                        os.environ['PATH'] = '/new%d:' % i + os.environ['PATH']
                        model.insert(0, '/new%d' % i)
                    elif m == 'double':
                        os.environ['PATH'] = ':'.join(model + model[:1])
                        model.append(model[0])
                    else:
                        if m == 'save':
                            B.saveBMP(os.path.join(top, 'a.bmp'), mkbuf(mkimg(1, 1, 1)))
                        else:
                            B.ensurePaintWrapperInPath()
                        if home not in model:
                            model.insert(0, home)
                    if os.environ['PATH'].split(':') != model:
                        ctx.fail('path', start=p0, history=seq[:i + 1], got=os.environ['PATH'], expected=':'.join(model))
                        break
                ctx.trace()
                ctx.state(os.environ['PATH'])
        os.environ.pop('PATH')
        ok, _ = call(ctx, 'path|unset', B.saveBMP, os.path.join(top, 'a.bmp'), mkbuf(mkimg(1, 1, 1)))
        if ok and home not in os.environ.get('PATH', '').split(':'):
            ctx.fail('path|unset', got=os.environ.get('PATH'))
    finally:
        if old is not None:
            os.environ['PATH'] = old
        shutil.rmtree(top)
