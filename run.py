#!/usr/bin/env python3
"""Run one property check:  run.py C03 [--tier quick|thorough] [--replay FILE] [--jobs N]
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken."""
import sys, os
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONHASHSEED', '0')
if os.environ.get('PYTHONHASHSEED') != '0' or not os.environ.get('VERIF_REEXEC'):
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['VERIF_REEXEC'] = '1'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
import argparse, importlib, json, re, time, traceback, signal, resource, hashlib
import multiprocessing as mp

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from mc import core

UNIT_LIMIT = 300          # seconds one unit may take before it counts as a hang
MEM_LIMIT = 3 << 30


def load_known(prop):
    with open(os.path.join(HERE, 'known_findings.json')) as f:
        d = json.load(f)
    out = []
    for k in d['findings']:
        if k['property'] == prop:
            k = dict(k)
            sigs = k['cases']
            k['rx'] = re.compile('|'.join('(?:%s)' % (s[3:] if s.startswith('re:') else re.escape(s)) for s in sigs), re.S)
            out.append(k)
    return out


def on_alarm(*_):
    raise core.Hang()


def worker_init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    sys.stdout = open(os.devnull, 'w')
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    signal.signal(signal.SIGALRM, on_alarm)


def do_unit(arg):
    modname, prop, unit, tier = arg
    mod = importlib.import_module(modname)
    ctx = core.Ctx(prop, load_known(prop), tier)
    ctx.unit = unit
    hang = False
    t0 = time.time()
    signal.alarm(UNIT_LIMIT if tier == 'quick' else 6 * 3600)
    try:
        mod.run_unit(unit, ctx, tier)
    except core.Stop:
        pass
    except core.Hang:
        hang = True
        ctx.fails.append({'sig': 'hang|%s' % (unit,), 'unit': unit, 'detail': {'error': 'unit did not end in time; an operation hangs'}})
    except BaseException as e:
        tb = traceback.format_exc()
        try:
            ctx.fail('exception|%s|%s' % (unit, type(e).__name__), error='%s: %s' % (type(e).__name__, e), traceback=tb[-3000:])
        except core.Stop:
            pass
    finally:
        signal.alarm(0)
    return dict(unit=unit, fails=ctx.fails, kf=ctx.kf, transitions=ctx.transitions, traces=ctx.traces,
                states=ctx.nstates, samples=ctx.samples, outcomes=ctx.outcomes, hang=hang, t=time.time() - t0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('--unit', help='substring filter on units (debugging)')
    ap.add_argument('--times', action='store_true')
    ap.add_argument('--all', action='store_true', help='do not stop early; list every failure signature')
    a = ap.parse_args()
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        a.prop = rep['property']
    prop = a.prop
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 0)
    t0 = time.time()
    modname = 'checks.' + prop.lower()
    try:
        core.bind()
    except BaseException as e:
        # the tree does not even import: every guarantee is broken
        return finish_import_failure(prop, tier, seed, t0, e)
    mod = importlib.import_module(modname)
    def tup(x):
        return tuple(tup(i) for i in x) if isinstance(x, list) else x
    if a.replay:
        units = [tup(rep['unit'])]
        tier = rep.get('tier', tier)
    else:
        units = list(mod.units(tier))
    if a.unit:
        units = [u for u in units if a.unit in str(u)]
    jobs = a.jobs or min(8, os.cpu_count() or 1)
    budget = 780 if tier == 'quick' else 5 * 3600
    results, capped = [], False
    worker_args = [(modname, prop, u, tier) for u in units]
    if a.all:
        core.Ctx.MAXFAIL = 10 ** 9
    ctx = mp.get_context('fork')
    sys.stdout.flush()
    nfail = 0
    with ctx.Pool(min(jobs, max(1, len(units))), initializer=worker_init, maxtasksperchild=None) as pool:
        it = pool.imap_unordered(do_unit, worker_args, chunksize=1)
        for _ in range(len(worker_args)):
            left = budget - (time.time() - t0)
            try:
                r = it.next(timeout=max(left, 1))
            except mp.TimeoutError:
                capped = True
                break
            results.append(r)
            nfail += len(r['fails'])
            if (nfail >= 40 or r['hang'] or (nfail and time.time() - t0 > 240)) and not a.all:
                capped = True
                break
        pool.terminate()
    if a.times:
        for r in sorted(results, key=lambda r: -r['t'])[:25]:
            print('%7.2fs %s' % (r['t'], r['unit']), file=sys.stderr)
    fails = [f for r in results for f in r['fails']]
    kf = {}
    for r in results:
        for k, n in r['kf'].items():
            kf[k] = kf.get(k, 0) + n
    states = sum(r['states'] for r in results)
    trans = sum(r['transitions'] for r in results)
    traces = sum(r['traces'] for r in results)
    known = load_known(prop)
    outcomes = {}
    for r in results:
        for k, v in r['outcomes'].items():
            outcomes[k] = outcomes.get(k, 0) + v
    order = {repr(u): i for i, u in enumerate(units)}
    fails.sort(key=lambda f: (order.get(repr(f['unit']), 0), len(f['sig'])))
    wall = time.time() - t0
    if not a.replay and not a.unit:
        samples = []
        for r in sorted(results, key=lambda r: order[repr(r['unit'])]):
            samples += r['samples']
        step = max(1, len(samples) // 12)
        write_evidence(prop, dict(
            property=prop, tier=tier, seed=seed, level='model_checking',
            coverage=dict(
                states=states, transitions=trans, traces_validated_against_impl=traces,
                samples=samples[::step][:12], exhaustive=not capped,
                units=len(units), units_completed=len(results), bounds=mod.BOUNDS if isinstance(mod.BOUNDS, str) else mod.BOUNDS[tier],
                rule='states = distinct (configuration, image/model state) pairs reached; transitions = calls of the '
                     'real code whose effect was judged; traces = complete histories/cases whose whole outcome was '
                     'compared with the reference model', distinct_outcomes=outcomes,
                known_findings_seen=kf),
            assumptions=getattr(mod, 'ASSUMPTIONS', []),
            wall_s=round(wall, 2), violations=len(fails)))
    for k in known:
        if kf.get(k['id']):
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    print('%s %s: units=%d/%d states=%d transitions=%d traces=%d known=%d violations=%d wall=%.1fs%s' % (
        prop, tier, len(results), len(units), states, trans, traces, sum(kf.values()), len(fails), wall, ' CAPPED' if capped else ''))
    if capped and not fails:
        print('note: time budget reached; %d of %d units completed' % (len(results), len(units)))
    if fails:
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        seen = set()
        n = 0
        for f in fails:
            if f['sig'] in seen:
                continue
            seen.add(f['sig'])
            n += 1
            if n > (10 if not a.all else 100000):
                break
            p = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha256(f['sig'].encode()).hexdigest()[:10]))
            if not a.all:
                with open(p, 'w') as fh:
                    json.dump(dict(property=prop, tier=tier, sig=f['sig'], unit=f['unit'], detail=f['detail'],
                                   how='python3 /verif/run.py --replay ' + p), fh, indent=1, default=str)
            print('VIOLATION property=%s replay=%s case=%s' % (prop, p, f['sig'][:200]))
            if n <= 5:
                print('   ' + json.dumps(f['detail'], default=str)[:1500])
        return 1
    return 0


def write_evidence(prop, ev):
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    p = os.path.join(HERE, 'evidence', prop + '.json')
    tmp = p + '.tmp%d' % os.getpid()
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, p)


def finish_import_failure(prop, tier, seed, t0, e):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + '-import.json')
    with open(p, 'w') as f:
        json.dump(dict(property=prop, error=repr(e)), f)
    write_evidence(prop, dict(property=prop, tier=tier, seed=seed, level='model_checking',
                              coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=['import failed']),
                              wall_s=time.time() - t0, violations=1))
    print('VIOLATION property=%s replay=%s case=the package does not import: %r' % (prop, p, e))
    return 1


if __name__ == '__main__':
    try:
        rc = main()
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
