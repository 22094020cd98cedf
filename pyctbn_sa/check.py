"""python3 -m pyctbn_sa.check <property id>"""
import importlib
import json
import os
import pkgutil
import signal
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Timeout(Exception):
    pass


class Ctx(object):
    def __init__(self, prog, pid, tier):
        self.prog, self.pid, self.tier = prog, pid, tier
        self.analyses = []
        self.results = []
        self.part = ''

    def analysis(self, stubs=None, watch=()):
        from .harness import Analysis
        a = Analysis(self.prog, stubs, watch)
        self.analyses.append(a)
        return a

    def add(self, name, verdict, detail='', where=None):
        from .harness import Result
        self.results.append(Result(name, verdict, detail, where))


def load_known(pid):
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    for line in open(p):
        if line.startswith('finding: ') and ('property=%s ' % pid) in line:
            key = line.split(' key=', 1)[1].split(' ', 1)[0]
            out[key] = line.split(' key=', 1)[1].split(' ', 1)[1].strip()
    return out


def run_part(ctx, part, limit, budget):
    """obligations of one part, as plain data"""
    title, f = part
    ctx = Ctx(ctx.prog, ctx.pid, ctx.tier)
    ctx.part = title
    left = int(budget - time.time())
    if left <= 0:
        ctx.add(title, 'undecided', 'time budget of the run used up')
    else:
        signal.alarm(min(limit, left))
        try:
            f(ctx)
        except Timeout:
            ctx.add(title, 'undecided', 'time limit')
        except RecursionError:
            ctx.add(title, 'undecided', 'term too deep')
        except Exception as e:
            tb = traceback.format_exc().strip().splitlines()
            if os.environ.get('PYCTBN_SA_DEBUG'):
                print('\n'.join(tb[-17:]))
            ctx.add(title, 'undecided', 'analysis stopped: %s: %s at %s' % (
                type(e).__name__, e, tb[-3].strip() if len(tb) > 2 else ''))
        finally:
            signal.alarm(0)
    rows, funcs, calls = [(r.name, r.verdict, r.detail, r.where) for r in ctx.results], {}, 0
    for a in ctx.analyses:
        seen = {k: v for k, v in a.it.funcs_seen.items() if not k.startswith('client')}
        for r in a.results:
            rows.append((title + '/' + r.name, r.verdict, str(r.detail), r.where or ', '.join(sorted(seen)[:12])))
        for k, v in list(seen.items()) + list(getattr(a, 'funcs', {}).items()):
            funcs[k] = funcs.get(k, 0) + v
        for v in getattr(a.it, 'calls_seen', {}).values():
            calls += v if isinstance(v, int) else 1
    return {'results': rows, 'funcs': funcs, 'calls': calls}


def run_parts(parts, work, budget):
    """every part in its own process, several at a time; results in the order of the parts"""
    width = min(os.cpu_count() or 1, 8)
    if len(parts) == 1 or width == 1 or os.environ.get('PYCTBN_SA_SERIAL'):
        for p in parts:
            yield work(p)
        return
    import pickle
    import tempfile
    sys.stdout.flush()
    out, todo, live = {}, list(enumerate(parts)), {}
    with tempfile.TemporaryDirectory(prefix='pyctbn_sa') as d:
        while todo or live:
            while todo and len(live) < width:
                k, p = todo.pop(0)
                pid = os.fork()
                if pid == 0:
                    try:
                        r = work(p)
                        with open(os.path.join(d, '%d.tmp' % k), 'wb') as f:
                            pickle.dump(r, f)
                        os.rename(os.path.join(d, '%d.tmp' % k), os.path.join(d, '%d' % k))
                        sys.stdout.flush()
                    finally:
                        os._exit(0)
                live[pid] = k
            pid, _ = os.wait()
            if pid in live:
                k = live.pop(pid)
                try:
                    with open(os.path.join(d, '%d' % k), 'rb') as f:
                        out[k] = pickle.load(f)
                except (OSError, EOFError, pickle.PickleError):
                    out[k] = {'results': [(parts[k][0], 'undecided', 'analysis process ended early', None)], 'funcs': {}, 'calls': 0}
    for k in range(len(parts)):
        yield out[k]


def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from . import props, evalterm
    from .loader import Program
    from .harness import REPO
    for m in pkgutil.iter_modules(props.__path__):
        importlib.import_module('pyctbn_sa.props.' + m.name)
    if pid not in props.REG:
        print('no check for', pid)
        return 2
    evalterm.SEED = seed
    evalterm.TRIALS = 40 if tier == 'quick' else 400
    prog = Program(REPO)
    ctx = Ctx(prog, pid, tier)
    limit = int(os.environ.get('PYCTBN_SA_LIMIT', '150' if tier == 'quick' else '700'))

    def alarm(*a):
        raise Timeout()
    signal.signal(signal.SIGALRM, alarm)
    parts = props.REG[pid]
    budget = t0 + (700 if tier == 'quick' else 3000)
    funcs, ncalls = {}, 0
    for out in run_parts(parts, lambda part: run_part(ctx, part, limit, budget), budget):
        for row in out['results']:
            ctx.add(*row)
        for k, v in out['funcs'].items():
            funcs[k] = funcs.get(k, 0) + v
        ncalls += out['calls']
    res = ctx.results
    known = load_known(pid)
    bad = [r for r in res if r.verdict == 'violated']
    und = [r for r in res if r.verdict == 'undecided']
    good = [r for r in res if r.verdict == 'holds']
    new = [r for r in bad if r.name not in known]
    for r in bad:
        if r.name in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, known[r.name]))
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'obligations decided on the syntax tree of the current /repo sources by value-graph / effect analysis; '
                           'an obligation holds if the value computed for the program and the value computed for the '
                           'specification have the same normal form; where the normal forms differ, both terms are evaluated under '
                           'random interpretations of their symbols, and the obligation is violated if the values differ',
            'equal_only_under_interpretations': ['%s (%s)' % (r.name, r.detail[:80]) for r in good if r.detail.startswith('not distinguished')],
            'obligations': len(res), 'discharged': len(good), 'undecided': len(und), 'violated': len(bad),
            'functions_analysed': funcs,
            'library_call_sites': ncalls,
            'modules': sorted(m.rel for m in prog.modules.values()),
            'samples': [{'obligation': r.name, 'verdict': r.verdict, 'by': r.detail[:400], 'where': r.where} for r in res[:200]],
        },
        'wall_s': round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for r in und:
        print('UNDECIDED', r.name, '-', r.detail[:300])
    if new:
        path = os.path.join(HERE, 'evidence', 'replay', pid + '.json')
        with open(path, 'w') as f:
            json.dump([{'obligation': r.name, 'where': r.where, 'detail': r.detail} for r in new], f, indent=1)
        for r in new:
            print('violated: %s at %s: %s' % (r.name, r.where or '-', r.detail[:900]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if not good and not [r for r in res if r.verdict == 'undecided']:
        print('nothing analysed')
        return 2
    print('%s: %d obligations, %d hold, %d undecided, %.1fs' % (pid, len(res), len(good), len(und), time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    # the signal handler needs the main thread: raise its stack by re-exec
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (1 << 29, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    except (ValueError, OSError):
        pass
    if os.environ.get('PYCTBN_SA_STACK') != '1':
        os.environ['PYCTBN_SA_STACK'] = '1'
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-m', 'pyctbn_sa.check'] + sys.argv[1:])
    sys.exit(main(sys.argv[1]))
