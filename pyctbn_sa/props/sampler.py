"""Sampled trajectories."""
import itertools
from . import prop
from ..harness import *
from ..models import iconst
from .. import evalterm

NAMES = ('B', 'A2', 'D')
RATE = (num(1), num(evalterm.Q(7, 5)), num(evalterm.Q(19, 9)))      # sums of few delays never tie

NETWORK = '''
variables = pd.DataFrame([[labels[k], vals[k]] for k in range(m)], columns=["Name", "Value"])
dyn_str = pd.DataFrame(edges, columns=["From", "To"])
cims = {}
for k in range(m):
    pv = [vals[labels.index(p)] for p in parents[k]]
    cims[labels[k]] = SetOfCims(labels[k], pv, vals[k], np.array(tables[k]), np.array([ConditionalIntensityMatrix(cim=M) for M in matrices[k]]))
g = TrajectoryGenerator(None, variables, dyn_str, cims)
'''

REFERENCE = '''
def matrix(i, state):
    q = 0
    for p in parents[i]:
        j = labels.index(p)
        q = q * vals[j] + state[j]
    return entries[i][q]

t = 0
state = [0] * m
pending = [None] * m
done = 0
rows = [[0] + state]
while True:
    for i in range(m):
        if pending[i] is None:
            pending[i] = t + np.random.exponential(1 / -matrix(i, state)[state[i]][state[i]])
    w = 0
    for i in range(1, m):
        if pending[i] < pending[w]:
            w = i
    t = pending[w]
    if done == max_tr or (t_end != -1 and t >= t_end):
        break
    row = matrix(w, state)[state[w]]
    total = 0
    for c in range(vals[w]):
        if c != state[w]:
            total = total + row[c]
    state[w] = np.random.choice(vals[w], p=np.array([0 if c == state[w] else row[c] / total for c in range(vals[w])]))
    rows.append([t] + state)
    done += 1
    pending[w] = None
    for i in range(m):
        if labels[w] in parents[i]:
            pending[i] = None
rows[-1] = [rows[-1][0]] + [-1] * m
'''


def rounded(it, st, args, kw):
    """rounding to four or more digits is not modelled"""
    d = args[1] if len(args) > 1 else kw.get('decimals', kw.get('ndigits'))
    d = iconst(d) if d is not None else None
    return args[0] if d is not None and d >= 4 else NotImplemented


ROUNDING = {'numpy.around': rounded, 'numpy.round': rounded, 'numpy.round_': rounded, 'round': rounded, 'builtins.round': rounded}


class Env(dict):
    pass


def network(ctx, cards, edges, steps, unit=False):
    """a network with symbolic rates; unit: the rate of leaving a state is a constant of the variable"""
    a = ctx.analysis(stubs=ROUNDING)
    a.it.unroll, a.it.bound_rest = steps + 1, True
    vg.UNROLL = max(vg.UNROLL, 40)
    m = len(cards)
    names = NAMES[:m]
    L = lambda *xs: a.it.new_list(a.st, vg.lst(*xs))
    par = [[p for p, c in edges if c == x] for x in names]
    card = dict(zip(names, cards))
    e = dict(labels=L(*[const(x) for x in names]), m=num(m), vals=L(*[num(c) for c in cards]),
             edges=L(*[L(const(x), const(y)) for x, y in edges]),
             parents=L(*[L(*[const(p) for p in ps]) for ps in par]))
    hints = {}
    tables, entries = [], []
    for k, x in enumerate(names):
        combs = list(itertools.product(*[range(card[p]) for p in par[k]]))
        tables.append(L(*[L(*[num(s) for s in q]) for q in combs]))
        es = []
        for q in range(len(combs)):
            rows = []
            for i in range(cards[k]):
                others = [j for j in range(cards[k]) if j != i]
                r = [sym('%s|%d:%d>%d' % (x, q, i, j), 'num') for j in others]
                for y in r:
                    hints[y] = lambda mod, env: evalterm.Q(mod.rnd.randint(60, 999), 199 * 8)
                    a.given(lt(ZERO, y))
                if unit:
                    r[-1] = sub(RATE[k], add(*r[:-1])) if len(r) > 1 else RATE[k]
                    if len(r) > 1:
                        a.given(lt(ZERO, r[-1]))
                r.insert(i, neg(add(*r)) if not unit else neg(RATE[k]))
                rows.append(r)
            es.append(rows)
        entries.append(es)
    e['tables'] = L(*tables)
    nest = lambda x: L(*[nest(y) for y in x]) if isinstance(x, list) else x
    e['entries'] = nest(entries)
    e['matrices'] = nest(entries)
    env = Env(e)
    env.raw = entries
    return a, env, dict(hints=hints, coupled=True)


NET = 'matrices = [[np.array(M) for M in ms] for ms in matrices]\n' + NETWORK

# the same network as an importer holds it: matrices keyed by the names and states of the parents
IMPORTED = """
imp = NetworkSource(pd.DataFrame([[labels[k], vals[k]] for k in range(m)], columns=["Name", "Value"]),
                    pd.DataFrame(edges, columns=["From", "To"]), cims)
g = TrajectoryGenerator(imp)
"""


def imported(a, e, cards, edges, keys='table'):
    """the entries of the network under the keys of a file; keys: in which order configurations and parents are listed"""
    L = lambda *xs: a.it.new_list(a.st, vg.lst(*xs))
    names = NAMES[:len(cards)]
    card = dict(zip(names, cards))
    D = lambda items: a.it.alloc(a.st, 'dict', {'d': vg.dct(vg.lst(*[tup(const(k), v) for k, v in items]))})
    out = []
    for k, x in enumerate(names):
        par = [p for p, c in edges if c == x]
        combs = list(itertools.product(*[range(card[p]) for p in par]))
        rows = []
        for q, c in enumerate(combs):
            parts = ['%s=%d' % pc for pc in zip(par, c)]
            if keys == 'reversed':
                parts.reverse()
            M = e.raw[k][q]
            rows.append((','.join(parts) or x, L(*[D([(str(j), y) for j, y in enumerate(r)]) for r in M])))
        if keys == 'reversed':
            rows.reverse()
        elif keys == 'first':
            rows = [rows[combs.index(c)] for c in sorted(combs, key=lambda c: c[::-1])]
        out.append((x, D(rows)))
    return D(out)


CHAIN = [('B', 'A2')]
LOOP = [('B', 'A2'), ('A2', 'B')]
PAIR = [('B', 'A2'), ('D', 'A2')]
FORK = [('D', 'B'), ('D', 'A2')]
WHEEL = [('B', 'A2'), ('A2', 'D'), ('D', 'B')]
BOTH = [('B', 'A2'), ('D', 'A2'), ('A2', 'D')]
SETTINGS = (
    ((2, 2), [], 3), ((2, 2), CHAIN, 3), ((3, 2), LOOP, 3), ((2,), [], 8), ((3,), [], 5), ((4,), [], 2), ((2, 2, 2), PAIR, 2), ((2, 2, 2), FORK, 2),
    ((2, 2, 2), WHEEL, 2), ((2, 2, 2), BOTH, 2), ((2, 3, 2), PAIR, 2), ((2, 2, 3), BOTH, 2), ((2, 3, 2), FORK, 2), ((3, 3), CHAIN, 2))
DEEP = (((2, 2, 2), PAIR, 3), ((2, 2, 2), FORK, 3), ((2, 2, 2), WHEEL, 3), ((2, 2, 2), BOTH, 3), ((3, 3), LOOP, 3), ((2, 2), LOOP, 4),
        ((2, 2), CHAIN, 4), ((3, 2, 2), BOTH, 2), ((2, 3, 3), PAIR, 2))
EACH = 'return [s.iloc[k, j] for k in range(%d, len(s)) for j in range(%d, %s)]'


def described(cards, edges, n):
    return 'cardinalities %s, edges %s, %s transitions' % (cards, ', '.join('%s>%s' % e for e in edges) or 'none', n)


def sampled(cards, edges, n, unit, first, last, keys=None, rows=None):
    """the recorded cells of some columns equal those of the reference, for the same draws"""
    def one(ctx):
        a, e, kw = network(ctx, cards, edges, n, unit)
        if keys is not None:
            e['cims'] = imported(a, e, cards, edges, keys)
        s0 = a.st.fork()
        text = (NET if keys is None else IMPORTED) + 's = g.CTBN_Sample(max_tr=%d)\n' % n
        cut = 0 if rows is None else 1
        got = a.run(text + 'return len(s), [[s.iloc[k, j] for j in range(%d, %s)] for k in range(%d)]' % (first, last, n + 1 - cut), **dict(e))
        want = a.run(REFERENCE + 'return len(rows), [[r[j] for j in range(%d, %s)] for r in rows[:%d]]' % (first, last, n + 1 - cut),
                     s0, max_tr=num(n), t_end=num(-1), **dict(e))
        if want.ok is not TRUE:
            return a.undecided('reference', 'not resolved')
        c = and_(*[not_(x) for nm, x in got.excs if nm == 'OutOfBound'])
        nm = described(cards, edges, n) + (', imported (%s)' % keys if keys else '')
        a.same(nm + '/completed', and_(got.ok, c), c, **kw)
        a.settle(nm, [('value', got.val, want.val)], got.ok, **kw)
    return one


KEYED = (((2, 2), CHAIN), ((3, 2), LOOP), ((2, 2, 2), PAIR), ((2, 3, 2), [('D', 'A2'), ('B', 'A2')]), ((2, 2), []))


def deep(f):
    """explored in the thorough tier only"""
    return lambda ctx: f(ctx) if ctx.tier == 'thorough' else None


def register(pid, unit, first, last, keyed, rows=None, least=1):
    for cards, edges, n in SETTINGS + DEEP:
        f = sampled(cards, edges, max(n, least), unit, first, last, rows=rows)
        if (cards, edges, n) in DEEP or not unit and (cards, n) in (((3, 2), 3), ((2, 2, 3), 2)):
            f = deep(f)
        prop(pid, described(cards, edges, n))(f)
    if keyed:
        for keys in ('table', 'first', 'reversed'):
            for cards, edges in KEYED:
                prop(pid, described(cards, edges, 2) + ', imported (%s)' % keys)(sampled(cards, edges, 2, unit, first, last, keys, rows=rows))


register('C30', False, 0, '1', True)
register('C31', True, 1, 'm + 1', True, rows='before the last', least=2)
register('C32', True, 0, '1', False, least=2)


# ------------------------------------------------------------------ C33
SAMPLE = NET + 's = g.CTBN_Sample(%s)\n'
SHAPE = '''
names = list(s.columns)
first = [s.iloc[0, j] for j in range(m + 1)]
last = [s.iloc[len(s) - 1, j] for j in range(1, m + 1)]
marked = [k for k in range(len(s) - 1) for j in range(1, m + 1) if not 0 <= s.iloc[k, j] < vals[j - 1]]
'''
ENDS = (((2, 2), [], 3), ((2, 2), CHAIN, 3), ((3, 2), LOOP, 2), ((3,), [], 3), ((2, 2, 2), BOTH, 2))


def limited(cards, edges, n):
    def one(ctx):
        a, e, kw = network(ctx, cards, edges, n, True)
        got = a.run(SAMPLE % ('max_tr=%d' % n) + SHAPE + 'return len(s), names, first if len(s) > 1 else first[:1], last, marked', **e)
        c = and_(*[not_(x) for nm, x in got.excs if nm == 'OutOfBound'])
        m = len(cards)
        L = lambda *xs: mk('lst', vg.lst(*xs))
        zero = L(*[ZERO] * (m + 1 if n else 1))
        want = tup(num(n + 1), L(const('Time'), *[const(x) for x in NAMES[:m]]), zero, L(*[num(-1)] * m), mk('lst', NIL))
        a.same('completed', got.ok, c, **kw)
        a.settle('rows', [('value', got.val, want)], got.ok, **kw)
    return one


def ended(cards, edges, n):
    def one(ctx):
        a, e, kw = network(ctx, cards, edges, n, True)
        T = e['T'] = a.num('end')
        kw['hints'][T] = lambda mod, env: evalterm.Q(mod.rnd.randint(1, 700), 97)
        a.given(lt(ZERO, T))
        s0 = a.st.fork()
        got = a.run(SAMPLE % 't_end=T' + SHAPE + 'return len(s), names, first if len(s) > 1 else first[:1], last, marked, '
                    '[s.iloc[k, 0] < T for k in range(len(s))]', **e)
        # the transitions the same draws give without an end time, up to the first one at or after it
        want = a.run(SAMPLE % ('max_tr=%d' % n) + """
times = [s.iloc[k, 0] for k in range(len(s))]
if not times[-1] >= T:
    raise LookupError
count = 1
for x in times[1:]:
    if x >= T:
        break
    count += 1
return count, ["Time"] + labels, [0] * (m + 1) if count > 1 else [0], [-1] * m, [], [True] * count
""", s0, **e)
        c = and_(*[not_(x) for nm, x in got.excs if nm == 'OutOfBound'])
        a.same('completed', got.ok, c, **kw)
        a.settle('rows', [('value', got.val, want.val)], and_(got.ok, want.ok), **kw)
    return one


for cards, edges in (((2,), []), ((3,), []), ((2, 2), CHAIN), ((3, 2), LOOP), ((2, 2, 2), BOTH)):
    for n in range(4):
        if cards == (2, 2, 2) and n == 3:
            continue
        prop('C33', described(cards, edges, n))(limited(cards, edges, n))
for cards, edges, n in ENDS:
    prop('C33', described(cards, edges, 'at most %d' % n) + ' before an end time')(ended(cards, edges, n))


# ------------------------------------------------------------------ C34
def parallel(ends, limits, schedule=None):
    def one(ctx):
        runs = []

        def sample(it, st, args, kw):
            names = ('self', 't_end', 'max_tr')
            v = dict(zip(names, args), **kw)
            run = tup(v.get('t_end', num(-1)), v.get('max_tr', num(-1)))
            seeds = []
            for e in it.events[starts(it)[-1] if starts(it) else 0:]:
                if e['kind'] == 'seed':
                    seeds.append(e)
            runs.append((run, seeds, st.cond, len(starts(it))))
            return run

        def starts(it):
            return [k for k, e in enumerate(it.events) if e['kind'] in ('process-start', 'pool-submit', 'pool-map')]
        a = ctx.analysis(stubs={'TrajectoryGenerator.CTBN_Sample': sample})
        a.it.schedule = schedule
        e = network_env(a)
        vs = {}
        for nm, n, low in (('t_ends', ends, None), ('max_trs', limits, 0)):
            vs[nm] = None if n is None else [a.num('end%d' % k) if nm == 't_ends' else a.int('limit%d' % k, 0) for k in range(n)]
            e[nm] = NONE if n is None else a.it.new_list(a.st, vg.lst(*vs[nm]))
        got = a.run(NET + 'return list(g.multi_trajectory(t_ends, max_trs))', **e)
        if schedule is not None and got.ok is not TRUE:
            return a.undecided('completed', 'the calling process does not end under this schedule')
        a.same('completed', got.ok, TRUE)
        if ends is not None:
            want = [tup(x, num(-1)) for x in vs['t_ends']]
        else:
            want = [tup(num(-1), x) for x in vs['max_trs']]
        v = got.val
        out = [p.args[0] for p in v.args[0].args] if v.op == 'lst' and v.args[0].op == 'seq' and all(p.op == 'el' for p in v.args[0].args) else None
        if out is None:
            return a.undecided('trajectories', 'not resolved: ' + str(v)[:200])
        # in any order
        a.same('number of trajectories', num(len(out)), num(len(want)))
        rest = list(out)
        for w in want:
            if w in rest:
                rest.remove(w)
            elif not any(x.unk for x in out):
                a.fail('bound of each trajectory', 'bounds %s requested, trajectories sampled with %s' % (want, out))
                break
            else:
                a.undecided('bound of each trajectory', 'not resolved')
                break
        else:
            a.ok('bound of each trajectory', 'bounds of the %d workers identical to the requested ones' % len(want))
        if schedule is not None:
            return
        # random streams
        if any(c is not TRUE for _, _, c, _ in runs):
            return a.undecided('random streams', 'conditional')
        seen = []
        for k, (run, seeds, c, n) in enumerate(runs):
            nm = 'random stream of worker %d' % k
            if not n:
                a.ok(nm, 'sampled in the calling process')
                continue
            own = [s for s in seeds if s['cond'] is TRUE]
            if len(runs) < 2:
                a.ok(nm, 'the only worker')
            elif not seeds:
                a.fail(nm, 'the worker continues a copy of the random stream of its parent')
            elif own and is_none_term(own[-1]['arg']):
                a.ok(nm, 'seeded by the system')
            elif not own or own[-1]['arg'].unk:
                a.undecided(nm, 'seed not resolved')
            elif own[-1]['arg'] in seen and not plain(own[-1]['arg']):
                a.undecided(nm, 'seed not resolved: %s' % own[-1]['arg'])
            elif own[-1]['arg'] in seen:
                a.fail(nm, 'the seed %s is that of another worker' % own[-1]['arg'])
            else:
                seen.append(own[-1]['arg'])
                a.ok(nm, 'seeded with %s' % own[-1]['arg'])
    return one


def is_none_term(t):
    return t is NONE


def plain(t):
    """made of constants, inputs and draws"""
    return t.op in ('n', 'poly', 'draw', 'sym', 'c', 'tup', 'mod', 'fdiv', 'ite', 'cell', 'at') and all(plain(k) for k in vg._kids(t.args, []))


def network_env(a):
    L = lambda *xs: a.it.new_list(a.st, vg.lst(*xs))
    return dict(labels=L(const('B')), m=num(1), vals=L(num(2)), edges=L(), parents=L(L()), tables=L(L(L())),
                matrices=L(L(L(L(num(-1), num(1)), L(num(1), num(-1))))))


for ends, limits in ((0, None), (1, None), (3, None), (None, 0), (None, 1), (None, 3), (3, 2), (2, 4)):
    prop('C34', '%s end times, %s transition limits' % tuple('no' if x is None else x for x in (ends, limits)))(parallel(ends, limits))


for schedule, nm in (('late', 'workers that end as late as they can'), (('preempt', 1), 'a worker interrupted before its first shared change'),
                     (('preempt', 2), 'a worker interrupted before its second shared change')):
    prop('C34', '2 end times, ' + nm)(parallel(2, None, schedule))
    prop('C34', '2 transition limits, ' + nm)(parallel(None, 2, schedule))
prop('C34', '3 end times, workers that end as late as they can')(parallel(3, None, 'late'))


@prop('C34', 'nothing requested')
def nothing(ctx):
    a = ctx.analysis()
    got = a.run(NET + 'return g.multi_trajectory()', **network_env(a))
    a.same('completed', got.ok, TRUE)
    a.same('no list', got.val, NONE)
