"""Independence tests of the constraint-based estimator."""
from . import prop
from ..harness import *
from ..models import tonum


EST = '''
est = StructureConstraintBasedEstimator(DataSource(Structure(V, I, C, [], n), Trajectory([t, D], n + 1), n, []), ea, ca, [], thr)
'''

JUDGE = '''
import scipy.stats
def judge(k, M1, M2, C1, C2, ea, ca, thumb, thr):
    if k > 2:
        total = 0
        for x in range(k):
            total += M1[x, x]
        if total / thumb < thr:
            return False
    for x in range(k):
        F = C2[x, x] / C1[x, x]
        if F < scipy.stats.f.ppf(ea / 2, M1[x, x], M2[x, x]):
            return False
        if F > scipy.stats.f.ppf(1 - ea / 2, M1[x, x], M2[x, x]):
            return False
    q = scipy.stats.chi2.ppf(1 - ca, k - 1)
    for x in range(k):
        K = math.sqrt(M1[x, x] / M2[x, x])
        L = 1 / K
        if sum([(K * M2[x, y] - L * M1[x, y]) ** 2 / (M1[x, y] + M2[x, y]) for y in range(k) if y != x]) > q:
            return False
    return True
'''


def est_inputs(a, n=3):
    V = ['A', 'B', 'C'][:n]
    C = [a.int('c%d' % i, 2) for i in range(n)]
    t = a.arrsym('t', (a.int('N', 1),), 'num', 0)
    D = a.arrsym('D', (a.int('N', 1), num(2 * n)), 'int', 0)
    ea, ca, thr = a.num('ea'), a.num('ca'), a.num('thr')
    a.assume += [lt(ZERO, ea), lt(ea, ONE), lt(ZERO, ca), lt(ca, ONE), lt(ZERO, thr)]
    env = dict(V=a.lst(lst(*[const(v) for v in V])), I=a.run('return np.arange(%d)' % n, a.st).raw, n=num(n), t=a.arr(t), D=a.arr(D),
               ea=ea, ca=ca, thr=thr, **{'c%d' % i: c for i, c in enumerate(C)})
    env['C'] = a.run('return np.array([%s])' % ', '.join('c%d' % i for i in range(n)), a.st, **env).raw
    return env


def pair_of(a, k):
    """two matrices of positive counts whose diagonal is the row total"""

    out = []
    for tag in ('1', '2'):
        K = a.arrsym('K' + tag, (k, k), 'int', 1)
        i, j, l = fresh(k), fresh(k), fresh(k)
        tot = make_sum([l], (ite(ne(l, i), cell(K, i, l), ZERO),))
        out.append(make_arr([i, j], (TRUE, ite(eq(i, j), tot, cell(K, i, j))), ('int',)))
    return out


@prop('C20', 'verdict')
def verdict(ctx):
    for kk in (2, 3, None):
        a = ctx.analysis()
        env = est_inputs(a)
        k = a.int('k', 2) if kk is None else num(kk)
        M1, M2 = pair_of(a, k)
        C1, C2 = a.arrsym('C1', (k, k), 'num', None), a.arrsym('C2', (k, k), 'num', None)
        T1, T2 = a.arrsym('T1', (k,), 'num', 0), a.arrsym('T2', (k,), 'num', 0)
        thumb = a.num('thumb')
        a.assume += [lt(ZERO, thumb)]
        env.update(M1=a.arr(M1), M2=a.arr(M2), C1=a.arr(C1), C2=a.arr(C2), T1=a.arr(T1), T2=a.arr(T2), k=k, thumb=thumb)
        got = a.run(EST + 'return est.independence_test(k, ConditionalIntensityMatrix(T1, M1, C1), ConditionalIntensityMatrix(T2, M2, C2), thumb, 0, 1)',
                    a.st.fork(), **env)
        want = a.run(JUDGE + 'return judge(k, M1, M2, C1, C2, ea, ca, thumb, thr)', a.st.fork(), **env)
        rat = lambda lo, hi: (lambda m, e: evalterm.Q(m.rnd.randint(lo, hi), 100))
        hints = {env['ea']: rat(1, 95), env['ca']: rat(5, 95), env['thr']: rat(1, 900), thumb: rat(100, 900)}
        hints[C1] = hints[C2] = lambda m, e: (lambda q: evalterm.ArrV([q, q], {(i, j): evalterm.Q(m.rnd.randint(20, 60), -40 if i == j else 40)
                                                                              for i in range(q) for j in range(q)}))(int(m.ev(k)))
        if kk is None:
            hints[k] = lambda m, e: evalterm.Q(m.rnd.choice((2, 2, 3, 4)))
        a.match('%s states' % (kk or 'any number of'), got, want, hints=hints, trials=400)


def indep_stub(it, st, args, kwargs):
    """independence_test as an uninterpreted predicate of what it is given"""
    names = ('self', 'child_states_numb', 'cim1', 'cim2', 'thumb_value', 'parent_indx', 'child_indx')
    v = dict(zip(names, args))
    v.update(kwargs)
    out = [tonum(v['child_states_numb'])]
    for c in ('cim1', 'cim2'):
        for part in ('state_transition_matrix', 'state_residence_times', 'cim'):
            x = it.getattr(v[c], part, st)
            out.append(vg._mapl(it.arr(st, x), lambda l: l))
    return vg.ufun('independent', 'bool', *(out + [tonum(v['thumb_value']), tonum(v['parent_indx']), tonum(v['child_indx'])]))


def statistic(name, sort):
    """the sufficient statistics (decided in C06, C07) as uninterpreted functions of the variables' columns,
    the strides, the configuration and the states"""
    def stub(it, st, args, kwargs):
        from ..models import store
        arrs = args[-3:]
        if kwargs or len(args) < 5:
            return NotImplemented
        keys = []
        for x in arrs[:2]:
            t = it.arr(st, x)
            d = vg.arr_dims(t)
            if d is None or len(d) != 1 or d[0].op != 'n':
                return NotImplemented
            keys += [cell(t, num(k)) for k in range(int(d[0].args[0]))]
        if arrs[2].op != 'ref' or st.heap[arrs[2]].kind not in ('arr', 'view'):
            return NotImplemented
        name_ = '%s of %d' % (name, len(keys))
        store(it, st, arrs[2], lambda ix: TRUE, lambda ix, old: vg.ufun(name_, sort, *(keys + list(ix))))
        return vg.NONE
    return stub


STATISTICS = {'ParametersEstimator.compute_state_res_time_for_node': statistic('residence', 'num'),
              'ParametersEstimator.compute_state_transitions_for_a_node': statistic('transitions', 'int')}


def stat_hints(hints):
    for k in range(20):
        hints[('uf', 'residence of %d' % k)] = lambda m, e: evalterm.Q(m.rnd.randint(1, 10 ** 6))
        hints[('uf', 'transitions of %d' % k)] = lambda m, e: evalterm.Q(m.rnd.randint(1, 10 ** 6))
    return hints


CASES = {
    'no separating set': ('abcd', 'c', 'a', []),
    'no separating set, tested after the child': ('abcd', 'b', 'd', []),
    'one variable, tested last': ('abcd', 'b', 'd', ['a']),
    'one variable, tested first': ('abcd', 'b', 'a', ['d']),
    'one variable, child first': ('abcd', 'a', 'b', ['c']),
    'two variables, tested in the middle': ('abcd', 'a', 'c', ['b', 'd']),
    'two variables in another order': ('abcd', 'b', 'c', ['d', 'a']),
    'two variables, tested first': ('abcd', 'd', 'a', ['b', 'c']),
    'two variables, tested last': ('abcd', 'a', 'd', ['c', 'b']),
    'labels not in alphabetical order': (['z', 'm', 'a', 'q'], 'm', 'q', ['z', 'a']),
}

TEST_SPEC = """
def stats(child, parents):
    g = NetworkGraph(Structure(V, I, C, [], n))
    g.add_nodes(V)
    g.add_edges([(v, child) for v in parents])
    g.fast_init(child)
    e = ParametersEstimator(Trajectory([t, D], n + 1), g)
    e.fast_init(child)
    return e.compute_parameters_for_node(child).actual_cims
def tested(est, p, c, S):
    P = [v for v in V if v in S]
    Q = [v for v in V if v in S or v == p]
    k = C[V.index(c)]
    first = stats(c, P)
    second = stats(c, Q)
    thumb = 0.0
    if k > 2:
        thumb = (k - 1) ** 2 * C[V.index(p)] * math.prod([C[V.index(v)] for v in S])
    before = math.prod([C[V.index(v)] for v in Q[:Q.index(p)]])
    cp = C[V.index(p)]
    for r in range(math.prod([C[V.index(v)] for v in P])):
        for z in range(cp):
            # configuration r of S with state z of p inserted at its place
            r2 = r % before + before * (z + cp * (r // before))
            if not est.independence_test(k, first[r], second[r2], thumb, V.index(p), V.index(c)):
                return False
    return True
"""


def tested_case(name, plain=False):
    labels, c, p, S = CASES[name]

    def one(ctx):
        from .graph import named
        a = ctx.analysis(stubs=dict({} if plain else STATISTICS, **{'StructureConstraintBasedEstimator.independence_test': indep_stub}))
        s_, env, hints, below, head = named(a, labels)
        k = len(labels)
        ea, ca, thr = a.num('ea'), a.num('ca'), a.num('thr')
        env.update(ea=ea, ca=ca, thr=thr)
        head += EST
        hints[s_['C']] = lambda m, e: evalterm.ArrV([k], {(z,): evalterm.Q(m.rnd.choice((2, 3, 3, 4))) for z in range(k)})
        if not plain:
            stat_hints(hints)
        call = 'est.complete_test(%r, %r, %r, C[%d], n, %d, %d)' % (p, c, S, labels.index(c), labels.index(p), labels.index(c))
        got = a.run(head + 'return ' + call, a.st.fork(), **env)
        want = a.run(head + TEST_SPEC + 'return tested(est, %r, %r, %r)' % (p, c, S), a.st.fork(), **env)
        a.match(name, got, want, hints=hints, trials=8 if plain else 60)
    prop('C21', name + (', from the data' if plain else ''))(one)


for _n in CASES:
    tested_case(_n)
    if 'separating' in _n or 'one' in _n:
        tested_case(_n, True)


SEQUENCES = {
    'the same separating set for several parents': ('abcd', 'c', [('a', []), ('b', []), ('d', [])]),
    'growing sets': ('abcd', 'b', [('c', []), ('a', []), ('c', ['a']), ('a', ['c'])]),
    'a set tested before becomes the separating set': ('abcd', 'd', [('b', ['a']), ('c', ['b', 'a'])]),
    'equal sets in another order': ('abcd', 'a', [('b', ['c', 'd']), ('b', ['d', 'c'])]),
}


def sequence_case(name):
    labels, c, tests = SEQUENCES[name]

    def one(ctx):
        from .graph import named
        a = ctx.analysis(stubs=dict(STATISTICS, **{'StructureConstraintBasedEstimator.independence_test': indep_stub}))
        s_, env, hints, below, head = named(a, labels)
        k = len(labels)
        ea, ca, thr = a.num('ea'), a.num('ca'), a.num('thr')
        env.update(ea=ea, ca=ca, thr=thr)
        head += EST
        stat_hints(hints)
        hints[s_['C']] = lambda m, e: evalterm.ArrV([k], {(z,): evalterm.Q(m.rnd.choice((2, 3, 3, 4))) for z in range(k)})
        calls = '\n'.join('r = est.complete_test(%r, %r, %r, C[%d], n, %d, %d)' % (
            p, c, S, labels.index(c), labels.index(p), labels.index(c)) for p, S in tests)
        got = a.run(head + calls + '\nreturn r', a.st.fork(), **env)
        want = a.run(head + TEST_SPEC + 'return tested(est, %r, %r, %r)' % (tests[-1][0], c, tests[-1][1]), a.st.fork(), **env)
        a.match(name, got, want, hints=hints, trials=60)
    prop('C21', name)(one)


for _n in SEQUENCES:
    sequence_case(_n)
