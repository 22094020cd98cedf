"""Bayesian family score and scoring of candidate graphs."""
from . import prop
from ..harness import *

COUNTS = '''
M = np.zeros((p, m, m), dtype=int)
for r in range(p):
    for i in range(m):
        for j in range(m):
            if i != j:
                M[r, i, j] = K[r, i, j]
for r in range(p):
    for i in range(m):
        M[r, i, i] = sum([K[r, i, j] for j in range(m) if j != i])
'''


def counts(a, p, m, tag=''):
    """symbolic transition counts whose diagonal is the row total"""
    K = a.arrsym('K' + tag, (p, m, m), 'int', 0)
    r, i, j, k = fresh(p), fresh(m), fresh(m), fresh(m)
    tot = make_sum([k], (ite(ne(k, i), cell(K, r, i, k), ZERO),))
    return K, make_arr([r, i, j], (TRUE, ite(eq(i, j), tot, cell(K, r, i, j))), ('int',))


SCORE = '''
b = al / (m - 1)
tot = 0
for r in range(p):
    for i in range(m):
        Mx = sum([K[r, i, j] for j in range(m) if j != i])
        tot += loggamma(al + Mx + 1) + (al + 1) * math.log(tau) - loggamma(al + 1) - (al + Mx + 1) * math.log(tau + T[r, i])
        tot += loggamma(al) - loggamma(al + Mx)
        for j in range(m):
            if j != i:
                tot += loggamma(b + K[r, i, j]) - loggamma(b)
return tot
'''


@prop('C11', 'family score')
def family_score(ctx):
    for mm in (None, 2, 3):
        a = ctx.analysis()
        p = a.int('p', 1)
        m = a.int('m', 2) if mm is None else num(mm)
        K, M = counts(a, p, m)
        T = a.arrsym('T', (p, m), 'num', 0)
        al, tau = a.num('alpha'), a.num('tau')
        a.assume = [lt(ZERO, al), lt(ZERO, tau)]
        env = dict(M=a.arr(M), K=a.arr(K), T=a.arr(T), p=p, m=m, al=al, tau=tau)
        got = a.run('''
            cims = np.array([ConditionalIntensityMatrix(T[r], M[r]) for r in range(p)])
            return FamScoreCalculator().get_fam_score(cims, tau, al)
        ''', a.st.fork(), **env)
        want = a.run('from scipy.special import loggamma\n' + SCORE, a.st.fork(), **env)
        a.match('score, %s states' % (mm or 'any number of'), got, want, under=and_(*a.assume))
        got = a.run('''
            cims = np.array([ConditionalIntensityMatrix(T[r], M[r]) for r in range(p)])
            f = FamScoreCalculator()
            u = f.get_fam_score(cims, tau, al)
            return (f.get_fam_score(cims, tau, al) == u, [c.state_transition_matrix for c in cims], [c.state_residence_times for c in cims])
        ''', a.st.fork(), **env)
        want = a.run('return (True, [M[r] for r in range(p)], [T[r] for r in range(p)])', a.st.fork(), **env)
        a.match('statistics untouched, %s states' % (mm or 'any number of'), got, want, under=and_(*a.assume))
    # default hyper-parameters
    a = ctx.analysis()
    p, m = a.int('p', 1), a.int('m', 2)
    K, M = counts(a, p, m)
    T = a.arrsym('T', (p, m), 'num', 0)
    env = dict(M=a.arr(M), K=a.arr(K), T=a.arr(T), p=p, m=m)
    got = a.run('''
        cims = np.array([ConditionalIntensityMatrix(T[r], M[r]) for r in range(p)])
        return FamScoreCalculator().get_fam_score(cims)
    ''', a.st.fork(), **env)
    want = a.run('from scipy.special import loggamma\nal = 1\ntau = 0.1\n' + SCORE, a.st.fork(), **env)
    a.match('default hyper-parameters', got, want)


# ------------------------------------------------------------------ C12
SETUP = '''
src = DataSource(Structure(V, I, C, [], W), Trajectory([t, D], W + 1), W, [])
est = StructureScoreBasedEstimator(src, tau_xu=tau, alpha_xu=al)
def graph(edges):
    g = NetworkGraph(Structure(V, I, C, [], W))
    g.add_nodes(V)
    g.add_edges(edges)
    return g
def spec(edges, node, al, tau, without=[]):
    g = graph(edges)
    g.remove_edges(without)
    g.fast_init(node)
    e = ParametersEstimator(Trajectory([t, D], W + 1), g)
    e.fast_init(node)
    return FamScoreCalculator().get_fam_score(e.compute_parameters_for_node(node).actual_cims, tau, al)
'''


def scoring(ctx, name, client, ref):
    from .graph import data_inputs, env_of
    a = ctx.analysis()
    s, hints, below = data_inputs(a)
    y, u = a.str('y'), a.str('u')
    for z in (y, u):
        KNOWN_MEMB.add((z, s['V']))
    al, tau = a.num('alpha'), a.num('tau')
    al2, tau2 = a.num('alpha2'), a.num('tau2')
    env = env_of(a, s)
    env.update(t=a.arr(s['t']), D=a.arr(s['D']), W=s['W'], y=y, u=u, al=al, tau=tau, al2=al2, tau2=tau2)
    a.assume += [lt(ZERO, z) for z in (al, tau, al2, tau2)]
    got = a.run(SETUP + textwrap.dedent(client), a.st.fork(), **env)
    want = a.run(SETUP + textwrap.dedent(ref), a.st.fork(), **env)
    a.match(name, got, want, hints=hints, trials=6)


def case(name, client, ref):
    prop('C12', 'scoring a graph')(lambda ctx: scoring(ctx, name, client, ref))


case('first scoring', 'g = graph(E)\nreturn (est.get_score_from_graph(g, x), set(g.edges))',
     'return (spec(E, x, al, tau), set(E))')
case('scored again after an edge was added', '''
     g = graph(E)
     est.get_score_from_graph(g, x)
     g.add_edges([(u, x)])
     return (est.get_score_from_graph(g, x), set(g.edges))
     ''', 'return (spec(E + [(u, x)], x, al, tau), set(E + [(u, x)]))')
case('scored again after an edge was removed', '''
     g = graph(E)
     est.get_score_from_graph(g, x)
     g.remove_edges([(u, x)])
     return (est.get_score_from_graph(g, x), set(g.edges))
     ''', 'return (spec(E, x, al, tau, [(u, x)]), set(E) - {(u, x)})')
case('another variable of the same graph', '''
     g = graph(E)
     est.get_score_from_graph(g, y)
     return (est.get_score_from_graph(g, x), set(g.edges))
     ''', 'return (spec(E, x, al, tau), set(E))')
case('two estimators', '''
     other = StructureScoreBasedEstimator(src, tau_xu=tau2, alpha_xu=al2)
     g = graph(E)
     b = other.get_score_from_graph(g, x)
     return (est.get_score_from_graph(g, x), b)
     ''', 'return (spec(E, x, al, tau), spec(E, x, al2, tau2))')
case('default hyper-parameters', '''
     est = StructureScoreBasedEstimator(src)
     return est.get_score_from_graph(graph(E), x)
     ''', 'return spec(E, x, 1, 0.1)')
case('network description and data untouched', '''
     est.get_score_from_graph(graph(E), x)
     return (src.structure.edges, src.structure.nodes_labels, list(src.structure.nodes_values), src.trajectories.times,
             src.trajectories.complete_trajectory)
     ''', 'return ([], V, list(C), t, D)')


# the same over named variables, with any cardinalities and data
def named_scoring(ctx, name, labels, client, ref):
    from .graph import named, NAMED_GRAPH
    a = ctx.analysis()
    s, env, hints, below, head = named(a, labels)
    al, tau, al2, tau2 = a.num('alpha'), a.num('tau'), a.num('alpha2'), a.num('tau2')
    a.assume += [lt(ZERO, z) for z in (al, tau, al2, tau2)]
    env.update(al=al, tau=tau, al2=al2, tau2=tau2)
    hints[s['C']] = lambda m, e: evalterm.ArrV([len(labels)], {(z,): evalterm.Q(m.rnd.choice((2, 2, 3))) for z in range(len(labels))})
    hints[s['N']] = lambda m, e: evalterm.Q(m.rnd.randint(0, 6))
    v, = [fresh(num(len(labels)))]
    a.assume += [make_all([v], (lt(ONE, cell(s['C'], v)),))]
    text = head + NAMED_GRAPH + """
src = DataSource(Structure(V, I, C, [], W), Trajectory([t, D], W + 1), W, [])
est = StructureScoreBasedEstimator(src, tau_xu=tau, alpha_xu=al)
def spec(node, parents, al, tau):
    g = graph()
    for p in parents:
        g.add_edges([(p, node)])
    g.fast_init(node)
    e = ParametersEstimator(Trajectory([t, D], W + 1), g)
    e.fast_init(node)
    return FamScoreCalculator().get_fam_score(e.compute_parameters_for_node(node).actual_cims, tau, al)
"""
    got = a.run(text + textwrap.dedent(client), a.st.fork(), **env)
    want = a.run(text + textwrap.dedent(ref), a.st.fork(), **env)
    a.match(name, got, want, hints=hints, trials=4)


def ncase(name, labels, client, ref):
    prop('C12', 'named variables')(lambda ctx: named_scoring(ctx, name, labels, client, ref))


ncase('a parent exchanged for another', 'abc', """
      g = graph()
      g.add_edges([('b', 'a')])
      u = est.get_score_from_graph(g, 'a')
      g.remove_edges([('b', 'a')])
      g.add_edges([('c', 'a')])
      return (u, est.get_score_from_graph(g, 'a'), g.edges)
      """, "return (spec('a', ['b'], al, tau), spec('a', ['c'], al, tau), [('c', 'a')])")
ncase('a parent added and removed again', 'abc', """
      g = graph()
      g.add_edges([('b', 'a')])
      u = est.get_score_from_graph(g, 'a')
      g.add_edges([('c', 'a')])
      v = est.get_score_from_graph(g, 'a')
      g.remove_edges([('c', 'a')])
      return (u, v, est.get_score_from_graph(g, 'a'))
      """, "return (spec('a', ['b'], al, tau), spec('a', ['b', 'c'], al, tau), spec('a', ['b'], al, tau))")
ncase('all parents removed', 'abc', """
      g = graph()
      g.add_edges([('b', 'a'), ('c', 'a')])
      u = est.get_score_from_graph(g, 'a')
      g.remove_edges([('c', 'a'), ('b', 'a')])
      return (u, est.get_score_from_graph(g, 'a'))
      """, "return (spec('a', ['b', 'c'], al, tau), spec('a', [], al, tau))")
ncase('two variables of one graph in turn', 'abc', """
      g = graph()
      g.add_edges([('b', 'a'), ('c', 'b')])
      u = est.get_score_from_graph(g, 'a')
      v = est.get_score_from_graph(g, 'b')
      return (u, v, est.get_score_from_graph(g, 'a'))
      """, "return (spec('a', ['b'], al, tau), spec('b', ['c'], al, tau), spec('a', ['b'], al, tau))")
ncase('two graphs in turn', 'abc', """
      g = graph()
      g.add_edges([('b', 'a')])
      h = graph()
      h.add_edges([('c', 'a')])
      u = est.get_score_from_graph(g, 'a')
      v = est.get_score_from_graph(h, 'a')
      return (u, v, est.get_score_from_graph(g, 'a'))
      """, "return (spec('a', ['b'], al, tau), spec('a', ['c'], al, tau), spec('a', ['b'], al, tau))")
ncase('two estimators in turn', 'abc', """
      g = graph()
      g.add_edges([('b', 'a')])
      other = StructureScoreBasedEstimator(src, tau_xu=tau2, alpha_xu=al2)
      u = est.get_score_from_graph(g, 'a')
      v = other.get_score_from_graph(g, 'a')
      return (u, v, est.get_score_from_graph(g, 'a'))
      """, "return (spec('a', ['b'], al, tau), spec('a', ['b'], al2, tau2), spec('a', ['b'], al, tau))")
ncase('two variables with the same parent', 'abc', """
      g = graph()
      g.add_edges([('c', 'a'), ('c', 'b')])
      u = est.get_score_from_graph(g, 'a')
      v = est.get_score_from_graph(g, 'b')
      return (u, v, est.get_score_from_graph(g, 'a'))
      """, "return (spec('a', ['c'], al, tau), spec('b', ['c'], al, tau), spec('a', ['c'], al, tau))")
ncase('every variable without parents', 'abc', """
      g = graph()
      return [est.get_score_from_graph(g, x) for x in 'cab']
      """, "return [spec(x, [], al, tau) for x in 'cab']")
ncase('a parent exchanged for a child', 'ab', """
      g = graph()
      g.add_edges([('b', 'a')])
      u = (est.get_score_from_graph(g, 'a'), est.get_score_from_graph(g, 'b'))
      g.remove_edges([('b', 'a')])
      g.add_edges([('a', 'b')])
      return (u, est.get_score_from_graph(g, 'a'), est.get_score_from_graph(g, 'b'), g.edges)
      """, "return ((spec('a', ['b'], al, tau), spec('b', [], al, tau)), spec('a', [], al, tau), spec('b', ['a'], al, tau), [('a', 'b')])")
