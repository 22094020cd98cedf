"""NetworkGraph, parent-configuration tables, sufficient statistics."""
from . import prop
from ..harness import *


def net(a, tag=''):
    """a well-formed network description: labels, indexes, cardinalities, edges between the labels"""
    n = a.int('n' + tag, 1)
    V = a.labels('V' + tag, n)
    I = a.arrsym('I' + tag, (n,), 'int', 0)
    C = a.arrsym('C' + tag, (n,), 'int', 1)
    E = sym('E' + tag, ('list', ('pair', 'str', 'str')))
    v = fresh(length_of(E))
    x = a.str('x' + tag)
    KNOWN_MEMB.add((x, V))
    a.assume = [make_all([v], (and_(memb(at(at(E, v), ZERO), V), memb(at(at(E, v), ONE), V)),))]
    return dict(n=n, V=V, I=I, C=C, E=E, x=x)


def env_of(a, s):
    return dict(V=a.lst(s['V']), I=a.arr(s['I']), C=a.arr(s['C']), E=a.lst(s['E']), n=s['n'], x=s['x'])


GRAPH = '''
s = Structure(V, I, C, E, n)
g = NetworkGraph(s)
g.fast_init(x)
'''
PARENTS = '''
P = [v for v in V if (v, x) in E]
'''


@prop('C29', 'parents in label order')
def parents(ctx):
    a = ctx.analysis()
    s = net(a)
    u = a.str('u')
    got = a.run(GRAPH + 'return g.get_ordered_by_indx_set_of_parents(x)', **env_of(a, s))
    want = a.run(PARENTS + 'return (P, [I[V.index(p)] for p in P], [C[V.index(p)] for p in P])', **env_of(a, s))
    a.match('labels, indexes, cardinalities', got, want)
    a = ctx.analysis()
    s = net(a)
    KNOWN_MEMB.add((u, s['V']))
    got = a.run('g = NetworkGraph(Structure(V, I, C, E, n))\ng.add_nodes(V)\ng.add_edges(E)\n'
                'return (g.get_node_indx(u), g.get_states_number(u), g.get_positional_node_indx(u), g.nodes)', u=u, **env_of(a, s))
    want = a.run('return (I[V.index(u)], C[V.index(u)], V.index(u), V)', u=u, **env_of(a, s))
    a.match('lookups by label', got, want)
    got = a.run('g = NetworkGraph(Structure(V, I, C, E, n))\ng.add_nodes(V)\ng.add_edges(E)\n'
                'return (set(g.get_parents_by_id(x)), set(g.edges), g.has_edge((u, x)))', u=u, **env_of(a, s))
    want = a.run(PARENTS + 'return (set(P), set(E), (u, x) in E)', u=u, **env_of(a, s))
    a.match('parents and edges', got, want)
    # edges changed after construction
    w = a.str('w')
    KNOWN_MEMB.add((w, s['V']))
    got = a.run('g = NetworkGraph(Structure(V, I, C, E, n))\ng.add_nodes(V)\ng.add_edges(E)\n'
                'g.add_edges([(u, x)])\ng.remove_edges([(w, x)])\n'
                'return g.get_ordered_by_indx_set_of_parents(x)', u=u, w=w, **env_of(a, s))
    want = a.run('P = [v for v in V if ((v, x) in E or v == u) and v != w]\n'
                 'return (P, [I[V.index(p)] for p in P], [C[V.index(p)] for p in P])', u=u, w=w, **env_of(a, s))
    a.match('after edges were added and removed', got, want)


@prop('C28', 'graph removal')
def graph_removal(ctx):
    a = ctx.analysis()
    s = net(a)
    u, w = a.str('u'), a.str('w')
    for z in (u, w):
        KNOWN_MEMB.add((z, s['V']))
    a.assume += [ne(u, w), ne(u, s['x'])]
    got = a.run('g = NetworkGraph(Structure(V, I, C, E, n))\ng.add_nodes(V)\ng.add_edges(E)\ng.remove_node(u)\n'
                'return (g.nodes, set(g.edges), g.get_node_indx(w), g.get_states_number(w), list(g.nodes_indexes), list(g.nodes_values))',
                u=u, w=w, **env_of(a, s))
    want = a.run('return ([v for v in V if v != u], set([e for e in E if e[0] != u and e[1] != u]), I[V.index(w)], C[V.index(w)],'
                 '[I[i] for i in range(n) if V[i] != u], [C[i] for i in range(n) if V[i] != u])', u=u, w=w, **env_of(a, s))
    a.match('labels, edges, lookups', got, want, under=and_(ne(u, w)))
    got = a.run('g = NetworkGraph(Structure(V, I, C, E, n))\ng.add_nodes(V)\ng.add_edges(E)\ng.remove_node(u)\n'
                'return g.get_ordered_by_indx_set_of_parents(x)', u=u, w=w, **env_of(a, s))
    want = a.run('P = [v for v in V if (v, x) in E and v != u]\n'
                 'return (P, [I[V.index(p)] for p in P], [C[V.index(p)] for p in P])', u=u, w=w, **env_of(a, s))
    a.match('parents of the others', got, want, under=and_(ne(u, s['x'])))


# ------------------------------------------------------------------ C08
@prop('C08', 'configuration table')
def table(ctx):
    a = ctx.analysis()
    k = a.int('k', 1)
    c = sym('c', ('list', 'int', k), 1)
    LOWER[c] = 1
    got = a.run('return NetworkGraph.build_p_comb_structure_for_a_node(c)', c=a.lst(c))
    r, q = fresh(None, 'r'), fresh(None, 'q')
    r, q = a.int('r', 0), a.int('q', 0)
    i = fresh(k)
    rows = make_prod([i], (at(c, i),))
    a.assume = [lt(r, rows), lt(q, k)]
    inr = and_(*a.assume)
    j = fresh(q)
    want_cell = mod(fdiv(r, make_prod([j], (at(c, j),))), at(c, q))
    if got.val.op != 'arr' and arr_dims(got.val) is None:
        a.undecided('shape', 'no array value')
    else:
        ds = arr_dims(got.val)
        a.settle('shape', [('rank', num(len(ds)), num(2)), ('rows', ds[0], rows), ('columns', ds[-1], k)], under=got.ok)
        if len(ds) == 2:
            a.settle('row r is the mixed-radix expansion of r, first parent fastest',
                     [('cell', vg.cell(got.val, r, q), want_cell)], under=and_(got.ok, inr))
    a.true('no refusal', got.ok)
    for m in (1, 2, 3):
        a = ctx.analysis()
        cs = [a.int('c%d' % z, 1) for z in range(m)]
        got = a.run('return NetworkGraph.build_p_comb_structure_for_a_node([%s])' % ', '.join('c%d' % z for z in range(m)),
                    **{'c%d' % z: cs[z] for z in range(m)})
        a.assume = [lt(r, mul(*cs))]
        want = []
        base = ONE
        for z in range(m):
            want.append(mod(fdiv(r, base), cs[z]))
            base = mul(base, cs[z])
        ds = arr_dims(got.val)
        if ds is None or len(ds) != 2:
            a.undecided('%d parents' % m, 'no array value')
            continue
        a.settle('%d parents' % m, [('rows', ds[0], mul(*cs)), ('columns', ds[1], num(m))] +
                 [('column %d' % z, vg.cell(got.val, r, num(z)), want[z]) for z in range(m)],
                 under=and_(got.ok, a.assume[0]))
    for cards in ([1], [3], [2, 3], [3, 2], [2, 2, 2], [1, 3, 2], [3, 1, 2], [4, 1, 2, 3]):
        a = ctx.analysis()
        rows = 1
        for z in cards:
            rows *= z
        table_, base = [], 1
        for r_ in range(rows):
            row, rest = [], r_
            for z in cards:
                row.append(rest % z)
                rest //= z
            table_.append(row)
        got = a.run('t = NetworkGraph.build_p_comb_structure_for_a_node(%r)\nreturn (t.shape, t.tolist())' % cards)
        want = a.run('return ((%d, %d), %r)' % (rows, len(cards), table_))
        a.match('cardinalities %s' % ' '.join(map(str, cards)), got, want)
    a = ctx.analysis()
    got = a.run('t = NetworkGraph.build_p_comb_structure_for_a_node([])\nreturn t.shape')
    want = a.run('return (1, 0)')
    a.match('no parents', got, want)


# ------------------------------------------------------------------ C06, C07
def data_inputs(a):
    """network plus processed data: W variables in the file, the node's columns at I, states below the cardinality"""
    s = net(a)
    W = a.int('W', 1)
    N = a.int('N', 0)
    t = a.arrsym('t', (N,), 'num', 0)
    D = a.arrsym('D', (N, mul(num(2), W)), 'int')
    s.update(W=W, N=N, t=t, D=D, r=a.int('r', 0), p=a.int('p', 0), q=a.int('q', 0))
    n, I, C = s['n'], s['I'], s['C']
    v, d = fresh(n), fresh(s['N'])
    a.assume += [make_all([v], (lt(cell(I, v), W),)), le(n, W)]

    def hint_I(m, env):
        w = int(m.ev(W))
        k = int(m.ev(n))
        if k > w:
            raise evalterm.Reject()
        xs = m.rnd.sample(range(w), k)
        return evalterm.ArrV([k], {(i,): evalterm.Q(x) for i, x in enumerate(xs)})

    def hint_D(m, env):
        w, k, rows = int(m.ev(W)), int(m.ev(n)), int(m.ev(N))
        iv, cv = m.ev(I), m.ev(C)
        card = {int(iv.items[(z,)]): int(cv.items[(z,)]) for z in range(k)}
        out = {}
        for r in range(rows):
            for c in range(2 * w):
                top = card.get(c % w, 2) - 1
                x = m.rnd.randint(0, top)
                out[(r, c)] = evalterm.Q(x)
            if r == rows - 1 and rows:
                for c in range(w, 2 * w):
                    out[(r, c)] = evalterm.Q(-1)
        return evalterm.ArrV([rows, 2 * w], out)

    def hint_E(m, env):
        ls = m.ev(s['V'])
        tgt = m.ev(s['x'])
        out = [(y, tgt) for y in ls if y != tgt and m.rnd.random() < .6]
        out += [(m.rnd.choice(ls), m.rnd.choice(ls)) for _ in range(m.rnd.randint(0, 2))]
        m.rnd.shuffle(out)
        return tuple(dict.fromkeys(out))

    def below(t):
        def h(m, env):
            hi = int(m.ev(t))
            if hi < 1:
                raise evalterm.Reject()
            return evalterm.Q(m.rnd.randrange(hi))
        return h
    Q = evalterm.Q
    sx = cell(C, idx(s['V'], s['x']))
    h = {I: hint_I, D: hint_D, s['E']: hint_E, N: lambda m, env: Q(m.rnd.randint(0, 14)),
         s['n']: lambda m, env: Q(m.rnd.randint(1, 3)), W: lambda m, env: m.ev(n) + m.rnd.randint(0, 2),
         C: lambda m, env: evalterm.ArrV([int(m.ev(n))], {(z,): Q(m.rnd.choice([1, 2, 2, 3])) for z in range(int(m.ev(n)))}),
         s['p']: below(sx), s['q']: below(sx)}
    return s, h, below


STATS = GRAPH.replace('V, I, C, E, n', 'V, I, C, E, W') + '''
e = ParametersEstimator(Trajectory([t, D], W + 1), g)
e.fast_init(x)
s = e.compute_parameters_for_node(x)
'''
# reference: columns and cardinalities of the parents; a row contributes to the entry whose mixed-radix number
# (variable first, then the parents in label order, first parent fastest) is the one of its states
CONFIG = PARENTS + '''
cols = [I[V.index(v)] for v in P]
card = [C[V.index(v)] for v in P]
ix = I[V.index(x)]
sx = C[V.index(x)]
config = math.prod(card)
def radix(row):
    return D[row, ix] + sx * sum([D[row, cols[k]] * math.prod([card[j] for j in range(k)]) for k in range(len(P))])
'''


@prop('C06', 'residence times')
def residence(ctx):
    a = ctx.analysis()
    s, hints, below = data_inputs(a)
    env = env_of(a, s)
    env.update(t=a.arr(s['t']), D=a.arr(s['D']), W=s['W'], r=s['r'], p=s['p'])
    got = a.run(STATS + 'return (len(s.actual_cims), s.actual_cims[r].state_residence_times[p])', a.st.fork(), **env)
    want = a.run(CONFIG + '''
tot = 0
for row in range(len(t)):
    if radix(row) == p + sx * r:
        tot += t[row]
return (config, tot)
''', a.st.fork(), **env)
    hints[s['r']] = below(a.run(CONFIG + 'return config', a.st.fork(), **env).val)
    inr = a.run(CONFIG + 'return r < config and p < sx', a.st.fork(), **env)
    a.match('times', got, want, under=vg.truth(inr.val), hints=hints, trials=80)


@prop('C07', 'transition counts')
def transitions(ctx):
    a = ctx.analysis()
    s, hints, below = data_inputs(a)
    env = env_of(a, s)
    env.update(t=a.arr(s['t']), D=a.arr(s['D']), W=s['W'], r=s['r'], p=s['p'], q=s['q'])
    hints[s['r']] = below(a.run(CONFIG + 'return config', a.st.fork(), **env).val)
    inr = a.run(CONFIG + 'return r < config and p < sx and q < sx', a.st.fork(), **env)
    got = a.run(STATS + 'return (len(s.actual_cims), s.actual_cims[r].state_transition_matrix[p, q])', a.st.fork(), **env)
    want = a.run(CONFIG + '''
def count(p, q):
    tot = 0
    for row in range(len(t)):
        if D[row, W + ix] >= 0:
            if D[row, W + ix] + sx * radix(row) == q + sx * (p + sx * r):
                tot += 1
    return tot
if p == q:
    return (config, sum([count(p, z) for z in range(sx) if z != p]))
return (config, count(p, q))
''', a.st.fork(), **env)
    a.match('counts', got, want, under=vg.truth(inr.val), hints=hints, trials=120)


# ------------------------------------------------------------------ named networks: a fixed number of labelled variables with
# any cardinalities and any data, prepared and edited in a given order
def named(a, labels, rows=None):
    """V, I concrete; cardinalities, times and data symbolic"""
    k = len(labels)
    N = a.int('N', 0)
    C = a.arrsym('C', (num(k),), 'int', 1)
    t = a.arrsym('t', (N,), 'num', 0)
    D = a.arrsym('D', (N, num(2 * k)), 'int')
    Q = evalterm.Q
    big = []

    def hint_C(m, env):
        pool = m.rnd.choice([(2, 3), (2, 3), (1, 2), (2, 3, 5), (11, 13, 17)] + [(211, 223)] * m.big)
        return evalterm.ArrV([k], {(z,): Q(m.rnd.choice(pool)) for z in range(k)})

    def hint_D(m, env):
        rows, cv = int(m.ev(N)), m.ev(C)
        out = {}
        for r in range(rows):
            for c in range(2 * k):
                out[(r, c)] = Q(m.rnd.randint(0, int(cv.items[(c % k,)]) - 1))
            if r == rows - 1 and rows:
                for c in range(k, 2 * k):
                    out[(r, c)] = Q(-1)
        return evalterm.ArrV([rows, 2 * k], out)

    def below(t):
        def h(m, env):
            hi = int(m.ev(t))
            if hi < 1:
                raise evalterm.Reject()
            return Q(m.rnd.randrange(hi))
        return h
    hints = {C: hint_C, D: hint_D, N: lambda m, env: Q(m.rnd.randint(0, 14))}
    v, d = fresh(num(k)), fresh(N)
    env = dict(C=a.arr(C), t=a.arr(t), D=a.arr(D))
    head = 'V = %r\nI = np.arange(%d)\nW = n = %d\n' % (list(labels), k, k)
    return dict(C=C, N=N, t=t, D=D, k=k), env, hints, below, head


NAMED_SPEC = '''
def expect(x, P, r, p, q):
    cols = [V.index(v) for v in P]
    card = [C[c] for c in cols]
    ix = V.index(x)
    sx = C[ix]
    def radix(row):
        return D[row, ix] + sx * sum([D[row, cols[k]] * math.prod([card[j] for j in range(k)]) for k in range(len(cols))])
    tot = 0
    for row in range(len(t)):
        if radix(row) == p + sx * r:
            tot += t[row]
    def count(p, q):
        tot = 0
        for row in range(len(t)):
            if D[row, n + ix] >= 0:
                if D[row, n + ix] + sx * radix(row) == q + sx * (p + sx * r):
                    tot += 1
        return tot
    return (math.prod(card), tot, sum([count(p, z) for z in range(sx) if z != p]) if p == q else count(p, q))
def statistics(g, x):
    g.fast_init(x)
    e = ParametersEstimator(Trajectory([t, D], W + 1), g)
    e.fast_init(x)
    return e.compute_parameters_for_node(x)
def entry(s, r, p, q):
    return (len(s.actual_cims), s.actual_cims[r].state_residence_times[p], s.actual_cims[r].state_transition_matrix[p, q])
'''

HISTORIES = {
    'no parents': ('bad', 'a', [], """
        g = graph()
        s = statistics(g, 'a')
        """),
    'one parent': ('abc', 'b', ['c'], """
        g = graph()
        g.add_edges([('c', 'b')])
        s = statistics(g, 'b')
        """),
    'two parents, last one first': ('abcd', 'b', ['a', 'd'], """
        g = graph()
        g.add_edges([('d', 'b')])
        g.add_edges([('a', 'b')])
        s = statistics(g, 'b')
        """),
    'three parents': ('abcd', 'c', ['a', 'b', 'd'], """
        g = graph()
        g.add_edges([('b', 'c'), ('d', 'c'), ('a', 'c')])
        s = statistics(g, 'c')
        """),
    'parents exchanged between two computations': ('abcde', 'a', ['d', 'e'], """
        g = graph()
        g.add_edges([('b', 'a'), ('c', 'a')])
        statistics(g, 'a')
        g.remove_edges([('b', 'a'), ('c', 'a')])
        g.add_edges([('d', 'a'), ('e', 'a')])
        s = statistics(g, 'a')
        """),
    'one of two parents exchanged': ('abcd', 'a', ['b', 'd'], """
        g = graph()
        g.add_edges([('b', 'a'), ('c', 'a')])
        statistics(g, 'a')
        g.remove_edges([('c', 'a')])
        g.add_edges([('d', 'a')])
        s = statistics(g, 'a')
        """),
    'another variable computed before': ('abcd', 'a', ['b'], """
        g = graph()
        g.add_edges([('b', 'a'), ('c', 'd')])
        statistics(g, 'd')
        s = statistics(g, 'a')
        """),
    'edges before the nodes': ('abcd', 'a', ['b', 'c'], """
        g = NetworkGraph(Structure(V, I, C, [], W))
        g.add_edges([('c', 'a')])
        g.add_edges([('b', 'a')])
        s = statistics(g, 'a')
        """),
    'edges of the description': ('abcd', 'a', ['b', 'd'], """
        g = NetworkGraph(Structure(V, I, C, [('d', 'a'), ('a', 'c'), ('b', 'a')], W))
        s = statistics(g, 'a')
        """),
    'a parent removed from the network': ('abcd', 'd', ['a', 'c'], """
        g = NetworkGraph(Structure(list(V), I, C, [('a', 'd'), ('b', 'd'), ('c', 'd')], W))
        statistics(g, 'd')
        g.remove_node('b')
        s = statistics(g, 'd')
        """),
    'a network over some of the variables': ('abcd', 'd', ['b'], """
        g = NetworkGraph(Structure(['b', 'd'], np.array([1, 3]), np.array([C[1], C[3]]), [('b', 'd')], W))
        s = statistics(g, 'd')
        """),
    'same data used by another computation': ('abc', 'a', ['b'], """
        h = graph()
        h.add_edges([('c', 'b'), ('a', 'b')])
        statistics(h, 'b')
        g = graph()
        g.add_edges([('b', 'a')])
        s = statistics(g, 'a')
        """),
}
NAMED_GRAPH = '''
def graph():
    g = NetworkGraph(Structure(V, I, C, [], W))
    g.add_nodes(V)
    return g
'''


def named_case(name):
    labels, x, P, client = HISTORIES[name]

    def run(a, tail):
        s, env, hints, below, head = named(a, labels)
        r, p, q = a.int('r', 0), a.int('p', 0), a.int('q', 0)
        at_ = lambda l: cell(s['C'], num(labels.index(l)))
        rows = mul(ONE, *[at_(l) for l in P])
        ix, cols = labels.index(x), [labels.index(l) for l in P]

        def row(m):
            """a row of the data (most of the time)"""
            if not hasattr(m, 'row'):
                n = int(m.ev(s['N']))
                m.row = m.rnd.randrange(n) if n and m.rnd.random() < .7 else None
            return m.row

        def seen(at, other):
            def h(m, env):
                j = row(m)
                if j is None:
                    return other(m, env)
                cell_ = lambda c: int(m.ev(s['D']).items[(j, c)])
                v = at(cell_, [int(m.ev(s['C']).items[(c,)]) for c in range(s['k'])])
                return evalterm.Q(v) if v >= 0 else other(m, env)
            return h

        def config(cell_, card):
            v = 0
            for c in reversed(cols):
                v = v * card[c] + cell_(c)
            return v
        hints.update({r: seen(config, below(rows)), p: seen(lambda c, card: c(ix), below(at_(x))),
                      q: seen(lambda c, card: c(s['k'] + ix), below(at_(x)))})
        if not P:
            r = ZERO
        env.update(r=r, p=p, q=q)
        head += NAMED_SPEC + NAMED_GRAPH
        inr = and_(lt(r, rows), lt(p, at_(x)), lt(q, at_(x)))
        got = a.run(head + textwrap.dedent(client) + tail, a.st.fork(), **env)
        return head, env, hints, inr, got

    def residence_(ctx):
        a = ctx.analysis()
        head, env, hints, inr, got = run(a, 'return entry(s, r, p, q)[:2]')
        want = a.run(head + 'return expect(%r, %r, r, p, q)[:2]' % (x, P), a.st.fork(), **env)
        a.match(name, got, want, under=inr, hints=hints, trials=60)

    def counts_(ctx):
        a = ctx.analysis()
        head, env, hints, inr, got = run(a, 'z = entry(s, r, p, q)\nreturn (z[0], z[2])')
        want = a.run(head + 'z = expect(%r, %r, r, p, q)\nreturn (z[0], z[2])' % (x, P), a.st.fork(), **env)
        a.match(name, got, want, under=inr, hints=hints, trials=60)

    def table_(ctx):
        a = ctx.analysis()
        head, env, hints, inr, got = run(a, 'return (g.p_combs.shape, [g.p_combs[r, z] for z in range(%d)])' % len(P))
        want = a.run(head + """
P = %r
card = [C[V.index(v)] for v in P]
return ((math.prod(card), len(P)), [r // math.prod(card[:z]) %% card[z] for z in range(len(P))])
""" % P, a.st.fork(), **env)
        a.match(name, got, want, under=inr, hints=hints, trials=60)
    def parents_(ctx):
        a = ctx.analysis()
        head, env, hints, inr, got = run(a, 'return (g.get_ordered_by_indx_set_of_parents(%r), [(g.get_node_indx(v), g.get_states_number(v)) '
                                            'for v in g.nodes])' % x)
        gone = 'b' if 'removed' in name else ''
        some = 'bd' if 'some' in name else labels
        want = a.run(head + 'P = %r\nreturn ((P, [V.index(v) for v in P], [C[V.index(v)] for v in P]), '
                            '[(V.index(v), C[V.index(v)]) for v in V if v in %r and v not in %r])' % (P, list(some), list(gone)),
                     a.st.fork(), **env)
        a.match(name, got, want, under=inr, hints=hints, trials=60)
    prop('C29', 'named network')(parents_)
    prop('C06', 'named network')(residence_)
    prop('C07', 'named network')(counts_)
    prop('C08', 'named network')(table_)


for _name in HISTORIES:
    named_case(_name)
