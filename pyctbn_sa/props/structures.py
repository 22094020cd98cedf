"""Structure, Cache, ConditionalIntensityMatrix, SetOfCims."""
from . import prop
from ..harness import *


# ------------------------------------------------------------------ C22
@prop('C22', 'cache relation')
def cache_relation(ctx):
    """find after any put sequence: the entry stored first for an equal set since the last clear"""
    ref = '''
    for k in range(len(keys)):
        if keys[k] == q:
            return vals[k]
    return None
    '''
    a = ctx.analysis()
    q = a.opaque('q', 'set')
    s = [a.opaque('s%d' % i, 'set') for i in range(3)]
    v = [a.opaque('v%d' % i, ('obj', lambda t, n: None)) for i in range(3)]
    env = dict(s0=s[0], s1=s[1], s2=s[2], v0=v[0], v1=v[1], v2=v[2], q=q)
    base = a.st
    got = a.run('c = Cache()\nreturn c.find(q)', base.fork(), **env)
    a.match('empty cache finds nothing', got, a.run('return None', base.fork()))
    for n in (1, 2, 3):
        puts = '\n'.join('c.put(s%d, v%d)' % (i, i) for i in range(n))
        got = a.run('c = Cache()\n%s\nreturn c.find(q)' % puts, base.fork(), **env)
        want = a.run('keys = [%s]\nvals = [%s]\n' % (', '.join('s%d' % i for i in range(n)),
                                                      ', '.join('v%d' % i for i in range(n))) + textwrap.dedent(ref),
                     base.fork(), **env)
        a.match('first stored value after %d puts' % n, got, want)
    got = a.run('c = Cache()\nc.put(s0, v0)\nc.put(s1, v1)\nc.clear()\nreturn c.find(q)', base.fork(), **env)
    a.match('nothing is found after clear', got, a.run('return None', base.fork()))
    got = a.run('c = Cache()\nc.put(s0, v0)\nc.clear()\nc.put(s1, v1)\nreturn c.find(q)', base.fork(), **env)
    a.match('clear then put', got, a.run('return v1 if s1 == q else None', base.fork(), **env))
    got = a.run('c = Cache()\nc.put(s0, v0)\nx = c.find(q)\nc.put(s1, v1)\nreturn (c.find(q), c.find(s0), x)', base.fork(), **env)
    a.match('find changes nothing', got, a.run('return (v0 if s0 == q else (v1 if s1 == q else None), v0, v0 if s0 == q else None)',
                                               base.fork(), **env))
    got = a.run('c = Cache()\nd = Cache()\nc.put(s0, v0)\nreturn (d.find(q), c.find(q))', base.fork(), **env)
    a.match('caches are separate', got, a.run('return (None, v0 if s0 == q else None)', base.fork(), **env))
    # any number of puts
    n = a.int('n', 0)
    K = a.opaque('K', ('list', 'set', n))
    W = a.opaque('W', ('list', None, n))
    k1, w1 = a.lst(K), a.lst(W)
    got = a.run('''
        c = Cache()
        for i in range(n):
            c.put(K[i], W[i])
        return c.find(q)
    ''', a.st.fork(), K=k1, W=w1, n=n, q=q)
    want = a.run('''
        if q in K:
            return W[K.index(q)]
        return None
    ''', a.st.fork(), K=k1, W=w1, n=n, q=q)
    a.match('any number of puts', got, want)


@prop('C22', 'label sets')
def label_sets(ctx):
    """keys that are sets of labels, as the estimators use them"""
    words = ('a', 'b', 'c', 'ab', 'bc', 'abc', 'a b', 'a,b', "a', 'b", '1', '2', '12')
    for n, m in ((1, 1), (2, 1), (1, 2), (2, 2), (0, 1), (3, 2)):
        a = ctx.analysis()
        ks = [a.str('k%d' % i) for i in range(n)]
        qs = [a.str('q%d' % i) for i in range(m)]
        v = a.opaque('v', ('obj', lambda t, n: None))
        hints = {s: (lambda mod, env: mod.rnd.choice(words)) for s in ks + qs}
        env = dict(v=v, **{'k%d' % i: k for i, k in enumerate(ks)}, **{'q%d' % i: q for i, q in enumerate(qs)})
        K = 'set([%s])' % ', '.join('k%d' % i for i in range(n))
        P = 'set([%s])' % ', '.join('q%d' % i for i in range(m))
        got = a.run('c = Cache()\nc.put(%s, v)\nreturn c.find(%s)' % (K, P), a.st.fork(), **env)
        want = a.run('return v if %s == %s else None' % (K, P), a.st.fork(), **env)
        a.match('%d labels stored, %d asked' % (n, m), got, want, hints=hints, trials=400)
    for K, P in ((['X1', '2'], ['X12']), (['a', 'bc'], ['ab', 'c']), (['a', 'b'], ['b', 'a']), (['a'], ['a', 'b']), (['a', 'b'], ['a']),
                 ([], []), ([], ['']), (['a, b'], ['a', 'b']), (['X1', 'X2', 'X3'], ['X3', 'X1', 'X2']), (['X1', 'X2'], ['X1', 'X3']),
                 (['x'], ['X']), (['1', '0'], ['10']), (['a', 'b', 'c'], ['a', 'b', 'c', 'd']), (['a', 'b', 'c', 'd'], ['b', 'c', 'd']),
                 (['a', 'b', 'c', 'd'], ['a', 'b', 'c', 'e']), (['a', 'b', 'c', 'd', 'e', 'f'], ['f', 'e', 'd', 'c', 'b', 'a']),
                 (list('abcdefgh'), list('abcdefg')), (list('abcdefg'), list('abcdefgh')), (list('abcdefgh'), list('abcdefgi'))):
        a = ctx.analysis()
        v = a.opaque('v', ('obj', lambda t, n: None))
        got = a.run('c = Cache()\nc.put(set(%r), v)\nreturn c.find(set(%r))' % (K, P), v=v)
        a.match('stored %s, asked %s' % (K, P), got, a.run('return v if %r else None' % (set(K) == set(P)), v=v))


@prop('C22', 'many sets')
def many_sets(ctx):
    """as many different parent sets as a search over many variables meets"""
    for n in (40, 150, 300) + ((1100,) if ctx.tier == 'thorough' else ()):
        a = ctx.analysis()
        a.it.unroll = n + 10
        vs = [a.opaque('v%d' % i, ('obj', lambda t, n: None)) for i in range(n)]
        env = {'v%d' % i: v for i, v in enumerate(vs)}
        head = 'c = Cache()\n' + ''.join('c.put(set(%r), v%d)\n' % (['x%d' % i, 'x%d' % (i // 2)], i) for i in range(n))
        asked = [0, 1, 2, n // 2, n - 2, n - 1]
        got = a.run(head + 'return [%s]' % ', '.join('c.find(set(%r))' % ['x%d' % (i // 2), 'x%d' % i] for i in asked), a.st.fork(), **env)
        a.match('%d sets stored' % n, got, a.run('return [%s]' % ', '.join('v%d' % i for i in asked), a.st.fork(), **env))


# ------------------------------------------------------------------ C28
STRUCT_REF = '''
p = V.index(x)
keep = [i for i in range(n) if i != p]
V2 = [V[i] for i in keep]
I2 = [I[i] for i in keep]
C2 = [C[i] for i in keep]
E2 = [e for e in E if e[0] != x and e[1] != x]
'''


def struct_inputs(a, tag=''):
    n = a.int('n' + tag, 0)
    V = a.labels('V' + tag, n)
    I = a.arrsym('I' + tag, (n,), 'int', 0)
    C = a.arrsym('C' + tag, (n,), 'int', 1)
    E = sym('E' + tag, ('list', ('pair', 'str', 'str')))
    return dict(n=n, V=V, I=I, C=C, E=E)


def struct_env(a, s):
    return dict(V=a.lst(s['V']), I=a.arr(s['I']), C=a.arr(s['C']), E=a.lst(s['E']), n=s['n'])


@prop('C28', 'removal')
def removal(ctx):
    a = ctx.analysis()
    s = struct_inputs(a)
    x, y, z = a.str('x'), a.str('y'), a.str('z')
    k = a.int('k', 0)

    def both(name, client, ref, **kw):
        got = a.run('s = Structure(V, I, C, E, n)\n' + textwrap.dedent(client), a.st.fork(), x=x, y=y, z=z, k=k, **kw)
        want = a.run(textwrap.dedent(ref), a.st.fork(), x=x, y=y, z=z, k=k, **kw)
        a.match(name, got, want)
    env = lambda: struct_env(a, s)
    R = textwrap.dedent(STRUCT_REF)
    both('labels', 's.remove_node(x)\nreturn s.nodes_labels', R + 'return V2', **env())
    both('indexes', 's.remove_node(x)\nreturn list(s.nodes_indexes)', R + 'return I2', **env())
    both('cardinalities', 's.remove_node(x)\nreturn list(s.nodes_values)', R + 'return C2', **env())
    both('edges', 's.remove_node(x)\nreturn s.edges', R + 'return E2', **env())
    both('total', 's.remove_node(x)\nreturn s.total_variables_number', R + 'return n', **env())
    both('index of another variable', 's.remove_node(x)\nreturn s.get_node_indx(y)',
         'V.index(x)\nif x == y:\n    raise ValueError("")\nreturn I[V.index(y)]', **env())
    both('cardinality of another variable', 's.remove_node(x)\nreturn s.get_states_number(y)',
         'V.index(x)\nif x == y:\n    raise ValueError("")\nreturn C[V.index(y)]', **env())
    both('label at a position', 's.remove_node(x)\nreturn s.get_node_id(k)', R + 'return V2[k]', **env())
    both('position', 's.remove_node(x)\nreturn s.get_positional_node_indx(y)', R + 'return V2.index(y)', **env())
    both('two removals: labels', 's.remove_node(x)\ns.remove_node(y)\nreturn s.nodes_labels',
         '''
         V.index(x)
         if x == y:
             raise ValueError('')
         V.index(y)
         return [v for v in V if v != x and v != y]
         ''', **env())
    both('two removals: edges', 's.remove_node(x)\ns.remove_node(y)\nreturn s.edges',
         '''
         V.index(x)
         if x == y:
             raise ValueError('')
         V.index(y)
         return [e for e in E if e[0] != x and e[1] != x and e[0] != y and e[1] != y]
         ''', **env())
    both('two removals: index', 's.remove_node(x)\ns.remove_node(y)\nreturn (s.get_node_indx(z), s.get_states_number(z))',
         '''
         V.index(x)
         if x == y:
             raise ValueError('')
         V.index(y)
         if z == x or z == y:
             raise ValueError('')
         return (I[V.index(z)], C[V.index(z)])
         ''', **env())


# edges of small networks: consecutive, at both ends, in both directions, none of them touching the variable
NETWORKS = [
    (('c', 'a', 'b'), [('a', 'b'), ('b', 'a'), ('a', 'c'), ('c', 'a')]),
    (('c', 'a', 'b'), [('b', 'c'), ('c', 'b')]),
    (('c', 'a', 'b'), []),
    (('a', 'ab', 'b', 'ba'), [('b', 'a'), ('a', 'ab'), ('ab', 'a'), ('ba', 'b'), ('a', 'b'), ('ab', 'ba'), ('ba', 'a'), ('b', 'ba')]),
    (('b', 'a', 'd', 'c'), [(x, y) for x in 'abcd' for y in 'dcba' if x != y]),
]


@prop('C28', 'written networks')
def written(ctx):
    for k, (V, E) in enumerate(NETWORKS):
        for x in V:
            for y in (None,) + tuple(v for v in V if v != x)[:1]:
                a = ctx.analysis()
                n = num(len(V))
                I, C = a.arrsym('I', (n,), 'int', 0), a.arrsym('C', (n,), 'int', 1)
                gone = [v for v in (x, y) if v is not None]
                head = 'V = %r\nE = %r\n' % (list(V), E)
                env = dict(I=a.arr(I), C=a.arr(C), n=n)
                steps = ''.join('s.remove_node(%r)\n' % v for v in gone)
                got = a.run(head + 's = Structure(V, I, C, E, n)\n' + steps +
                            'return (s.nodes_labels, list(s.nodes_indexes), list(s.nodes_values), s.edges, s.total_variables_number,'
                            ' [(s.get_node_indx(v), s.get_states_number(v), s.get_positional_node_indx(v)) for v in s.nodes_labels])',
                            a.st.fork(), **env)
                want = a.run(head + textwrap.dedent("""
                    gone = %r
                    kept = [i for i in range(n) if V[i] not in gone]
                    return ([V[i] for i in kept], [I[i] for i in kept], [C[i] for i in kept],
                            [e for e in E if e[0] not in gone and e[1] not in gone], n,
                            [(I[i], C[i], q) for q, i in enumerate(kept)])
                """) % gone, a.st.fork(), **env)
                a.match('network %d without %s' % (k, ' and '.join(gone)), got, want)


@prop('C28', 'lookups')
def lookups(ctx):
    a = ctx.analysis()
    s = struct_inputs(a)
    x, y = a.str('x'), a.str('y')
    k = a.int('k', 0)
    env = lambda: struct_env(a, s)

    def both(name, client, ref, **kw):
        got = a.run('s = Structure(V, I, C, E, n)\n' + textwrap.dedent(client), a.st.fork(), x=x, y=y, k=k, **kw)
        want = a.run(textwrap.dedent(ref), a.st.fork(), x=x, y=y, k=k, **kw)
        a.match(name, got, want)
    both('index', 'return s.get_node_indx(x)', 'return I[V.index(x)]', **env())
    both('cardinality', 'return s.get_states_number(x)', 'return C[V.index(x)]', **env())
    both('position', 'return s.get_positional_node_indx(x)', 'return V.index(x)', **env())
    both('label', 'return s.get_node_id(k)', 'return V[k]', **env())
    both('lists', 'return (s.nodes_labels, list(s.nodes_indexes), list(s.nodes_values), s.edges, s.total_variables_number)',
         'return (V, [I[i] for i in range(n)], [C[i] for i in range(n)], E, n)', **env())
    both('edge added', 's.add_edge((x, y))\nreturn (s.edges, s.contains_edge((x, y)))', 'return (E + [(x, y)], True)', **env())
    both('edge removed', 's.remove_edge((x, y))\nreturn s.edges', 'E.remove((x, y))\nreturn E', **env())
    both('edge membership', 'return s.contains_edge((x, y))', 'return (x, y) in E', **env())
    both('all edges removed', 's.clean_structure_edges()\nreturn (s.edges, s.nodes_labels, s.total_variables_number)',
         'return ([], V, n)', **env())


# ------------------------------------------------------------------ C09
@prop('C09', 'coefficients')
def coefficients(ctx):
    a = ctx.analysis()
    m = a.int('m', 1)
    M = a.arrsym('M', (m, m), 'int', 0)
    T = a.arrsym('T', (m,), 'num', 0)
    i, j = a.int('i', 0), a.int('j', 0)
    a.assume = [lt(i, m), lt(j, m)]
    inr = and_(*a.assume)
    got = a.run('''
        c = ConditionalIntensityMatrix(state_residence_times=T, state_transition_matrix=M)
        c.compute_cim_coefficients()
        return (c.cim[i, j], c.state_transition_matrix, c.state_residence_times, M, T)
    ''', M=a.arr(M), T=a.arr(T), i=i, j=j)
    want = a.run('''
        if i == j:
            q = (1 - M[i, i]) / (T[i] + 1)
        else:
            q = (M[i, j] + 1) / (T[i] + 1)
        return (q, M, T, M, T)
    ''', M=a.arr(M), T=a.arr(T), i=i, j=j)
    a.match('intensity, counts and times', got, want, under=inr)
    # counts held as real numbers, shared with the caller
    F = a.arrsym('F', (m, m), 'num', 0)
    got = a.run('''
        c = ConditionalIntensityMatrix(state_residence_times=T, state_transition_matrix=F)
        c.compute_cim_coefficients()
        return (c.cim[i, j], c.state_transition_matrix, c.state_residence_times, F, T)
    ''', F=a.arr(F), T=a.arr(T), i=i, j=j)
    want = a.run('''
        if i == j:
            q = (1 - F[i, i]) / (T[i] + 1)
        else:
            q = (F[i, j] + 1) / (T[i] + 1)
        return (q, F, T, F, T)
    ''', F=a.arr(F), T=a.arr(T), i=i, j=j)
    a.match('real-valued counts', got, want, under=inr)
    # two matrices over the same counts
    got = a.run('''
        c = ConditionalIntensityMatrix(T, M)
        d = ConditionalIntensityMatrix(T, M)
        c.compute_cim_coefficients()
        d.compute_cim_coefficients()
        return (c.cim[i, j], d.cim[i, j])
    ''', M=a.arr(M), T=a.arr(T), i=i, j=j)
    want = a.run('''
        q = (1 - M[i, i]) / (T[i] + 1) if i == j else (M[i, j] + 1) / (T[i] + 1)
        return (q, q)
    ''', M=a.arr(M), T=a.arr(T), i=i, j=j)
    a.match('two matrices over the same statistics', got, want, under=inr)
    # a given matrix is kept
    got = a.run('return (ConditionalIntensityMatrix(cim=F).cim, F)', F=a.arr(F))
    a.match('given matrix', got, a.run('return (F, F)', F=a.arr(F)))
    p = a.int('p', 1)
    Ms = a.arrsym('Ms', (p, m, m), 'int', 0)
    Ts = a.arrsym('Ts', (p, m), 'num', 0)
    r = a.int('r', 0)
    c1, c2 = a.int('c1', 1), a.int('c2', 1)
    tab = a.opaque('P', ('arr', (p, num(1)), 'int'))
    # a set of matrices built from the statistics
    b = ctx.analysis()
    b.assume = [lt(i, m), lt(j, m), lt(r, p)]
    inr = and_(*b.assume)
    ncard = sym('pc', ('list', 'int', a.int('np', 0)), 1)
    got = b.run('''
        s = SetOfCims('X', pc, m, P)
        s.build_cims(Ts, Ms)
        c = s.actual_cims[r]
        return (s.get_cims_number(), c.cim[i, j], c.state_transition_matrix, c.state_residence_times, Ms, Ts)
    ''', pc=b.lst(ncard), m=m, P=b.arr(tab), Ts=b.arr(Ts), Ms=b.arr(Ms), i=i, j=j, r=r)
    want = b.run('''
        if i == j:
            q = (1 - Ms[r, i, i]) / (Ts[r, i] + 1)
        else:
            q = (Ms[r, i, j] + 1) / (Ts[r, i] + 1)
        return (p, q, Ms[r], Ts[r], Ms, Ts)
    ''', m=m, p=p, Ts=b.arr(Ts), Ms=b.arr(Ms), i=i, j=j, r=r)
    b.match('set of matrices', got, want, under=inr)


@prop('C09', 'few matrices')
def few(ctx):
    for p, m in ((1, 2), (2, 2), (3, 2), (2, 3), (4, 3)):
        a = ctx.analysis()
        Ms = a.arrsym('Ms', (num(p), num(m), num(m)), 'int', 0)
        Ts = a.arrsym('Ts', (num(p), num(m)), 'num', 0)
        tab = a.opaque('P', ('arr', (num(p), num(1)), 'int'))
        env = dict(Ms=a.arr(Ms), Ts=a.arr(Ts), m=num(m), p=num(p), P=a.arr(tab))
        got = a.run("""
            s = SetOfCims('X', [p], m, P)
            s.build_cims(Ts, Ms)
            return (s.get_cims_number(),
                    [[[c.cim[i, j] for j in range(m)] for i in range(m)] for c in s.actual_cims],
                    [[[c.state_transition_matrix[i, j] for j in range(m)] for i in range(m)] for c in s.actual_cims],
                    [[c.state_residence_times[i] for i in range(m)] for c in s.actual_cims])
        """, a.st.fork(), **env)
        want = a.run("""
            return (p,
                    [[[(Ms[r, i, j] + 1) / (Ts[r, i] + 1) if i != j else (1 - Ms[r, i, i]) / (Ts[r, i] + 1) for j in range(m)]
                      for i in range(m)] for r in range(p)],
                    [[[Ms[r, i, j] for j in range(m)] for i in range(m)] for r in range(p)],
                    [[Ts[r, i] for i in range(m)] for r in range(p)])
        """, a.st.fork(), **env)
        Q = evalterm.Q

        def times(md, env, p=p, m=m):
            # configurations never seen, and configurations seen in some of the states only
            rows = [md.rnd.choice('0sd') for _ in range(p)]
            return evalterm.ArrV([p, m], {(r, i): Q(0) if rows[r] == '0' or rows[r] == 's' and md.rnd.random() < .5 else
                                          Q(md.rnd.randint(1, 9)) / Q(2) for r in range(p) for i in range(m)})
        a.match('%d configurations of %d states' % (p, m), got, want, hints={Ts: times})


# ------------------------------------------------------------------ C10
def many(m, e):
    # a number of parent configurations: small, or past the range of small integer types
    return evalterm.Q(m.rnd.randint(1, 6) if m.rnd.random() < .8 else m.rnd.choice((130, 260, 300)))


@prop('C10', 'selection')
def selection(ctx):
    ref = '''
    cols = [q for q in range(k) if mask[q]]
    return [L[r] for r in range(p) if all([P[r, cols[q]] == comb[q] for q in range(len(cols))])]
    '''
    for k in (2, 3, 4):
        for bits in range(1 << k):
            mask = [bool(bits >> q & 1) for q in range(k)]
            a = ctx.analysis()
            p, m = a.int('p', 1), a.int('m', 1)
            P = a.arrsym('P', (p, num(k)), 'int', 0)
            L = a.opaque('L', ('list', None, p))
            cs = [a.int('u%d' % q, 0) for q in range(sum(mask))]
            env = dict(P=a.arr(P), L=a.lst(L), m=m, p=p, k=num(k), **{'u%d' % q: c for q, c in enumerate(cs)})
            head = 'mask = np.array(%r)\ncomb = [%s]\n' % (mask, ', '.join('u%d' % q for q in range(len(cs))))
            got = a.run(head + "s = SetOfCims('X', [2] * k, m, P, np.array(L))\nreturn list(s.filter_cims_with_mask(mask, comb))",
                        a.st.fork(), **env)
            want = a.run(head + textwrap.dedent(ref), a.st.fork(), **env)
            a.match('%d parents, mask %s' % (k, ''.join('01'[b] for b in mask)), got, want, hints={p: many})
    for k in (0, 1):
        a = ctx.analysis()
        p, m = a.int('p', 1), a.int('m', 1)
        P = a.arrsym('P', (p, num(k)), 'int', 0)
        L = a.opaque('L', ('list', None, p))
        got = a.run("s = SetOfCims('X', [2] * k, m, P, np.array(L))\nreturn list(s.filter_cims_with_mask(np.array([True] * k), [u0] * k))",
                    P=a.arr(P), L=a.lst(L), m=m, k=num(k), u0=a.int('u0', 0))
        a.match('%d parents' % k, got, a.run('return L', L=a.lst(L)))
    # any number of parents
    a = ctx.analysis()
    p, m, k = a.int('p', 1), a.int('m', 1), a.int('k', 2)
    P = a.arrsym('P', (p, k), 'int', 0)
    K = a.arrsym('K', (k,), 'bool')
    L = a.opaque('L', ('list', None, p))
    v = fresh(k)
    U = a.arrsym('U', (make_sum([v], (ite(batom(vg.cell(K, v)), ONE, ZERO),)),), 'int', 0)
    env = dict(P=a.arr(P), L=a.lst(L), m=m, p=p, k=k, mask=a.arr(K), comb=a.arr(U))
    got = a.run("s = SetOfCims('X', [2] * k, m, P, np.array(L))\nreturn list(s.filter_cims_with_mask(mask, comb))", a.st.fork(), **env)
    want = a.run(ref, a.st.fork(), **env)
    a.match('any number of parents', got, want, hints={p: many})
