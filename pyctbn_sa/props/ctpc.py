"""Constraint-based search: which parents remain, for every outcome of the tests."""
from . import prop
from ..harness import *
from ..models import tonum


def test_stub(it, st, args, kwargs):
    """complete_test as an uninterpreted predicate of tested parent, child and separating set"""
    names = ('self', 'test_parent', 'test_child', 'parent_set', 'child_states_numb', 'tot_vars_count', 'parent_indx', 'child_indx')
    v = dict(zip(names, args))
    v.update(kwargs)
    S = it.deep(st, v['parent_set'])
    return vg._mapl(S, lambda l: vg.ufun('separated', 'bool', v['test_parent'], v['test_child'], canonical(it, st, l),
                                         tonum(v['child_states_numb']), tonum(v['tot_vars_count']), tonum(v['parent_indx']), tonum(v['child_indx'])))


def canonical(it, st, l):
    """a list of labels, whatever their order"""
    return vg.set_of_seq(as_seq(l))


CTPC_SPEC = '''
def separated(est, p, c, S):
    return est.complete_test(p, c, S, C[V.index(c)], n, V.index(p), V.index(c))
def ctpc(est, c, known):
    left = [v for v in V if v != c]
    b = 0
    while b < len(left):
        for p in [v for v in V if v != c]:
            if p in left and (p, c) not in known:
                others = [v for v in left if v != p]
                if any([separated(est, p, c, list(S)) for S in itertools.combinations(others, b)]):
                    left.remove(p)
        b += 1
    return left
'''


def case(labels, c, known, deep=False):
    name = '%d variables, child %s%s' % (len(labels), c, ', known ' + ' '.join('%s->%s' % e for e in known) if known else '')

    def one(ctx):
        from .graph import named
        if deep and ctx.tier == 'quick':
            return
        a = ctx.analysis(stubs={'StructureConstraintBasedEstimator.complete_test': test_stub})
        a.it.unroll = 30
        s_, env, hints, below, head = named(a, labels)
        head += 'est = StructureConstraintBasedEstimator(DataSource(Structure(V, I, C, [], n), Trajectory([t, D], n + 1), n, []), 0.1, 0.1, %r, 25)\n' % (known,)
        got = a.run(head + 'o = ConstraintBasedOptimizer(node_id=%r, structure_estimator=est, tot_vars_count=n)\n'
                    'return set(o.optimize_structure())' % c, a.st.fork(), **env)
        want = a.run(head + CTPC_SPEC + 'return set([(p, %r) for p in ctpc(est, %r, %r)])' % (c, c, known), a.st.fork(), **env)
        a.match(name, got, want, hints=hints, trials=200)
    prop('C19', name)(one)


case(['a', 'b'], 'a', [])
case(['a', 'b', 'c'], 'b', [])
case(['a', 'b', 'c'], 'c', [('a', 'c')])
case(['a', 'b', 'c'], 'c', [('c', 'a'), ('b', 'c')])
case(['d', 'b', 'c', 'a'], 'c', [('d', 'c')])
case(['d', 'b', 'c', 'a'], 'a', [])
case(['e', 'b', 'c', 'a', 'd'], 'c', [('b', 'c'), ('e', 'd')])
case(['e', 'b', 'c', 'a', 'd'], 'd', [], deep=True)


# ------------------------------------------------------------------ C22: the cache after a search
def cache_case(labels, c, known):
    name = 'cache after the search of %s among %d variables%s' % (c, len(labels), ' with known edges' if known else '')

    def one(ctx):
        from .graph import named
        stubs = {'StructureConstraintBasedEstimator.complete_test': test_stub}
        a = ctx.analysis(stubs=stubs)
        a.it.unroll = 30
        s_, env, hints, below, head = named(a, labels)
        v, q = a.opaque('v', ('obj', lambda t, n: None)), a.opaque('q', 'set')
        head += 'est = StructureConstraintBasedEstimator(DataSource(Structure(V, I, C, [], n), Trajectory([t, D], n + 1), n, []), 0.1, 0.1, %r, 25)\n' % (known,)
        o = a.run(head + 'return est', a.st.fork(), **env)
        caches = [r for r, x in o.st.heap.items() if x.kind == 'inst' and x.cls is not None and getattr(x.cls, 'name', x.cls) == 'Cache']
        if not caches:
            return a.undecided(name, 'no cache object in the estimator')
        env = dict(est=o.raw, n=num(len(labels)), v=v, q=q, **{'cache%d' % i: r for i, r in enumerate(caches)})
        st = o.st
        got = a.run('\n'.join('cache%d.put(q, v)' % i for i in range(len(caches))) + '\n'
                    'est.one_iteration_of_CTPC_algorithm(%r, n)\nreturn [%s]' % (
                        c, ', '.join('cache%d.find(q)' % i for i in range(len(caches)))), st.fork(), **env)
        want = a.run('return [%s]' % ', '.join('None' for _ in caches), st.fork())
        a.match(name, got, want, hints=hints, trials=50)
    prop('C22', name)(one)


cache_case(['a'], 'a', [])
cache_case(['a', 'b', 'c'], 'b', [])
cache_case(['a', 'b', 'c'], 'b', [('a', 'b'), ('c', 'b')])
cache_case(['a', 'b', 'c', 'd'], 'd', [('a', 'd')])
