"""Random networks and sampled trajectories."""
from . import prop
from ..harness import *
from ..harness import unk_names
from fractions import Fraction
from .. import evalterm
from ..models import SORT_RULES, iconst

NAMES = ('B', 'A', 'D', 'C')



def rounded(it, st, args, kw):
    """rounding to four or more digits is not modelled"""
    d = args[1] if len(args) > 1 else kw.get('decimals')
    d = iconst(d) if d is not None else None
    return args[0] if d is not None and d >= 4 else NotImplemented


ROUNDING = {'numpy.around': rounded, 'numpy.round': rounded, 'numpy.round_': rounded}


def labelled(a, m):
    """m variables with any cardinalities"""
    e = dict(labels=a.it.new_list(a.st, vg.lst(*[const(x) for x in NAMES[:m]])), m=num(m))
    C = a.arrsym('C', (num(m),), 'int', 1)
    e['vals'] = a.it.new_list(a.st, vg.lst(*[vg.cell(C, num(k)) for k in range(m)]))
    return e


# ------------------------------------------------------------------ C35
GRAPH = '''
g = NetworkGenerator(labels, vals)
g.generate_graph(%s)
'''
TABLES = '''
ds, vt = g.dyn_str, g.variables
rows = [(ds.iloc[k, 0], ds.iloc[k, 1]) for k in range(len(ds))]
'''


def draws_in(t):
    out, seen = [], set()

    def go(x):
        if x.id in seen:
            return
        seen.add(x.id)
        if x.op == 'draw':
            out.append(x)
        for k in vg._kids(x.args, []):
            go(k)
    go(t)
    return out


def truths(cs):
    """how many of the conditions are true"""
    return mk('truths', *cs)


SORT_RULES['truths'] = lambda t: 'int'


def pinned(t, values):
    """value of a term when some of its subterms have the given values, or None"""
    m = evalterm.Model(1)
    for x, v in values:
        m.memo[(x.id, ())] = Fraction(v)
    try:
        return m.ev(t)
    except (evalterm.NoModel, evalterm.Reject):
        return None


def law(g, p, at_p):
    """probability of a condition on one random draw, or None"""
    ts = draws_in(g)
    if len(ts) != 1:
        return None
    t = ts[0]
    kind, args = t.args[0], t.args[2]
    if kind == 'binomial' and args[0] is ONE:
        q = pinned(args[1], [(p, at_p)])
        if q is None:
            return None
        outcomes = [(1, q), (0, 1 - q)]
    elif kind == 'unit':
        n = 210
        outcomes = [(Fraction(2 * k + 1, 2 * n), Fraction(1, n)) for k in range(n)]
    elif kind == 'randint':
        lo, hi = iconst(args[0]), iconst(args[1])
        if lo is None or hi is None or not 0 < hi - lo < 500:
            return None
        outcomes = [(k, Fraction(1, hi - lo)) for k in range(lo, hi)]
    else:
        return None
    total = Fraction(0)
    for x, w in outcomes:
        v = pinned(g, [(t, x), (p, at_p)])
        if v is True:
            total += w
        elif v is not False:
            return None
    return total


def random_edges(m):
    def one(ctx):
        a = ctx.analysis()
        e = labelled(a, m)
        p = e['p'] = a.num('p')
        for x in (not_(lt(p, ZERO)), not_(lt(ONE, p))):
            a.assume.append(x)
        got = a.run(GRAPH % 'p' + 'return g', **e)
        a.same('accepted', got.ok, TRUE)
        g = got.raw
        nodes = a.run('return list(g.graph.nodes)', got.st, g=g, labels=e['labels'])
        a.same('variables', nodes.val, mk('lst', vg.lst(*[const(x) for x in NAMES[:m]])))
        used = {}
        total = []
        for x in NAMES[:m]:
            for y in NAMES[:m]:
                h = a.run('return g.graph.has_edge((x, y))', got.st, g=g, x=const(x), y=const(y))
                c = and_(h.ok, h.val)
                name = 'edge %s to %s' % (x, y)
                if x == y:
                    a.same(name, c, FALSE)
                    continue
                total.append(c)
                ts = draws_in(c)
                if c.unk:
                    a.undecided(name, 'unmodelled construct: ' + unk_names([c]))
                    continue
                if not ts:
                    a.fail(name, 'does not depend on a random draw: %s' % c)
                    continue
                for t in ts:
                    if t in used and used[t] != name:
                        a.fail(name, 'shares its random draw with ' + used[t])
                    used[t] = name
                for q in [Fraction(k, 105) for k in (0, 15, 35, 63, 90, 105)]:
                    v = law(c, p, q)
                    if v is None:
                        a.undecided(name + ', law', 'condition %s' % c)
                    elif v != q:
                        a.fail(name + ', law', 'has probability %s for density %s' % (v, q))
                    else:
                        a.ok(name + ', law', 'probability %s' % q)
        n = a.run('return len(list(g.graph.edges))', got.st, g=g)
        a.same('number of edges', n.val, truths(total))
        described(a, got.st, g, e, m)
    return one


def described(a, st, g, e, m):
    """the tables of structure and variables describe the graph"""
    got = a.run(TABLES + 'return (len(ds), list(ds.columns), len(vt), list(vt.columns), [(vt.iloc[k, 0], vt.iloc[k, 1]) for k in range(%d)])' % m,
                st, g=g)
    want = a.run('return (len(list(g.graph.edges)), ["From", "To"], m, ["Name", "Value"], [(labels[k], vals[k]) for k in range(%d)])' % m, st, g=g, **e)
    a.match('tables', got, want)
    for x in NAMES[:m]:
        for y in NAMES[:m]:
            if x != y:
                got = a.run(TABLES + 'return (x, y) in rows', st, g=g, x=const(x), y=const(y))
                want = a.run('return g.graph.has_edge((x, y))', st, g=g, x=const(x), y=const(y))
                a.match('row %s to %s' % (x, y), got, want)


def fixed_edges(m):
    def one(ctx):
        n = m * (m - 1)
        a = ctx.analysis()
        e = labelled(a, m)
        K = a.int('K', 0)
        a.given(not_(lt(num(n), K)))
        e['p'] = div(K, num(n))
        got = a.run(GRAPH % 'p, True' + 'return g', **e)
        a.same('accepted', got.ok, TRUE)
        g = got.raw
        nodes = a.run('return list(g.graph.nodes)', got.st, g=g)
        a.same('variables', nodes.val, mk('lst', vg.lst(*[const(x) for x in NAMES[:m]])))
        total = []
        for x in NAMES[:m]:
            for y in NAMES[:m]:
                h = a.run('return g.graph.has_edge((x, y))', got.st, g=g, x=const(x), y=const(y))
                c = and_(h.ok, h.val)
                if x == y:
                    a.same('edge %s to %s' % (x, y), c, FALSE)
                else:
                    total.append(c)
        a.same('number of pairs with an edge', truths(total), K)
        k = a.run('return len(list(g.graph.edges))', got.st, g=g)
        a.same('number of edges', k.val, K)
        # which ones is decided by a permutation of all pairs
        evs = [v for v in a.it.events if v['kind'] == 'draw']
        s = as_seq(evs[0]['args'][0]) if len(evs) == 1 and evs[0]['draw'] == 'shuffle' else None
        if s is not None and vg.sat(s, ZERO).op == 'tup':
            for x in NAMES[:m]:
                for y in NAMES[:m]:
                    if x != y:
                        a.true('%s to %s can be chosen' % (x, y), vg.smember(tup(const(x), const(y)), s), under=lt(ZERO, K))
            a.same('pairs to choose from', slen(s), num(n), under=lt(ZERO, K))
        else:
            a.undecided('choice of the edges', 'not by a permutation')
        described(a, got.st, g, e, m)
        # densities are floating-point numbers: a product a rounding error away from K still means K
        a = ctx.analysis()
        e = labelled(a, m)
        K, r = a.int('K', 0), a.num('r')
        a.given(not_(lt(num(n), K)))
        for x in (lt(num(-1), r), lt(r, ONE)):
            a.assume.append(x)
        e['p'] = div(add(K, mul(sub(r, num(Fraction(1, 2))), num(Fraction(1, 10 ** 12)))), num(n))
        got = a.run(GRAPH % 'p, True' + 'return len(list(g.graph.edges))', **e)
        a.same('accepted with a rounding error', got.ok, TRUE)
        a.same('number of edges with a rounding error', got.val, K, under=got.ok)
        for j in range(n):
            a = ctx.analysis()
            e = labelled(a, m)
            f = a.num('f')
            a.assume.append(lt(num(Fraction(1, 1000)), f))
            a.assume.append(lt(f, num(Fraction(999, 1000))))
            e['p'] = div(add(num(j), f), num(n))
            got = a.run(GRAPH % 'p, True' + 'return g', **e)
            want = a.run('raise RuntimeError()')
            a.match('a number of edges between %d and %d' % (j, j + 1), got, want, kind='RuntimeError')
    return one


for m in (1, 2, 3):
    if m > 1:
        prop('C35', 'probability, %d variables' % m)(random_edges(m))
        prop('C35', 'mandatory density, %d variables' % m)(fixed_edges(m))


# ------------------------------------------------------------------ C36
GIVEN = '''
g = NetworkGenerator(labels, vals)
g.generate_graph(0, True)
g.graph.add_edges(edges)
'''
CIMS = GIVEN + '''
g.generate_cims(lo, hi)
'''
SHAPE = '''
s = g.cims[x]
k = len(s.actual_cims)
'''
PARENTS = '''
gr = NetworkGraph(Structure(labels, np.array([i for i in range(m)]), np.array(vals), edges, m))
gr.add_nodes(labels)
gr.add_edges(edges)
T = NetworkGraph.build_p_comb_structure_for_a_node([vals[labels.index(p)] for p in labels if (p, x) in edges])
'''
SHAPES = [(1, []), (2, []), (2, [('B', 'A')]), (2, [('B', 'A'), ('A', 'B')]), (3, [('D', 'B'), ('A', 'B')]),
          (3, [('D', 'A'), ('D', 'B'), ('A', 'D'), ('B', 'D')]),
          (4, [('C', 'A'), ('D', 'A'), ('B', 'A'), ('A', 'C')])]


def intensities(m, edges):
    def one(ctx):
        a = ctx.analysis(stubs=ROUNDING)
        e = labelled(a, m)
        E = e['edges'] = a.it.new_list(a.st, vg.lst(*[tup(const(x), const(y)) for x, y in edges]))
        lo, hi = e['lo'], e['hi'] = a.num('lo'), a.num('hi')
        for c in (lt(ZERO, lo), le(lo, hi)):
            a.assume.append(c)
        got = a.run(CIMS + 'return g', **e)
        a.same('accepted', got.ok, TRUE)
        g = got.raw
        n = a.run('return sorted(g.cims.keys())', got.st, g=g)
        w = a.run('return sorted(labels)', **e)
        a.match('variables', n, w)
        for x in NAMES[:m]:
            alone = not [1 for _, y in edges if y == x]
            h = a.run(SHAPE + ('return (k, s.p_combs.shape)' if alone else 'return (k, s.p_combs)'), got.st, g=g, x=const(x))
            w = a.run('return (1, (1, 0))' if alone else PARENTS + 'return (len(T), T)', x=const(x), **e)
            a.match('table of ' + x, h, w)
            c, i, j = a.int('c', 0), a.int('i', 0), a.int('j', 0)
            C = a.run('return vals[labels.index(x)]', x=const(x), **e).val
            n = a.run(SHAPE + 'return k', got.st, g=g, x=const(x))
            s = a.run(SHAPE + 'return s.actual_cims[c].cim.shape', got.st, g=g, x=const(x), c=c)
            under = and_(lt(ONE, C), lt(c, n.val), lt(i, C), lt(j, C))
            a.same('sizes of ' + x, s.val, tup(C, C), under=lt(c, n.val))
            q = a.run(SHAPE + 'return s.actual_cims[c].cim[i, j]', got.st, g=g, x=const(x), c=c, i=i, j=j)
            a.true('rates of ' + x, or_(eq(i, j), not_(lt(q.val, ZERO))), under=under)
            d = a.run(SHAPE + 'return -s.actual_cims[c].cim[i, i]', got.st, g=g, x=const(x), c=c, i=i)
            a.true('total rates of ' + x, and_(not_(lt(d.val, lo)), not_(lt(hi, d.val))), under=under)
            t = a.run(SHAPE + 'return sum(s.actual_cims[c].cim[i])', got.st, g=g, x=const(x), c=c, i=i)
            a.same('row sums of ' + x, t.val, ZERO, under=under)
    return one


for m, edges in SHAPES:
    prop('C36', '%d variables, edges %s' % (m, ', '.join(x + y for x, y in edges) or 'none'))(intensities(m, edges))
