"""Exported files."""
from . import prop
from ..harness import *
from ..harness import unk_names

NAMES = ('B', 'A2', 'D', 'C')
# (cardinalities, edges): parents of a variable come in the order of the variables
NETS = [((3,), []),
        ((2, 3), []),
        ((2, 3), [('B', 'A2')]),
        ((12, 2), [('B', 'A2')]),
        ((2, 3, 2), [('B', 'D'), ('A2', 'D')]),
        ((2, 2, 3), [('A2', 'B'), ('D', 'B'), ('B', 'D')]),
        ((2, 11, 3), [('A2', 'B'), ('D', 'B')]),
        ((2, 2, 2, 3), [('A2', 'B'), ('D', 'B'), ('C', 'B'), ('B', 'C')])]

NETWORK = '''
variables = pd.DataFrame([[labels[k], vals[k]] for k in range(m)], columns=["Name", "Value"])
dyn_str = pd.DataFrame([[x, y] for x, y in edges], columns=["From", "To"])
cims = {}
for k in range(m):
    x = labels[k]
    pv = [vals[labels.index(p)] for p in labels if (p, x) in edges]
    T = NetworkGraph.build_p_comb_structure_for_a_node(pv)
    cims[x] = SetOfCims(x, pv, vals[k], T, np.array([ConditionalIntensityMatrix(cim=M) for M in matrices[k]]))
e = JsonExporter(variables, dyn_str, cims)
'''
CONTENT = NETWORK + '''
e.out_file("net.json")
'''


def rows_of(cards, edges, x):
    n = 1
    for p, y in edges:
        if y == x:
            n *= cards[NAMES.index(p)]
    return n


def network(a, cards, edges):
    vg.UNROLL = max(vg.UNROLL, 40)
    m = len(cards)
    e = dict(labels=a.it.new_list(a.st, vg.lst(*[const(x) for x in NAMES[:m]])), m=num(m),
             vals=a.it.new_list(a.st, vg.lst(*[num(c) for c in cards])),
             edges=a.it.new_list(a.st, vg.lst(*[tup(const(x), const(y)) for x, y in edges])))
    allm = []
    for k in range(m):
        ms = [a.arrsym('M%d_%d' % (k, q), (num(cards[k]), num(cards[k])), 'num') for q in range(rows_of(cards, edges, NAMES[k]))]
        allm.append(a.it.new_list(a.st, vg.lst(*[a.arr(x) for x in ms])))
    e['matrices'] = a.it.new_list(a.st, vg.lst(*allm))
    return e


def configurations(cards, edges, x):
    """(key, position in the matrices) of each parent configuration"""
    ps = [p for p in NAMES[:len(cards)] if (p, x) in edges]
    if not ps:
        return [(x, 0)]
    out = [()]
    pos = []
    import itertools
    for q in range(rows_of(cards, edges, x)):
        r, comb = q, []
        for p in ps:
            c = cards[NAMES.index(p)]
            comb.append(r % c)
            r //= c
        pos.append((','.join('%s=%d' % pc for pc in zip(ps, comb)), q))
    return pos


def written(a, got):
    """the value written to the only file"""
    ws = [v for v in a.it.events if v['kind'] == 'file-content']
    if len(ws) != 1:
        return None
    return content(ws[0])


def content(event):
    v = event['value']
    return v.args[1] if v.op == 'strm' and v.args[0] == 'json' else v


def matrices_in_file(cards, edges):
    def one(ctx):
        a = ctx.analysis()
        e = network(a, cards, edges)
        got = a.run(CONTENT, **e)
        a.same('accepted', got.ok, TRUE)
        data = written(a, got)
        if data is None:
            return a.undecided('file', 'not written at once')
        for k, x in enumerate(NAMES[:len(cards)]):
            conf = configurations(cards, edges, x)
            keys = a.run('return (len(data), sorted(data[0]["dyn.cims"][x].keys()))', got.st, data=data, x=const(x))
            want = a.run('return (1, sorted(ks))', ks=a.it.new_list(a.st, vg.lst(*[const(c) for c, _ in conf])))
            a.match('keys of ' + x, keys, want)
            for c, q in conf:
                n = cards[k]
                g = a.run('rows = data[0]["dyn.cims"][x][c]\nreturn [[rows[i][str(j)] for j in range(%d)] for i in range(len(rows))]' % n,
                          got.st, data=data, x=const(x), c=const(c))
                w = a.run('M = matrices[%d][%d]\nreturn [[M[i, j] for j in range(%d)] for i in range(%d)]' % (k, q, n, n), **e)
                a.match('matrix of %s under %s' % (x, c), g, w)
    return one


for cards, edges in NETS:
    prop('C37', 'file, cardinalities %s, edges %s' % (cards, ', '.join(x + '>' + y for x, y in edges) or 'none'))(matrices_in_file(cards, edges))


# matrices with rates that are zero, repeated, very small, or the same in several rows
GIVEN = [((2,), [], [[[[-1.0, 1.0], [0.0, 0.0]]]]),
         ((3,), [], [[[[-2.0, 2.0, 0.0], [0.0, -0.5, 0.5], [0.25, 0.0, -0.25]]]]),
         ((3,), [], [[[[0.0, 0.0, 0.0], [0.0, 0.0, 0.0], [1e-09, 1e-09, -2e-09]]]]),
         ((2, 2), [('B', 'A2')], [[[[-3.0, 3.0], [3.0, -3.0]]],
                                  [[[0.0, 0.0], [7.5, -7.5]], [[-1.0, 1.0], [0.0, 0.0]]]]),
         ((2, 3), [('A2', 'B')], [[[[-1.0, 1.0], [0.0, 0.0]], [[-1.0, 1.0], [0.0, 0.0]], [[0.0, 0.0], [1.0, -1.0]]],
                                  [[[-2.0, 2.0, 0.0], [0.0, -0.5, 0.5], [0.25, 0.0, -0.25]]]])]


def given_matrices(cards, edges, ms):
    def one(ctx):
        a = ctx.analysis()
        e = network(a, cards, edges)
        del e['matrices']
        head = 'matrices = [[np.array(M) for M in one] for one in %r]\n' % (ms,)
        got = a.run(head + CONTENT, **e)
        a.same('accepted', got.ok, TRUE)
        data = written(a, got)
        if data is None:
            return a.undecided('file', 'not written at once')
        for k, x in enumerate(NAMES[:len(cards)]):
            for c, q in configurations(cards, edges, x):
                g = a.run('return [{str(s): r[s] for s in r} for r in data[0]["dyn.cims"][x][c]]', got.st, data=data, x=const(x), c=const(c))
                w = a.run('return %r' % [{str(j): v for j, v in enumerate(row)} for row in ms[k][q]])
                a.match('rows of %s under %s' % (x, c), g, w)
    return one


for cards, edges, ms in GIVEN:
    prop('C37', 'given matrices %s' % (ms,))(given_matrices(cards, edges, ms))


SAMPLE = """
e.add_trajectory(pd.DataFrame(S, columns=["Time"] + list(labels)))
e.out_file("net.json")
"""
BACK = """
imp = JsonImporter("net.json", "samples", "dyn.str", "variables", "Time", "Name", "dyn.cims")
imp.import_data(0)
g = TrajectoryGenerator(imp)
"""
CHOSEN = """
s = g._cims[x]
c = s.filter_cims_with_mask(np.array([True for v in comb]), comb)
M = (c[comb[0]] if len(comb) == 1 else c[0]).cim
"""


def read_again(cards, edges):
    def one(ctx):
        a = ctx.analysis()
        e = network(a, cards, edges)
        n = a.int('n', 1)
        e['S'] = a.arr(a.arrsym('S', (n, num(len(cards) + 1)), 'num'))
        got = a.run(NETWORK + SAMPLE, **e)
        a.same('accepted', got.ok, TRUE)
        data = written(a, got)
        if data is None:
            return a.undecided('file', 'not written at once')
        read = []

        def load(it, st, args, kw):
            read.append(args)
            return it.thaw(st, data)
        a = ctx.analysis(stubs={'json.load': load})
        e = network(a, cards, edges)
        got = a.run(BACK + 'return g', **e)
        if not read:
            return a.undecided('file', 'not read with json.load')
        a.same('accepted again', got.ok, TRUE)
        g = got.raw
        has = a.run('return hasattr(g, "_cims")', got.st, g=g)
        if has.val is not TRUE:
            return a.undecided('matrices', 'kept elsewhere')
        for k, x in enumerate(NAMES[:len(cards)]):
            for c, q in configurations(cards, edges, x):
                comb = [int(v.split('=')[1]) for v in c.split(',')] if '=' in c else []
                m = cards[k]
                v = 'comb = %s\n' % comb
                h = a.run(v + CHOSEN + 'return [[M[i, j] for j in range(%d)] for i in range(%d)]' % (m, m), got.st, g=g, x=const(x))
                w = a.run('M = matrices[%d][%d]\nreturn [[M[i, j] for j in range(%d)] for i in range(%d)]' % (k, q, m, m), **e)
                a.match('matrix of %s under %s' % (x, c), h, w)
                if len(comb) == 1:
                    h = a.run(v + 'return [list(r) for r in g._cims[x].p_combs].index(comb)', got.st, g=g, x=const(x))
                    a.same('place of %s under %s' % (x, c), h.val, num(q))
    return one


for cards, edges in NETS:
    prop('C37', 'read again, cardinalities %s, edges %s' % (cards, ', '.join(x + '>' + y for x, y in edges) or 'none'))(read_again(cards, edges))


# ------------------------------------------------------------------ C38
def whole_file(cards, edges, adds, early=None):
    def one(ctx):
        a = ctx.analysis()
        e = network(a, cards, edges)
        m = len(cards)
        for j in range(2):
            n = e['n%d' % j] = a.int('n%d' % j, 1)
            e['S%d' % j] = a.arr(a.arrsym('S%d' % j, (n, num(m + 1)), 'num'))
        make = NETWORK + 'cols = ["Time"] + list(labels)\n' + ''.join('t%d = pd.DataFrame(S%d, columns=cols)\n' % (j, j) for j in range(2))
        first = 'e.out_file("old.json")\n'
        steps = ['e.add_trajectory(t%d)\n' % j for j in adds]
        if early is not None:
            steps.insert(early, first)
        got = a.run(make + ''.join(steps) + 'e.out_file("net.json")', **e)
        a.same('accepted', got.ok, TRUE)
        ws = [v for v in a.it.events if v['kind'] == 'file-content']
        data = content(ws[-1]) if len(ws) == (1 if early is None else 2) else None
        if data is None:
            return a.undecided('file', 'not written at once')
        pick = lambda t: a.run(t, data=data)
        same = lambda name, t, want: a.match(name, pick(t), a.run(make + want, **e))
        same('one element', 'return len(data)', 'return 1')
        same('sections', 'return sorted(data[0].keys())', 'return ["dyn.cims", "dyn.str", "samples", "variables"]')
        same('structure', 'return sorted([(r["From"], r["To"]) for r in data[0]["dyn.str"]])', 'return sorted([(x, y) for x, y in edges])')
        same('variables', 'return sorted([(r["Name"], r["Value"]) for r in data[0]["variables"]])', 'return sorted([(labels[k], vals[k]) for k in range(m)])')
        same('variables with matrices', 'return sorted(data[0]["dyn.cims"].keys())', 'return sorted(labels)')
        same('number of trajectories', 'return len(data[0]["samples"])', 'return %d' % len(adds))
        for k, j in enumerate(adds):
            same('length of trajectory %d' % k, 'return len(data[0]["samples"][%d])' % k, 'return n%d' % j)
            i = e['i'] = a.int('i', 0)
            for c, x in enumerate(('Time',) + NAMES[:m]):
                g = a.run('return data[0]["samples"][%d][i][%r]' % (k, x), data=data, i=i)
                w = a.run('return S%d[i, %d]' % (j, c), **e)
                a.match('column %s of trajectory %d' % (x, k), g, w, under=lt(i, e['n%d' % j]))
            w = a.run('return %d' % (m + 1))
            a.match('columns of trajectory %d' % k, a.run('return len(data[0]["samples"][%d][i])' % k, data=data, i=i), w, under=lt(i, e['n%d' % j]))
    return one


for cards, edges in NETS[:3] + NETS[4:6]:
    for adds, early in (((), None), ((0,), None), ((0, 1), None), ((1, 0), None), ((0, 1, 0), None), ((0, 1), 1), ((1,), 1), ((1, 0), 0)):
        prop('C38', 'cardinalities %s, edges %s, %d trajectories %s%s' % (
            cards, ', '.join(x + '>' + y for x, y in edges) or 'none', len(adds), adds,
            '' if early is None else ', exported before after %d' % early))(whole_file(cards, edges, adds, early))
