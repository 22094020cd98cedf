"""Importers and sample paths."""
from . import prop
from ..harness import *
from .. import models as M
from ..models import mkframe


def column(a, name, n, dtype='num', low=None):
    w = fresh(n)
    return make_arr([w], (TRUE, vg.cell(a.arrsym(name, (n,), dtype, low), w)), (dtype,))


def given_frame(a, name, cols, n, idx):
    f = mkframe(a.it, a.st, cols, n, idx)
    a.st.heap[f].view = ('input', const(name))
    return f


class Import(object):
    pass


def frames(a, count, index=True, names=None):
    """trajectories over the same variables with any number of rows, row labels and column names"""
    r = Import()
    r.names = names
    if names:
        r.m, r.T = num(len(names) - 1), const(names[0])
        r.V = mk('lst', vg.lst(*[const(x) for x in names[1:]]))
    else:
        r.m = a.int('m', 1)
        r.V = a.labels('V', r.m)
        r.T = a.str('T')
        a.given(not_(memb(r.T, r.V)))
    r.refs = []
    r.env = dict(T=r.T, V=a.it.new_list(a.st, as_seq(r.V)), m=r.m)
    for j in range(count):
        n = a.int('n%d' % j, 1)
        X = a.arrsym('X%d' % j, (n, r.m), 'int', 0)
        cols = concat(vg.lst(tup(r.T, column(a, 't%d' % j, n))), each_label(r, lambda q, k: vg.cell(X, q, k), n, 'int'))
        idx = a.arrsym('rows%d' % j, (n,), 'int') if index else NONE
        r.refs.append(given_frame(a, 'trajectory %d' % j, cols, n, idx))
        r.env['F%d' % j] = r.refs[-1]
        r.env['t%d' % j] = a.arr(a.arrsym('t%d' % j, (n,)))
        r.env['X%d' % j] = a.arr(X)
        r.env['n%d' % j] = n
    r.env['L'] = a.it.new_list(a.st, vg.lst(*r.refs))
    return r


def each_label(r, cell, n, dtype):
    """one column per variable"""
    if r.names:
        out = []
        for k, x in enumerate(r.names[1:]):
            q = fresh(n)
            out.append(tup(const(x), make_arr([q], (TRUE, cell(q, num(k))), (dtype,))))
        return vg.lst(*out)
    k, q = fresh(r.m), fresh(n)
    return make_flat([k], (vg.lst(tup(at(r.V, k), make_arr([q], (TRUE, cell(q, k)), (dtype,)))),))


def tables(a, r, labels=None):
    """variable table (labels, cardinalities) and structure table (edges), any column names and row labels"""
    L = r.V if labels is None else labels
    n = r.m if labels is None else length_of(L)
    w = fresh(n)
    r.C = a.arrsym('C', (n,), 'int', 1)
    cols = vg.lst(tup(a.str('name'), vg.seq_to_arr1(as_seq(L), 'str') if r.names else make_arr([w], (TRUE, at(L, w)), ('str',))), tup(a.str('card'), column(a, 'C', n, 'int', 1)))
    r.vars = given_frame(a, 'variables', cols, n, a.arrsym('vrows', (n,), 'int'))
    a.given(ne(a.str('name'), a.str('card')))
    E = sym('E', ('list', ('pair', 'str', 'str')))
    e = length_of(E)
    w = fresh(e)
    cols = vg.lst(*[tup(a.str(nm), make_arr([w], (TRUE, at(at(E, w), num(k))), ('str',))) for k, nm in enumerate(('from', 'to'))])
    a.given(ne(a.str('from'), a.str('to')))
    r.struct = given_frame(a, 'structure', cols, e, a.arrsym('erows', (e,), 'int'))
    r.env.update(vf=r.vars, sf=r.struct, labels=a.it.new_list(a.st, as_seq(L)), C=a.arr(r.C), E=a.lst(E))
    return r


# ------------------------------------------------------------------ C01
ROWS = '''
times, states, rows = [], [], 0
for t, X, n in %s:
    rows += max(n - 1, 0)
    for k in range(n - 1):
        times.append(t[k + 1] - t[k])
        states.append([X[k, i] for i in range(m)] + [X[k + 1, i] for i in range(m)])
'''
IMPORT = '''
imp = SampleImporter(L, vf, sf)
imp.import_data(%s)
'''
PATH = '''
sp = SamplePath(imp)
sp.build_trajectories()
sp.build_structure()
'''


def rows_of(count):
    return ROWS % ('[' + ', '.join('(t%d, X%d, n%d)' % (j, j, j) for j in range(count)) + ']')


def rows(count, header, names=None):
    def one(ctx):
        a = ctx.analysis()
        r = tables(a, frames(a, count, names=names))
        got = a.run(IMPORT % header + 'd = imp.build_list_of_samples_array(imp.concatenated_samples)\nreturn (d[0], d[1])', **r.env)
        want = a.run(rows_of(count) + 'return (np.array(times), np.array(states))', **r.env)
        a.match('rows of %d trajectories' % count, got, want)
        a = ctx.analysis()
        r = tables(a, frames(a, count, names=names))
        got = a.run(IMPORT % header + PATH + 'return (sp.trajectories.times, sp.trajectories.complete_trajectory, sp.trajectories.trajectory)', **r.env)
        want = a.run(rows_of(count) + 'if rows == 0:\n    raise RuntimeError()\nstates = np.array(states)\n'
                     'return (np.array(times), states, states[:, :m])', **r.env)
        a.match('sample path of %d trajectories' % count, got, want)
    return one


for c in (1, 2, 3):
    for h in ('', 'V'):
        prop('C01', 'frames, %d trajectories%s' % (c, ', given header' if h else ''))(rows(c, h))
NAMES = (('Time', 'X', 'Y'), ('when', 'b', 'Time', 'bS'), ('bSS', 'b', 'bS', 'a'), ('aS', 'a'))
for c in (1, 2):
    for x in NAMES:
        prop('C01', '%d trajectories of %s' % (c, ' '.join(x)))(rows(c, '', x))


# ------------------------------------------------------------------ C02
def unchanged(count, header, names=None):
    def one(ctx):
        a = ctx.analysis()
        r = tables(a, frames(a, count, names=names))
        keep = dict((k, a.it.deep(a.st, v)) for k, v in r.env.items())
        got = a.run(IMPORT % header + PATH + 'sp.clear_memory()\nreturn None', **r.env)
        for k in ['F%d' % j for j in range(count)] + ['L', 'vf', 'sf', 'V']:
            now = a.it.deep(got.st, r.env[k])
            a.same('%s as before' % k, now, keep[k], under=got.ok)
        for e in list(a.it.events):
            if e['kind'] == 'input-mutation':
                a.true('no write to the cells of an input', not_(e['cond']), where=e['where'], effects=False)
        again = a.run(IMPORT % header + PATH + IMPORT.replace('imp', 'imp2').replace('SampleImp2orter', 'SampleImporter').replace(
            'imp2ort_', 'import_') % header + 'sp2 = SamplePath(imp2)\nsp2.build_trajectories()\n'
            'return (sp2.trajectories.times, sp2.trajectories.complete_trajectory)', **r.env)
        want = a.run(IMPORT % header + PATH + 'return (sp.trajectories.times, sp.trajectories.complete_trajectory)', **r.env)
        a.match('second import', again, want)
    return one


for c in (1, 2):
    for h in ('', 'V'):
        prop('C02', '%d trajectories%s' % (c, ', given header' if h else ''))(unchanged(c, h))
    prop('C02', '%d trajectories of %s' % (c, ' '.join(NAMES[1])))(unchanged(c, 'V', NAMES[1]))


# ------------------------------------------------------------------ C03
def columns(count, given, names=None):
    def one(ctx):
        a = ctx.analysis()
        r = tables(a, frames(a, count, names=names))
        got = a.run(IMPORT % given + 'c = list(imp.concatenated_samples.columns)\n'
                    'return (c[0], c[1:m + 1], len(c), imp.sorter)', **r.env)
        want = a.run('return (T, [V[i] for i in range(m)], 2 * m + 1, [V[i] for i in range(m)])', **r.env)
        a.match('header of the processed data', got, want)
        a = ctx.analysis()
        r = tables(a, frames(a, count, names=names))
        got = a.run(IMPORT % given + 'd = imp.build_list_of_samples_array(imp.concatenated_samples)[1]\n'
                    'return (d[:, :m], d[:, m:])', **r.env)
        want = a.run(rows_of(count) + 's = np.array(states)\nreturn (s[:, :m], s[:, m:])', **r.env)
        a.match('states, then successors, in header order', got, want)
    return one


def reordered(names, header):
    """a header naming the variables in another order, or some of them"""
    at = [names[1:].index(x) for x in header]

    def one(ctx):
        for count in (1, 2):
            a = ctx.analysis()
            r = tables(a, frames(a, count, names=names))
            got = a.run('imp = SampleImporter(L, vf, sf)\nimp.import_data(%r)\nc = list(imp.concatenated_samples.columns)\n'
                        'd = imp.build_list_of_samples_array(imp.concatenated_samples)\n'
                        'return (c[0], c[1:%d], len(c), imp.sorter, d[0], d[1])' % (list(header), len(at) + 1), **r.env)
            want = a.run(rows_of(count) + 'at = %r\nat = at + [m + k for k in at]\nH = %r\n'
                         'return (T, H, 2 * len(H) + 1, H, np.array(times), np.array([[s[k] for k in at] for s in states]))' % (at, list(header)), **r.env)
            a.match('%d trajectories' % count, got, want)
    return one


for x, h in ((('Time', 'X', 'Y'), ('Y', 'X')), (('when', 'b', 'a', 'c'), ('c', 'b', 'a')), (('when', 'b', 'a', 'c'), ('a', 'c')),
             (('Time', 'X', 'Y'), ('Y',)), (('when', 'b', 'bS', 'a'), ('a', 'b'))):
    prop('C03', 'columns of %s by header %s' % (' '.join(x), ' '.join(h)))(reordered(x, h))


BUILD = '''
imp = SampleImporter(L, vf, sf)
imp._sorter = V
imp._concatenated_samples = cs
sp = SamplePath(imp)
sp.build_structure()
s = sp.structure
'''
WHAT = 'return (s.nodes_labels, s.nodes_indexes, s.nodes_values, s.total_variables_number, s.edges)'


def path_structure(ctx, same, table=True):
    a = ctx.analysis()
    r = frames(a, 1)
    if same:
        tables(a, r)
    else:
        tables(a, r, a.labels('W', a.int('mw', 1)))
    if not table:
        r.env.update(sf=NONE, E=a.lst(vg.lst()))
    n = a.int('rows', 1)
    r.env['cs'] = given_frame(a, 'samples', vg.lst(tup(a.str('tc'), column(a, 'cs', n))), n, NONE)
    got = a.run(BUILD + WHAT, **r.env)
    want = a.run('if labels != V:\n    raise RuntimeError()\n'
                 'return (labels, np.array([i for i in range(m)]), C, m, [(x[0], x[1]) for x in E])', **r.env)
    a.match('network description', got, want, kind='RuntimeError')
    k = a.int('k', 0)
    a.given(lt(k, r.m))
    for q, spec in (('get_node_indx(V[k])', 'k'), ('get_states_number(V[k])', 'C[k]'), ('get_node_id(k)', 'V[k]'),
                    ('contains_edge((x, y))', '(x, y) in [(e[0], e[1]) for e in E]')):
        got = a.run(BUILD + 'return s.%s' % q, k=k, x=a.str('x'), y=a.str('y'), **r.env)
        want = a.run('if labels != V:\n    raise RuntimeError()\nreturn ' + spec, k=k, x=a.str('x'), y=a.str('y'), **r.env)
        a.match(q, got, want)


for c in (1, 2):
    for h in ('', 'V'):
        prop('C03', 'columns, %d trajectories%s' % (c, ', given header' if h else ''))(columns(c, h))
    for x in NAMES:
        prop('C03', 'columns, %d trajectories of %s' % (c, ' '.join(x)))(columns(c, '', x))


@prop('C03', 'description of matching tables')
def _(ctx):
    path_structure(ctx, True)


@prop('C03', 'description of other tables')
def _(ctx):
    path_structure(ctx, False)


@prop('C03', 'description without a structure table')
def _(ctx):
    path_structure(ctx, True, False)


# ------------------------------------------------------------------ C04
MAKE = '''
imp = SampleImporter(L, vf, sf)
imp._concatenated_samples = cs
sp = SamplePath(imp)
return (sp.trajectories is None, sp.structure is None)
'''


def refusals(variables, samples):
    def one(ctx):
        a = ctx.analysis()
        r = tables(a, frames(a, 1))
        bad = FALSE
        if variables == 'none':
            r.env['vf'], bad = NONE, TRUE
        elif variables == 'any':
            n = a.int('labels', 0)
            W = a.arrsym('W', (n,), 'str')
            w = fresh(n)
            r.env['vf'] = given_frame(a, 'variables', vg.lst(tup(a.str('name'), W), tup(a.str('card'), column(a, 'C', n, 'int', 1))), n, NONE)
            bad = eq(n, ZERO)
        if samples == 'none':
            cs, b2 = NONE, TRUE
        elif samples == 'list':
            cs, b2 = a.lst(vg.lst()), TRUE
        else:
            n, c = a.int('rows', 0), a.int('columns', 0)
            if samples == 'table':
                a.given(lt(ZERO, c))
                S = a.arrsym('S', (n, c))
                k, q = fresh(c), fresh(n)
                H = a.labels('H', c)
                cols = make_flat([k], (vg.lst(tup(at(H, k), make_arr([q], (TRUE, vg.cell(S, q, k)), ('num',)))),))
                cs = given_frame(a, 'samples', cols, n, NONE)
                b2 = eq(n, ZERO)
            else:
                cs = a.arr(a.arrsym('S', (n, c)))
                b2 = or_(eq(n, ZERO), eq(c, ZERO))
        got = a.run(MAKE, cs=cs, **r.env)
        want = a.run('if bad:\n    raise RuntimeError()\nreturn (True, True)', bad=or_(bad, b2))
        a.match('constructor', got, want, kind='RuntimeError')
    return one


for x in ('none', 'any', 'given'):
    for y in ('none', 'list', 'table', 'array'):
        prop('C04', '%s variables, %s samples' % (x, y))(refusals(x, y))


@prop('C04', 'after an import')
def _(ctx):
    a = ctx.analysis()
    r = tables(a, frames(a, 1))
    got = a.run(IMPORT % '' + 'sp = SamplePath(imp)\nreturn None', **r.env)
    want = a.run(IMPORT % '' + 'if len(imp.concatenated_samples) == 0:\n    raise RuntimeError()\nreturn None', **r.env)
    a.match('imported data', got, want)


@prop('C04', 'before any import')
def _(ctx):
    for kind in ('SampleImporter(L, vf, sf)', 'SampleImporter(L, vf, sf); imp.build_sorter(F0)', 'SampleImporter()', 'JsonImporter("a.json", "a", "b", "c", "d", "e")'):
        a = ctx.analysis()
        r = tables(a, frames(a, 1))
        got = a.run('imp = %s\nsp = SamplePath(imp)\nreturn None' % kind, **r.env)
        want = a.run('raise RuntimeError()')
        a.match(kind, got, want, kind='RuntimeError')


# ------------------------------------------------------------------ C05
JSON = """
imp = JsonImporter(path, ks, kg, kv, kt, kn%s)
imp.import_data(%s)
"""
REFERENCE = """
frames = [pd.DataFrame(x) for x in d[ks]]
h = list(frames[0].columns)
h.remove(kt)
ref = SampleImporter(frames, pd.DataFrame(d[kv]), pd.DataFrame(d[kg]))
ref.import_data(h)
"""
KEYS = (dict(ks='samples', kg='dyn.str', kv='variables', kt='Time', kn='Name', kc='dyn.cims'),
        dict(ks='dyn.cims', kg='variables', kv='dyn.str', kt='T', kn='Label', kc='samples'))
DECOYS = ('samples', 'dyn.str', 'variables', 'dyn.cims', 'Time', 'Name', 'Value')


def json_file(a, keys, count, trajectories, single=False):
    """the content of a file: count objects with all their sections; a trajectory converts to a frame of any rows"""
    it, st = a.it, a.st
    objs = []
    r = frames(a, count * trajectories, names=(keys['kt'], 'X', 'Y'), index=False)
    table = {}
    for b in range(count):
        d = {}
        for k in DECOYS:
            d[k] = a.opaque('other %s of %d' % (k, b))
        for k in ('kg', 'kv', 'kc'):
            d[keys[k]] = a.opaque('section %s of %d' % (k, b))
        own = [a.opaque('trajectory %d of %d' % (j, b)) for j in range(trajectories)]
        for j, x in enumerate(own):
            table[x] = r.refs[b * trajectories + j]
        d[keys['ks']] = it.new_list(st, vg.lst(*own))
        objs.append(it.new_dict(st, vg.dct(vg.lst(*[tup(const(k), x) for k, x in d.items()]))))
    return (objs[0] if single else it.new_list(st, vg.lst(*objs))), table


def sections(keys, cims, count, i, trajectories, single=False, before=None):
    def one(ctx):
        for name, look, spec in (
                ('structure', 'imp.structure', 'pd.DataFrame(d[kg])'),
                ('variables', 'imp.variables', 'pd.DataFrame(d[kv])'),
                ('data set id', 'imp.dataset_id()', 'i'),
                ('header', 'imp.sorter', 'h'),
                ('trajectories', 'imp.concatenated_samples', 'ref.concatenated_samples'),
                ('matrices', 'imp._cims', 'd[kc]')):
            if name == 'matrices' and not cims:
                continue
            read = []

            def load(it, st, args, kw):
                read.append(args)
                return data
            def frame(it, st, args, kw):
                x = args[0] if args else kw.get('data')
                f = table.get(x) if len(args) + len(kw) == 1 else None
                return NotImplemented if f is None else M.mkframe(it, st, *M.fparts(it, st, f))
            a = ctx.analysis(stubs={'json.load': load, 'pandas.DataFrame': frame})
            data, table = json_file(a, keys, count, trajectories, single)
            e = dict((k, const(v)) for k, v in keys.items())
            e.update(path=a.str('path'), i=num(i or 0), data=data)
            got = a.run('import pandas as pd\n' + JSON % (', kc' if cims else '', ('%d)\nimp.import_data(i' % before) if before is not None else '' if i is None else 'i') + 'return ' + look, **e)
            want = a.run('import pandas as pd\nd = data%s\n' % ('' if single else '[i]') + REFERENCE + 'return ' + spec, **e)
            a.match(name, got, want)
            if not read:
                a.undecided(name + '/file', 'the file is not read with json.load')
            opened = [v for v in a.it.events if v['kind'] == 'open']
            a.true(name + '/file', or_(*[and_(v['cond'], eq(v['path'], e['path'])) for v in opened]), under=got.ok, effects=False)
    return one


for k, keys in enumerate(KEYS):
    for cims in (False, True):
        prop('C05', 'keys %d, %s' % (k, 'with matrices' if cims else 'no matrices'))(sections(keys, cims, 3, 1, 2))
    prop('C05', 'keys %d, first by default' % k)(sections(keys, True, 2, None, 1))
    prop('C05', 'keys %d, last' % k)(sections(keys, True, 3, 2, 3))
    prop('C05', 'keys %d, single object' % k)(sections(keys, True, 1, 0, 2, True))
    for x, y in ((0, 1), (1, 0)):
        prop('C05', 'keys %d, %d after %d' % (k, y, x))(sections(keys, True, 2, y, 1, before=x))


# ------------------------------------------------------------------ C05: a file written out in full
WRITTEN = '''
first = {'S': [%(f0)s], 'G': [{'From': 'a', 'To': 'b'}], 'V': [{'Name': 'b', 'Value': 2}, {'Name': 'a', 'Value': 2}]}
second = {'S': [%(f1)s, %(f2)s], 'G': [{'From': 'b', 'To': 'a'}], 'V': [{'Name': 'b', 'Value': 3}, {'Name': 'a', 'Value': 2}]}
data = [first, second]
'''


def trajectory_text(form, k, rows):
    cell = lambda q, c: '%s%d_%d' % (c, k, q)
    if form == 'columns':
        return '{%s}' % ', '.join('%r: [%s]' % (c, ', '.join(cell(q, c) for q in range(rows))) for c in ('when', 'b', 'a'))
    return '[%s]' % ', '.join('{%s}' % ', '.join('%r: %s' % (c, cell(q, c)) for c in ('when', 'b', 'a')) for q in range(rows))


def written(form, i, single=False):
    def one(ctx):
        box = {}
        a = ctx.analysis(stubs={'json.load': lambda it, st, args, kw: box['data']})
        sizes = (3, 2, 3)
        env = dict(path=a.str('path'), i=num(i))
        for k, n in enumerate(sizes):
            for q in range(n):
                env['when%d_%d' % (k, q)] = a.num('when%d_%d' % (k, q))
                for c in 'ba':
                    env['%s%d_%d' % (c, k, q)] = a.int('%s%d_%d' % (c, k, q), 0)
        text = WRITTEN % {'f%d' % k: trajectory_text(form, k, n) for k, n in enumerate(sizes)}
        made = a.run(text + ('return first' if single else 'return data'), **env)
        box['data'] = made.raw
        a.commit(made)
        mine = [(0, 3)] if i == 0 else [(1, 2), (2, 3)]
        got = a.run("""
            imp = JsonImporter(path, 'S', 'G', 'V', 'when', 'Name')
            imp.import_data(i)
            sp = SamplePath(imp)
            sp.build_trajectories()
            sp.build_structure()
            t = sp.trajectories
            return ([x for x in t.times], [[t.complete_trajectory[r, c] for c in range(4)] for r in range(t.size())],
                    imp.sorter, sp.structure.nodes_labels, list(sp.structure.nodes_values), sp.structure.edges)
        """, **env)
        steps = [(k, q) for k, n in mine for q in range(n - 1)]
        want = a.run('return ([%s], [%s], ["b", "a"], ["b", "a"], %s, %s)' % (
            ', '.join('when%d_%d - when%d_%d' % (k, q + 1, k, q) for k, q in steps),
            ', '.join('[b%d_%d, a%d_%d, b%d_%d, a%d_%d]' % (k, q, k, q, k, q + 1, k, q + 1) for k, q in steps),
            ('[2, 2]', '[3, 2]')[i], ('[("a", "b")]', '[("b", "a")]')[i]), **env)
        a.match('sample path of data set %d' % i, got, want)
    return one


for f in ('columns', 'records'):
    for k in (0, 1):
        prop('C05', 'written file of %s, data set %d' % (f, k))(written(f, k))
    prop('C05', 'written file of %s, without a list' % f)(written(f, 0, True))
