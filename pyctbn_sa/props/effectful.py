"""C39 (files) and C40 (state shared between objects): effect analyses over the whole package."""
from . import prop
from ..effects import Package, PointsTo, WRITE_METHODS, callers, reaching, path
from ..harness import *
from .. import vg

SAVE = {'JsonExporter.out_file', 'AbstractExporter.out_file', 'StructureEstimator.save_results',
        'StructureEstimator.save_plot_estimated_structure_graph'}

# the operations of the library other than the three that save something
OPERATIONS = set('''
Cache.__init__ Cache.clear Cache.find Cache.put
AbstractExporter.__init__ AbstractExporter.add_trajectory
JsonExporter.__init__ JsonExporter.cims_to_json
AbstractImporter.__init__ AbstractImporter.build_sorter AbstractImporter.compute_row_delta_sigle_samples_frame
AbstractImporter.compute_row_delta_in_all_samples_frames AbstractImporter.build_list_of_samples_array
AbstractImporter.clear_concatenated_frame AbstractImporter.dataset_id AbstractImporter.concatenated_samples AbstractImporter.variables
AbstractImporter.structure AbstractImporter.sorter AbstractImporter.file_path
JsonImporter.__init__ JsonImporter.import_data JsonImporter.import_trajectories JsonImporter.import_structure JsonImporter.import_variables
JsonImporter.read_json_file JsonImporter.one_level_normalizing JsonImporter.normalize_trajectories JsonImporter.build_sorter
JsonImporter.clear_data_frame_list JsonImporter.import_sampled_cims JsonImporter.dataset_id
SampleImporter.__init__ SampleImporter.import_data SampleImporter.build_sorter SampleImporter.dataset_id
ConditionalIntensityMatrix.__init__ ConditionalIntensityMatrix.compute_cim_coefficients
NetworkGenerator.__init__ NetworkGenerator.generate_graph NetworkGenerator.generate_cims
NetworkGraph.__init__ NetworkGraph.add_nodes NetworkGraph.add_edges NetworkGraph.fast_init NetworkGraph.remove_node
NetworkGraph.remove_edges NetworkGraph.has_edge NetworkGraph.clear_indexing_filtering_structures
SamplePath.__init__ SamplePath.build_trajectories SamplePath.build_structure SamplePath.clear_memory
SetOfCims.__init__ SetOfCims.build_times_and_transitions_structures SetOfCims.build_cims SetOfCims.filter_cims_with_mask
Structure.__init__ Structure.remove_node Structure.get_node_id Structure.get_node_indx Structure.add_edge Structure.remove_edge
Structure.contains_edge Structure.clean_structure_edges
Trajectory.__init__ TrajectoryGenerator.__init__ TrajectoryGenerator.CTBN_Sample TrajectoryGenerator.worker TrajectoryGenerator.multi_trajectory
FamScoreCalculator.__init__ FamScoreCalculator.get_fam_score FamScoreCalculator.marginal_likelihood_theta FamScoreCalculator.marginal_likelihood_q
ParametersEstimator.__init__ ParametersEstimator.fast_init ParametersEstimator.compute_parameters_for_node
ParametersEstimator.compute_state_res_time_for_node ParametersEstimator.compute_state_transitions_for_a_node
StructureEstimator.__init__ StructureEstimator.build_removable_edges_matrix StructureEstimator.build_complete_graph
StructureEstimator.generate_possible_sub_sets_of_size StructureEstimator.estimate_structure StructureEstimator.adjacency_matrix
StructureEstimator.spurious_edges
StructureScoreBasedEstimator.__init__ StructureScoreBasedEstimator.estimate_structure StructureScoreBasedEstimator.estimate_parents
StructureScoreBasedEstimator.get_score_from_graph
StructureConstraintBasedEstimator.__init__ StructureConstraintBasedEstimator.complete_test StructureConstraintBasedEstimator.independence_test
StructureConstraintBasedEstimator.compute_thumb_value StructureConstraintBasedEstimator.one_iteration_of_CTPC_algorithm
StructureConstraintBasedEstimator.ctpc_algorithm StructureConstraintBasedEstimator.estimate_structure
Optimizer.__init__ Optimizer.optimize_structure HillClimbing.__init__ HillClimbing.optimize_structure TabuSearch.__init__
TabuSearch.optimize_structure ConstraintBasedOptimizer.__init__ ConstraintBasedOptimizer.optimize_structure
'''.split())


def is_operation(u):
    q = u.qual.split('@')[0].rstrip('=')
    if u.qual.startswith('module '):
        return True
    if q in SAVE:
        return False
    n = q.rsplit('.', 1)[-1]
    if n.startswith('__') and n.endswith('__') and n not in ('__enter__', '__exit__', '__call__', '__init__'):
        return True
    return q in OPERATIONS or (u.cls is not None and any(c.name + '.' + n in OPERATIONS for c in u.cls.mro()))


@prop('C39', 'no operation other than the save operations reaches a construct that writes files')
def reach(ctx):
    pk = Package(ctx.prog)
    g = pk.callees()
    inv = callers(g)
    sites = pk.sites()
    bad = {}
    for u, n, what, verdict in sites:
        nxt = reaching(inv, u)
        ops = [v for v in nxt if is_operation(v)]
        for v in ops:
            # report the operation nearest to the construct
            bad.setdefault((v, verdict), []).append((len(path(nxt, v)), what, u.where(n), path(nxt, v)))
    ops = [u for u in pk.units.values() if is_operation(u)]
    for u in sorted(ops, key=lambda x: x.qual):
        w, k = bad.get((u, 'write')), bad.get((u, 'unknown'))
        name = u.qual + ' writes no file'
        if w:
            s = sorted(w)[0]
            ctx.add(name, 'violated', '%s at %s reached by the calls %s' % (s[1], s[2], s[3]), s[2])
        elif k:
            s = sorted(k)[0]
            ctx.add(name, 'undecided', '%s at %s reached by the calls %s' % (s[1], s[2], s[3]), s[2])
        else:
            ctx.add(name, 'holds', 'no construct of the package that may write a file is reachable in the call graph', u.where(u.node) if u.node else None)
    for u, n, what, verdict in sites:
        if not any(is_operation(v) for v in reaching(inv, u)):
            ctx.add('%s in %s is reached from save operations only' % (what, u.qual), 'holds', 'call graph', u.where(n))


PATHS = """
here = os.getcwd()
return (here + "/" + name, name)
"""


def paths_stubs():
    """relative names: joining, normalising and making absolute all denote the file of that name in the current directory"""
    here = lambda it, st, args, kw: sym('cwd', 'str')

    def join(it, st, args, kw):
        out = args[0]
        for x in args[1:]:
            out = binop_(it, st, binop_(it, st, out, const('/')), x)
        return out

    def absolute(it, st, args, kw):
        x = it.simp(st, args[0])
        return x if mentions(x, 'cwd') else join(it, st, [sym('cwd', 'str'), x], {})
    return {'os.getcwd': here, 'os.path.join': join, 'os.path.abspath': absolute, 'os.path.realpath': absolute,
            'os.path.normpath': lambda it, st, args, kw: args[0]}


def binop_(it, st, a, b):
    from ..models import binop
    return binop(it, st, 'Add', a, b)


def mentions(t, name):
    s = sym(name, 'str')
    seen = set()

    def go(x):
        if x is s:
            return True
        if x.id in seen:
            return False
        seen.add(x.id)
        return any(go(k) for k in vg._kids(x.args, []))
    return go(t)


# relative names a caller may choose
NAMES = ('net.json', 'net', 'Out/Net.JSON', 'out/net v2.json', 'a.b/net.png', 'net.json.png', ' net ', 'näme.txt', 'x' * 60 + '.json')


def touched(e):
    """(path, changes the file) of an event on a file"""
    if e['kind'] == 'open':
        m = e['mode']
        return e['path'], not (m.op == 'const' and not set(str(m.args[0])) & set('wax+'))
    if e['kind'] == 'file-write':
        return e['path'], True
    if e['kind'] == 'file-effect':
        return (e['args'][1 if e['name'] in COPIES and len(e['args']) > 1 else 0] if e['args'] else NONE), True
    if e['kind'] == 'opaque-call' and e['name'] in WRITE_METHODS:
        o = e['obj']
        if o.op == 'opq' and o.args[0] == 'pathlib.Path':
            return (o.args[1][0] if len(o.args) > 1 and len(o.args[1]) == 1 else mk('unk', 'path')), True
        return (e['args'][0] if e['args'] else NONE), True
    return None


COPIES = {'os.rename', 'os.replace', 'os.symlink', 'os.link', 'shutil.move', 'shutil.copy', 'shutil.copy2', 'shutil.copyfile', 'shutil.copytree'}
GONE = {'os.rename', 'os.replace', 'shutil.move', 'os.remove', 'os.unlink'}


def destination(ctx, title, run):
    a = ctx.analysis(stubs=paths_stubs())
    name = a.str('name')
    got = run(a, name)
    if got is None:
        return
    allowed = list(a.run(PATHS, a.st.fork(), name=name).val.args)
    # a file that the operation itself moves away or deletes again is not left behind
    for e in list(a.it.events):
        if e['kind'] == 'file-effect' and e['name'] in GONE and e['args']:
            made = [touched(x)[0] for x in a.it.events[:a.it.events.index(e)] if touched(x) and touched(x)[1]]
            if any(e['args'][0] is p for p in made):
                allowed.append(e['args'][0])
    n = 0
    for e in a.it.events:
        t = touched(e)
        if t is None or e['cond'] is FALSE:
            continue
        p, writes = t
        p = a.it.simp(got.st, a.it.deep(got.st, p)) if got.st is not None else p
        if not writes:
            continue
        n += 1
        lab = '%s: file of %s' % (title, e.get('name') if isinstance(e.get('name'), str) else e['kind'])
        if any(p is q for q in allowed):
            a.ok(lab, 'the file named by the caller', e['where'])
        else:
            hints = {name: lambda m, env: m.rnd.choice(NAMES), sym('cwd', 'str'): lambda m, env: m.rnd.choice(('/home/u', '/data/Out'))}
            a.true(lab, or_(*[eq(p, q) for q in allowed]), e['where'], under=e['cond'], hints=hints, effects=False, trials=80)
    if n == 0:
        a.undecided(title + ': file', 'no construct that writes a file was reached')


@prop('C39', 'files written by the save operations')
def destinations(ctx):
    from .exporter import network, NETWORK
    from .graph import named

    def export(a, name):
        e = network(a, (2, 3), [('B', 'A2')])
        return a.run('import os\n' + NETWORK + 'e.out_file(name)', name=name, **e)
    destination(ctx, 'out_file', export)

    def estimator(op):
        def f(a, name):
            s_, env, hints, below, head = named(a, ['B', 'A', 'C'])
            head += 'src = DataSource(Structure(V, I, C, [], n), Trajectory([t, D], n + 1), n, [])\nest = StructureScoreBasedEstimator(src, 0.1, 1, [])\n'
            return a.run(head + 'est.%s(name)' % op, name=name, **env)
        return f
    destination(ctx, 'save_results', estimator('save_results'))
    destination(ctx, 'save_plot_estimated_structure_graph', estimator('save_plot_estimated_structure_graph'))


@prop('C40', 'no call changes an object that outlives it: module globals, class attributes, default arguments')
def shared(ctx):
    pk = Package(ctx.prog)
    p = PointsTo(pk)
    bad = {}
    for u, n, what in p.violations:
        bad.setdefault(u.qual, []).append((u.where(n), what))
    notes = {}
    for u, n, what in p.notes:
        notes.setdefault(u.qual, []).append((u.where(n), what))
    for q in sorted(pk.units):
        u = pk.units[q]
        if q.startswith('module '):
            continue
        if q in bad:
            w, what = bad[q][0]
            ctx.add(q + ' changes no shared object', 'violated', '%s: %s' % (w, what), w)
        elif q in notes:
            ctx.add(q + ' changes no shared object', 'undecided', notes[q][0][1], notes[q][0][0])
        else:
            ctx.add(q + ' changes no shared object', 'holds', 'none of its stores, deletions and mutating calls can reach one of the %d '
                    'objects that outlive a call' % len(p.shared), u.where(u.node))
    for o in p.shared:
        ctx.add('%s (%s) is never changed' % (o.what, o.where),
                'violated' if any(o.what in w for x in bad.values() for _, w in x) else 'holds', 'points-to analysis', o.where)


FRESH_FIGURE = {'matplotlib.pyplot.' + x for x in ('figure', 'subplots', 'clf', 'close', 'subplot_mosaic')}
NEUTRAL = {'matplotlib.pyplot.' + x for x in ('savefig', 'get_fignums', 'ioff', 'ion', 'show', 'pause')}


@prop('C40', 'a saved picture contains nothing drawn for an earlier one')
def pictures(ctx):
    from .graph import named
    a = ctx.analysis(stubs=paths_stubs())
    s_, env, hints, below, head = named(a, ['B', 'A', 'C'])
    head += 'src = DataSource(Structure(V, I, C, [], n), Trajectory([t, D], n + 1), n, [])\nest = StructureScoreBasedEstimator(src, 0.1, 1, [])\n'
    got = a.run(head + 'est.save_plot_estimated_structure_graph(name)', name=a.str('name'), **env)
    evs = [e for e in a.it.events if e['kind'] == 'plot' and e['cond'] is not FALSE]
    clear = lambda e: e['name'] in FRESH_FIGURE
    draws = [k for k, e in enumerate(evs) if not clear(e) and e['name'] not in NEUTRAL and not (e['name'].startswith('networkx') and 'ax' in e['given'])]
    name = 'the current figure is empty when save_plot_estimated_structure_graph starts drawing'
    if not draws:
        return a.ok(name, 'nothing is drawn on the current figure')
    before = [e for e in evs[:draws[0]] if clear(e)]
    after = [e for e in evs[draws[-1] + 1:] if clear(e)]
    where = evs[draws[0]]['where']
    done = lambda es: vg.implies(got.ok, or_(FALSE, *[e['cond'] for e in es])) if hasattr(vg, 'implies') else or_(FALSE, *[e['cond'] for e in es]) is TRUE
    if done(before) or done(after):
        a.ok(name, 'every call %s the current figure' % ('starts by renewing' if done(before) else 'ends by clearing'), where)
    elif before or after:
        a.undecided(name, 'the figure is cleared on some paths only', where)
    else:
        a.fail(name, 'what a call draws stays on the current figure and is saved again with the next picture', where)
