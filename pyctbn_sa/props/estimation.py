"""Whole estimations: the searches they start, the workers they use, and the structure they report."""
import ast
from . import prop
from ..harness import *
from ..models import contains_


def named_args(func, args, kwargs):
    """arguments of a call by parameter name, literal defaults included"""
    a = func.node.args
    names = [x.arg for x in a.posonlyargs + a.args][1:]
    out = {}
    for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
        if isinstance(d, ast.Constant):
            out[n] = const(d.value) if not isinstance(d.value, (int, float)) or isinstance(d.value, bool) else num(d.value)
    out.update(zip(names, args))
    out.update(kwargs)
    return out


class Watch(object):
    """searches replaced by uninterpreted results, with the settings they were created with"""

    def __init__(self, labels, again=False):
        self.labels, self.again = labels, again
        self.made = {}
        self.stubs = {}
        for cls in ('HillClimbing', 'TabuSearch', 'ConstraintBasedOptimizer'):
            self.stubs['new ' + cls] = self.create(cls)
            self.stubs[cls + '.optimize_structure'] = self.search(cls)

    def create(self, cls):
        def f(it, st, args, kw):
            c = it.prog.classes[cls]
            init = c.lookup('__init__')
            if init is None:
                return NotImplemented
            r = it.alloc(st, 'inst', {}, c)
            self.made[r] = named_args(init, args, kw)
            it.call_func(init, [r] + list(args), dict(kw), st)
            return r
        return f

    def search(self, cls):
        def f(it, st, args, kw):
            me = it.simp(st, args[0])
            p = dict(self.made.get(me) or {})
            x = p.pop('node_id', None)
            if x is None:
                return it.unk('search that was not created by its class')
            est = p.pop('structure_estimator', None)
            edges = it.getattr(it.getattr(it.getattr(est, '_sample_path', st), 'structure', st), 'edges', st)
            k = len([e for e in it.events if e['kind'] == 'search' and e['node'] == x]) if self.again else 0
            it.event(st, 'search', alg=cls, node=x, settings=p, left=it.simp(st, slen(it.seq(st, edges))), est=est)
            key = tuple(p[k] for k in sorted(p))
            return it.new_list(st, enum(set_of(lambda e: or_(FALSE, *[
                and_(eq(e, tup(const(u), x)), ne(const(u), x), vg.ufun('found%s' % (k or ''), 'bool', const(cls), const(u), x, *key)) for u in self.labels]))))
        return f


def found(cls, u, w, settings, k=0):
    return vg.ufun('found%s' % (k or ''), 'bool', const(cls), const(u), const(w), *[settings[k] for k in sorted(settings)])


class Run(object):
    pass


SCORE = 'max_parents iterations_number patience tabu_length tabu_rules_duration'.split()
ALG = {'tabu': 'TabuSearch', 'hill': 'HillClimbing', 'ctpc': 'ConstraintBasedOptimizer'}


def estimation(ctx, labels, alg, mode, refs=(), known=(), tail='', path=False, again=False):
    from .graph import named
    w = Watch(labels, again)
    a = ctx.analysis(stubs=w.stubs)
    s_, env, hints, below, head = named(a, labels)
    env = dict(env)
    r = Run()
    r.a, r.labels, r.alg, r.hints = a, labels, alg, hints
    r.set = {k: a.int(k, 0) for k in SCORE}
    r.procs = a.int('processes', 1)
    env.update(r.set)
    env['processes'] = r.procs
    if path:
        env['path'] = r.path = a.str('path')
    extra = {'serial': ', disable_multiprocessing=True', 'parallel': ', disable_multiprocessing=False', 'limited':
             ', disable_multiprocessing=False, processes_number=processes', 'serial limited': ', disable_multiprocessing=True, processes_number=processes'}[mode]
    head += 'R = %r\n' % (list(refs),)
    head += 'src = DataSource(Structure(V, I, C, list(R), n), Trajectory([t, D], n + 1), n, list(R))\n'
    if alg == 'ctpc':
        call = 'est.estimate_structure(%s)\n' % extra[2:]
        head += 'est = StructureConstraintBasedEstimator(src, 0.1, 0.1, %r, 25)\n' % (list(known),)
        r.want = dict(tot_vars_count=num(len(labels)))
    else:
        call = 'est.estimate_structure(%s, optimizer=%r%s)\n' % (', '.join('%s=%s' % (k, k) for k in SCORE), alg, extra)
        head += 'est = StructureScoreBasedEstimator(src, 0.1, 1, %r)\n' % (list(known),)
        r.want = {k: r.set[k] for k in SCORE if alg == 'tabu' or not k.startswith('tabu')}
    head += ''.join(['res = ' + call] * (2 if again else 1))
    r.head, r.env = head, env
    r.got = a.run(head + tail, a.st.fork(), **env)
    r.searches = [e for e in a.it.events if e['kind'] == 'search']
    r.pools = [e for e in a.it.events if e['kind'] == 'pool']
    r.cpu = sym('cpu_count', 'int')
    r.edge = lambda u, x: FALSE if u == x else found(ALG[alg], u, x, r.want, int(again))
    return r


L1, L2, L3 = ['a'], ['b', 'a'], ['c', 'a', 'b']
MODES = ('serial', 'parallel', 'limited', 'serial limited')
REFS = ([], [('a', 'b')], [('b', 'a'), ('c', 'a'), ('a', 'b')])


def refs_for(labels):
    return [e for e in REFS[2] if set(e) <= set(labels)]


def each_case(pid, title, body, algs=('tabu', 'hill', 'ctpc'), modes=MODES, nets=(L2, L3), tail='return set(res)'):
    for alg in algs:
        for mode in modes:
            for labels in nets:
                name = '%s, %s, %d variables' % (alg, mode, len(labels))

                def one(ctx, alg=alg, mode=mode, labels=labels, name=name):
                    r = estimation(ctx, labels, alg, mode, refs_for(labels), [('a', 'b')] if 'b' in labels else [], tail)
                    r.name, r.mode = name, mode
                    body(r)
                prop(pid, title + ' ' + name)(one)


def count(bs):
    return add(ZERO, *[ite(b, ONE, ZERO) for b in bs])


# ------------------------------------------------------------------ C27: the optimizer and its settings
def settings_(r):
    a = r.a
    for e in r.searches:
        if e['alg'] != ALG[r.alg]:
            a.true('%s: no search by %s' % (r.name, e['alg']), not_(e['cond']))
            continue
        for k in sorted(set(r.want) | set(e['settings'])):
            if k not in r.want or k not in e['settings']:
                a.undecided('%s: %s' % (r.name, k), 'not a parameter of the search or unknown')
                continue
            a.same('%s: %s of the search for %s' % (r.name, k, e['node']), e['settings'][k], r.want[k], under=e['cond'])
    for l in r.labels:
        a.same('%s: searches for %s' % (r.name, l), count(and_(e['cond'], eq(e['node'], const(l))) for e in r.searches if e['alg'] == ALG[r.alg]), ONE, under=r.got.ok)
    a.true(r.name + ': no failure', not_(r.got.raises))


each_case('C27', 'settings', settings_, ('tabu', 'hill'))


# ------------------------------------------------------------------ C23: same work in both modes
def work(r):
    a = r.a
    for l in r.labels:
        a.same('%s: searches for %s' % (r.name, l), count(and_(e['cond'], eq(e['node'], const(l))) for e in r.searches), ONE, under=r.got.ok)
    for e in r.searches:
        same = and_(const(e['alg'] == ALG[r.alg]), *[const(k in e['settings']) if k not in e['settings'] or k not in r.want else eq(e['settings'][k], r.want[k])
                                                     for k in sorted(set(r.want) | set(e['settings']))])
        a.true('%s: settings of the search for %s' % (r.name, e['node']), same, under=e['cond'])
    for u in r.labels:
        for w in r.labels:
            a.same('%s: %s->%s in the result' % (r.name, u, w), smember(tup(const(u), const(w)), r.got.val), r.edge(u, w), under=r.got.ok)
    for e in r.pools:
        a.true(r.name + ': workers within the processors', le(e['workers'], r.cpu), under=e['cond'])
        a.true(r.name + ': at least one worker', le(ONE, e['workers']), under=e['cond'])
        if 'limited' in r.mode:
            a.true(r.name + ': workers within the request', le(e['workers'], r.procs), under=e['cond'])
    if 'serial' in r.mode:
        a.true(r.name + ': no worker process', not_(or_(FALSE, *[e['cond'] for e in r.pools])))
    a.true(r.name + ': no failure', not_(r.got.raises))


each_case('C23', 'work', work)


# ------------------------------------------------------------------ C24: the reference edges play no part
def reference_gone(r):
    for e in r.searches:
        r.a.same('%s: no reference edge left when %s is searched' % (r.name, e['node']), e['left'], ZERO, under=e['cond'])
    if not r.searches:
        r.a.undecided(r.name + ': no reference edge left', 'no search seen')


each_case('C24', 'reference', reference_gone, nets=(L3,))


# ------------------------------------------------------------------ C25: one structure everywhere
def graph_(r):
    a = r.a
    E, A, N = [pair_get(r.got.val, k) for k in range(3)]
    for u in r.labels:
        for w in r.labels:
            f = r.edge(u, w)
            cu = tup(const(u), const(w))
            a.same('%s: %s->%s returned' % (r.name, u, w), smember(cu, E), f, under=r.got.ok)
            i, j = r.labels.index(u), r.labels.index(w)
            a.same('%s: adjacency of %s->%s' % (r.name, u, w), vg._mapl(A, lambda l: cell(l, num(i), num(j))), f, under=r.got.ok)
    a.same(r.name + ': shape', N, tup(num(len(r.labels)), num(len(r.labels))), under=r.got.ok)


each_case('C25', 'structure', graph_, modes=('serial', 'parallel'), nets=(L1, L2, L3), tail='M = est.adjacency_matrix()\nreturn (set(res), M, M.shape)')


def twice():
    for alg in ('tabu', 'hill', 'ctpc'):
        for mode in ('serial', 'parallel'):
            for labels in (L2, L3):
                name = '%s, %s, %d variables, estimated a second time' % (alg, mode, len(labels))

                def one(ctx, alg=alg, mode=mode, labels=labels, name=name):
                    r = estimation(ctx, labels, alg, mode, refs_for(labels), [('a', 'b')],
                                   'M = est.adjacency_matrix()\nreturn (set(res), M, M.shape)', again=True)
                    r.name, r.mode = name, mode
                    graph_(r)
                prop('C25', 'structure ' + name)(one)


twice()


def saved(r):
    a = r.a
    it, st = a.it, r.got.st
    a.true(r.name + ': no failure', not_(r.got.raises))
    writes = [e for e in it.events if e['kind'] == 'file-content']
    a.same(r.name + ': files written', count(e['cond'] for e in writes), ONE, under=r.got.ok)
    for k, e in enumerate(writes):
        ok = e['cond']
        f = it.simp(r.got.st, e['file'])
        if f.op != 'file':
            a.undecided(r.name + ': file', 'not an opened file: ' + f.op)
            continue
        a.same(r.name + ': file name', f.args[0], r.path, under=ok)
        v = e['value']
        v = v.args[1] if v.op == 'strm' and v.args[0] == 'json' else v
        part = lambda k: dget(v, const(k))[1]
        a.same(r.name + ': directed', part('directed'), TRUE, under=ok)
        entry = lambda *kv: dct(seq(*[vg.lst(tup(const(k), const(x))) for k, x in kv]))
        for u in r.labels:
            a.true('%s: node %s saved' % (r.name, u), has(a, st, part('nodes'), entry(('id', u))), under=ok)
            for w in r.labels:
                a.same('%s: %s->%s saved' % (r.name, u, w), has(a, st, part('links'), entry(('source', u), ('target', w))), r.edge(u, w), under=ok)
        a.same(r.name + ': nodes saved', slen(as_seq(part('nodes'))), num(len(r.labels)), under=ok)
        a.same(r.name + ': edges saved', slen(as_seq(part('links'))), count(r.edge(u, w) for u in r.labels for w in r.labels), under=ok)


def has(a, st, box, x):
    return vg._mapl(box, lambda l: contains_(a.it, st, l, x))


def each_saved():
    for alg in ('tabu', 'ctpc'):
        for labels in (L1, L2, L3):
            name = '%s, %d variables' % (alg, len(labels))

            def one(ctx, alg=alg, labels=labels, name=name):
                r = estimation(ctx, labels, alg, 'serial', refs_for(labels), [], 'est.save_results(path)\nreturn 0', path=True)
                r.name = name
                saved(r)
            prop('C25', 'saved file ' + name)(one)


each_saved()


def untouched(ctx):
    """before any estimation the stored graph is complete"""
    a = ctx.analysis()
    from .graph import named
    for labels in (L1, L3):
        s_, env, hints, below, head = named(a, labels)
        head += 'src = DataSource(Structure(V, I, C, [], n), Trajectory([t, D], n + 1), n, [])\nest = StructureScoreBasedEstimator(src, 0.1, 1, [])\n'
        got = a.run(head + 'return est.adjacency_matrix()', a.st.fork(), **env)
        for i, u in enumerate(labels):
            for j, w in enumerate(labels):
                a.same('%d variables: complete at %s->%s' % (len(labels), u, w), vg._mapl(got.val, lambda l: cell(l, num(i), num(j))), const(u != w), under=got.ok)


prop('C25', 'matrix before the estimation')(untouched)


# ------------------------------------------------------------------ C26: spurious edges
def spurious(refs, alg, labels):
    name = '%s, %d variables, reference %s' % (alg, len(labels), ' '.join('%s->%s' % e for e in refs) or 'none')

    def one(ctx):
        r = estimation(ctx, labels, alg, 'serial', refs, [], 'return list(est.spurious_edges())')
        a = r.a
        a.true(name + ': no failure', not_(r.got.raises))
        S = [(u, w) for u in labels for w in labels]
        for u, w in S:
            want = r.edge(u, w) if refs and (u, w) not in refs else FALSE
            a.same('%s: %s->%s reported' % (name, u, w), has(a, r.got.st, r.got.val, tup(const(u), const(w))), want, under=r.got.ok)
        a.same(name + ': reported once', vg._mapl(r.got.val, lambda l: slen(as_seq(l))),
               count(r.edge(u, w) for u, w in S if refs and (u, w) not in refs), under=r.got.ok)
    prop('C26', name)(one)


for _alg in ('tabu', 'hill', 'ctpc'):
    for _refs in ([], [('a', 'c')], [('b', 'a'), ('c', 'a'), ('a', 'b')], [(u, w) for u in 'abc' for w in 'abc' if u != w], [('a', 'c'), ('a', 'c'), ('c', 'a')]):
        spurious(_refs, _alg, L3)
    spurious([('b', 'a')], _alg, L2)


# ------------------------------------------------------------------ C24, end to end
def independent(alg, mode, refs):
    name = '%s, %s, reference %s' % (alg, mode, 'any' if refs is None else ' '.join('%s->%s' % e for e in refs))

    def one(ctx):
        from .search import choice_stub, score_stub
        from .ctpc import test_stub
        pick = choice_stub(L3)
        stubs = {'StructureScoreBasedEstimator.get_score_from_graph': score_stub(L3), 'random.choice': pick, 'numpy.random.choice': pick,
                 'StructureConstraintBasedEstimator.complete_test': test_stub}
        rs = []
        for R in (refs, []):
            r = full(ctx, alg, mode, R, stubs, short=refs is None)
            rs.append(r)
        a = rs[0].a
        a.same(name + '/refusal', rs[0].got.raises, rs[1].got.raises, hints=rs[0].hints)
        ok = and_(rs[0].got.ok, rs[1].got.ok)
        for u in L3:
            for w in L3:
                e = tup(const(u), const(w))
                a.same('%s: %s->%s estimated alike without the reference' % (name, u, w), smember(e, rs[0].got.val), smember(e, rs[1].got.val), under=ok,
                       hints=rs[0].hints, trials=100)
    prop('C24', 'end to end ' + name)(one)


def full(ctx, alg, mode, refs, stubs, short=False):
    from .graph import named
    a = ctx.analysis(stubs=stubs)
    a.it.unroll = 30
    s_, env, hints, below, head = named(a, L3)
    pairs = [(u, w) for u in L3 for w in L3 if u != w]
    if refs is None:
        # any reference network: every edge is there or not
        env.update({'has%d' % k: a.opaque('%s->%s in the reference' % e, 'bool') for k, e in enumerate(pairs)})
        head += 'R = []\n' + ''.join('if has%d:\n    R.append(%r)\n' % (k, e) for k, e in enumerate(pairs))
    else:
        head += 'R = %r\n' % (list(refs),)
    head += 'src = DataSource(Structure(V, I, C, list(R), n), Trajectory([t, D], n + 1), n, list(R))\n'
    tail = 'disable_multiprocessing=%r' % (mode == 'serial')
    if alg == 'ctpc':
        head += 'est = StructureConstraintBasedEstimator(src, 0.1, 0.1, [], 25)\nreturn set(est.estimate_structure(%s))' % tail
    else:
        head += 'est = StructureScoreBasedEstimator(src, 0.1, 1, [])\nreturn set(est.estimate_structure(iterations_number=%d, patience=None, optimizer=%r, %s))' % (1 if short else 2, alg, tail)
    r = Run()
    r.a, r.hints = a, dict(hints)
    r.hints[('uf', 'score')] = lambda m, e: evalterm.Q(m.rnd.randint(-5, 3), 2)
    r.got = a.run(head, a.st.fork(), **env)
    return r


for _alg in ('tabu', 'hill', 'ctpc'):
    for _mode in ('serial', 'parallel'):
        for _refs in (None, [('b', 'a'), ('c', 'a'), ('a', 'b')]):
            independent(_alg, _mode, _refs)
