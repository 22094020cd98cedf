"""Score-based searches, judged by the sequence of parent sets they score, for every outcome of draws and scores."""
from . import prop
from ..harness import *
from ..models import contains_
from ..calls import draw

TITLES = {
    'C13': 'kept exactly when better', 'C14': 'known edges stay', 'C15': 'limit on parents', 'C16': 'edges into the variable only',
    'C17': 'iterations and patience', 'C18': 'tabu rule',
}


def choice_stub(labels):
    """choice over a collection of labels: any of its elements, by a draw"""
    cs = [const(l) for l in labels]

    def f(it, st, args, kw):
        if len(args) != 1 or kw:
            return NotImplemented
        avail = [it.simp(st, contains_(it, st, args[0], c)) for c in cs]
        some = or_(FALSE, *avail)
        if some is FALSE:
            return NotImplemented
        it.raise_if(st, not_(some), 'IndexError')
        d = draw(it, st, 'pick', (), 'int')
        it.event(st, 'pick')
        LOWER[d] = 0
        UPPER[d] = num(len(cs))
        out = NONE
        n = len(cs)
        for k in reversed(range(n)):
            # the draw names the first label considered
            pick = cs[0]
            for j in reversed(range(n)):
                pick = ite(avail[(k + j) % n], cs[(k + j) % n], pick)
            out = pick if out is NONE else ite(eq(d, num(k)), pick, out)
        return it.simp(st, out)
    return f


def score_stub(labels):
    cs = [const(l) for l in labels]

    def f(it, st, args, kw):
        v = dict(zip(('self', 'graph', 'node_id'), args))
        v.update(kw)
        es = it.getattr(v['graph'], 'edges', st)
        x = v['node_id']
        flags = [it.simp(st, contains_(it, st, es, tup(c, x))) for c in cs]
        other = or_(FALSE, *[it.simp(st, contains_(it, st, es, tup(c, d))) for c in cs for d in cs if d is not x])
        r = vg.ufun('score', 'num', x, *flags)
        it.event(st, 'score', node=x, flags=flags, other=other, value=r)
        return r
    return f


class Run(object):
    pass


def search(ctx, labels, x, known, alg, iterations, limit, patience, tabu=(None, None)):
    from .graph import named
    pick = choice_stub(labels)
    a = ctx.analysis(stubs={'StructureScoreBasedEstimator.get_score_from_graph': score_stub(labels), 'random.choice': pick,
                            'numpy.random.choice': pick})
    s_, env, hints, below, head = named(a, labels)
    head += 'est = StructureScoreBasedEstimator(DataSource(Structure(V, I, C, [], n), Trajectory([t, D], n + 1), n, []), 0.1, 1, %r)\n' % (known,)
    if alg == 'hill':
        head += 'o = HillClimbing(node_id=%r, structure_estimator=est, max_parents=%r, iterations_number=%r, patience=%r)\n' % (x, limit, iterations, patience)
    else:
        head += 'o = TabuSearch(node_id=%r, structure_estimator=est, max_parents=%r, iterations_number=%r, patience=%r, tabu_length=%r, ' \
                'tabu_rules_duration=%r)\n' % (x, limit, iterations, patience, tabu[0], tabu[1])
    r = Run()
    r.got = a.run(head + 'return set(o.optimize_structure())', a.st.fork(), **env)
    r.a, r.labels, r.x, r.known, r.limit, r.patience, r.iterations, r.tabu, r.alg = a, labels, x, known, limit, patience, iterations, tabu, alg
    r.hints = {('uf', 'score'): lambda m, e: evalterm.Q(m.rnd.randint(-5, 3), 2)}
    r.events = [e for e in a.it.events if e['kind'] == 'score']
    made = [e['cond'] for e in a.it.events if e['kind'] == 'put'] or [e['cond'] for e in a.it.events if e['kind'] == 'pick']
    r.made = count(made)
    cs = {l: const(l) for l in labels}
    r.kp = [l for l in labels if (l, x) in known]
    r.cand = [l for l in labels if l != x and l not in r.kp]
    r.ret = {(u, w): smember(tup(cs[u], cs[w]), r.got.val) for u in labels for w in labels} if r.got.ok is not FALSE else {}
    return r


def count(bs):
    return add(ZERO, *[ite(b, ONE, ZERO) for b in bs])


def fold(r):
    """the reading of the sequence: proposals, the parent set kept, consecutive failures"""
    ls = [l for l in r.labels if l != r.x]
    cur = {l: const(l in r.kp) for l in ls}
    started, best, fails, steps = FALSE, ZERO, ZERO, ZERO
    out = []
    for e in r.events:
        E = dict(zip(r.labels, e['flags']))
        c = e['cond']
        p = Run()
        p.cond, p.first = and_(c, started), and_(c, not_(started))
        p.E, p.cur, p.best, p.fails, p.steps, p.value = E, cur, best, fails, steps, e['value']
        p.added = {l: and_(E[l], not_(cur[l])) for l in ls}
        p.gone = {l: and_(cur[l], not_(E[l])) for l in ls}
        p.self_loop, p.other = E[r.x], e['other']
        out.append(p)
        better = lt(best, e['value'])
        keep = and_(p.cond, better)
        fails = ite(p.cond, ite(better, ZERO, add(fails, ONE)), fails)
        steps = ite(p.cond, add(steps, ONE), steps)
        best = ite(or_(p.first, keep), e['value'], best)
        cur = {l: ite(or_(keep, p.first), E[l], cur[l]) for l in ls}
        started = or_(started, c)
    return out, cur, started, steps, fails


def oblige(r, pid, name):
    a = r.a
    kw = dict(hints=r.hints, trials=300)
    ps, cur, started, steps, fails = fold(r)
    bad = r.got.raises
    ok = not_(bad)
    ls = [l for l in r.labels if l != r.x]
    full = r.limit is not None and len(r.kp) >= r.limit
    top = None if r.limit is None else max(r.limit, len(r.kp))
    if any(any(z.unk for z in (p.cond, p.first, p.value)) for p in ps) or any(v.unk for v in r.ret.values()):
        return a.undecided(name, 'unmodelled construct: ' + unk_names([z for p in ps for z in (p.cond, p.first, p.value)] + list(r.ret.values())))
    if not r.events and r.cand and not full:
        return a.undecided(name, 'no scored parent set seen')
    if pid == 'C13':
        a.true(name + ': the search starts from the known parents', and_(TRUE, *[imp(p.first, iff(p.E[l], const(l in r.kp))) for p in ps for l in ls]), **kw)
        one = []
        for p in ps:
            na, ng = count(p.added.values()), count(p.gone.values())
            shape = or_(and_(eq(na, ONE), eq(ng, ZERO)), and_(eq(na, ZERO), eq(ng, ONE)), and_(eq(na, ONE), eq(ng, ONE)))
            one.append(imp(p.cond, shape))
        for k, c in enumerate(one):
            a.true('%s: proposal %d differs from the best parent set so far by one move' % (name, k), c, **kw)
        a.true(name + ': the best parent set is returned',
               and_(TRUE, *[iff(r.ret[(l, r.x)], cur[l]) for l in ls if r.ret] or [TRUE]), under=ok, **kw)
    elif pid == 'C14':
        for l in r.kp:
            a.true('%s: %s is returned' % (name, l), r.ret[(l, r.x)] if r.ret else FALSE, under=ok, **kw)
            a.true('%s: %s is in every scored parent set' % (name, l), and_(TRUE, *[imp(or_(p.cond, p.first), p.E[l]) for p in ps]), **kw)
    elif pid == 'C15':
        if top is not None:
            a.true(name + ': scored sets within the limit', and_(TRUE, *[imp(or_(p.cond, p.first), le(count(p.E[l] for l in ls), num(top))) for p in ps]), **kw)
            if r.ret:
                a.true(name + ': returned set within the limit', le(count(r.ret[(l, r.x)] for l in ls), num(top)), under=ok, **kw)
            a.true(name + ': a parent is removed for another one only at the limit',
                   and_(TRUE, *[imp(and_(p.cond, lt(ZERO, count(p.added.values())), lt(ZERO, count(p.gone.values()))),
                                    le(num(top), count(p.cur.values()))) for p in ps]), **kw)
        else:
            a.true(name + ': nothing is evicted', and_(TRUE, *[imp(and_(p.cond, lt(ZERO, count(p.added.values()))),
                                                                   eq(count(p.gone.values()), ZERO)) for p in ps]), **kw)
    elif pid == 'C16':
        a.true(name + ': returned edges end in the variable', not_(or_(FALSE, *[c for (u, w), c in r.ret.items() if w != r.x or u == w])), under=ok, **kw)
        a.true(name + ': scored edges end in the variable', and_(TRUE, *[imp(or_(p.cond, p.first), not_(or_(p.other, p.self_loop))) for p in ps]), **kw)
        if not full and r.cand and r.iterations and r.patience is None:
            reachable(r, name + ': every other variable is a possible %sproposal' % ('first ' if r.alg == 'tabu' else ''), ps, first=r.alg == 'tabu')
    elif pid == 'C17':
        a.true(name + ': no failure', ok, **kw)
        a.true(name + ': at most %d proposals' % r.iterations, le(steps, num(r.iterations)), **kw)
        if r.patience is not None:
            a.true(name + ': nothing is scored once the patience is exceeded', and_(TRUE, *[imp(p.cond, le(p.fails, num(r.patience))) for p in ps]), **kw)
        if r.cand and not full:
            stop = lt(num(r.patience), fails) if r.patience is not None else FALSE
            # proposals without a score of their own (a parent set scored before): seen by what was drawn or marked
            unseen = lt(steps, r.made)
            a.true(name + ': ends by the iteration limit or the patience', or_(eq(steps, num(r.iterations)), stop, unseen), under=ok, **kw)
    elif pid == 'C18':
        tabu_rule(r, name, ps, kw)
    return None


def proposals(r, ps, tabu):
    """the sequences of proposals the rule allows"""
    n = len(r.cand)
    length = n if r.tabu[0] is None else r.tabu[0]
    duration = n if r.tabu[1] is None else r.tabu[1]

    def go(sofar, queue, since):
        if len(sofar) == r.iterations:
            yield sofar
            return
        free = [l for l in r.cand if l not in queue]
        for l in (free or queue[:1]) if tabu else r.cand:
            q, s = [m for m in queue if m != l] + [l], since + 1
            if len(q) > length:
                q = q[1:]
            if s >= duration:
                q, s = q[1:], 0
            yield from go(sofar + (l,), q, s)
    return set(go((), [], 0))


def reachable(r, name, ps, tabu=False, first=False):
    """each allowed sequence of proposals belongs to some interpretation of draws and scores"""
    a = r.a
    want = {(l,) for l in r.cand} if first else proposals(r, ps, tabu)
    if len(want) > 100:
        return
    left, tries = set(want), 0
    for k in range(60 * len(want) + 200):
        m = evalterm.Model(50021 + k, r.hints, 3)
        try:
            if not all(m.cond(c, {}) for c in a.assume):
                continue
            seen = []
            for p in ps:
                if m.cond(p.cond, {}):
                    on = [l for l in r.cand if m.cond(p.added[l], {})] or [l for l in r.cand if m.cond(p.gone[l], {})]
                    seen += on[:1]
        except evalterm.Reject:
            continue
        except evalterm.NoModel as e:
            return a.undecided(name, str(e))
        tries += 1
        left.discard(tuple(seen[:1] if first else seen))
        if not left:
            break
    if left:
        return a.fail(name, 'never proposed: %s' % ' then '.join(min(left)))
    a.ok(name, '%d sequences in %d interpretations' % (len(want), tries))


def tabu_rule(r, name, ps, kw):
    a, cand = r.a, r.cand
    length = len(cand) if r.tabu[0] is None else r.tabu[0]
    duration = len(cand) if r.tabu[1] is None else r.tabu[1]
    mark = {l: num(-1) for l in cand}           # step at which a candidate was marked, -1 when it is free
    since = ZERO

    def free(l):
        return lt(mark[l], ZERO)

    def oldest(l):
        return and_(not_(free(l)), *[or_(free(m), le(mark[l], mark[m])) for m in cand if m != l])

    for k, p in enumerate(ps):
        some = or_(FALSE, *p.added.values())
        prop_ = {l: or_(p.added[l], and_(not_(some), p.gone[l])) for l in cand}
        room = or_(FALSE, *[free(l) for l in cand])
        a.true('%s: proposal %d is free, or the longest marked when all are marked' % (name, k), imp(p.cond, or_(FALSE, *[
            and_(prop_[l], ite(room, free(l), oldest(l))) for l in cand])), **kw)
        mark = {l: ite(and_(p.cond, prop_[l]), p.steps, mark[l]) for l in cand}
        over = and_(p.cond, lt(num(length), count(not_(free(l)) for l in cand)))
        gone = {l: and_(over, oldest(l)) for l in cand}
        mark = {l: ite(gone[l], num(-1), mark[l]) for l in cand}
        since = ite(p.cond, add(since, ONE), since)
        due = and_(p.cond, le(num(duration), since))
        gone = {l: and_(due, oldest(l)) for l in cand}
        mark = {l: ite(gone[l], num(-1), mark[l]) for l in cand}
        since = ite(due, ZERO, since)
    if cand and r.patience is None:
        reachable(r, name + ': every free variable is a possible proposal', ps, True)


def imp(a, b):
    return or_(not_(a), b)


def possible(a, name, c, r):
    """some interpretation satisfies c"""
    if c is TRUE:
        return a.ok(name, 'always')
    if c is FALSE:
        return a.fail(name, 'no path proposes it')
    v, d = evalterm.compare([('possible', c, FALSE)], list(a.assume), trials=600, hints=r.hints)
    if v == 'differ':
        return a.ok(name, 'a path proposes it')
    if v == 'agree':
        return a.fail(name, 'no interpretation found in which it is proposed (%s)' % d)
    return a.undecided(name, str(d))


L3, L4 = ['a', 'b', 'c'], ['d', 'b', 'c', 'a']
PLANS = [
    # labels, variable, known edges, iterations, limit, patience
    (['a'], 'a', [], 2, None, None),
    (['a', 'b'], 'a', [('b', 'a')], 2, None, 1),
    (['a', 'b'], 'b', [], 3, None, None),
    (L3, 'b', [], 3, None, None),
    (L3, 'a', [], 3, 1, None),
    (L3, 'a', [], 3, 2, None),
    (L3, 'c', [], 2, 0, None),
    (L3, 'c', [('a', 'c')], 3, 1, None),
    (L3, 'c', [('a', 'c'), ('b', 'a')], 3, 2, None),
    (L3, 'b', [], 4, None, 0),
    (L3, 'b', [], 4, None, 1),
    (L4, 'c', [('b', 'c')], 3, 2, None),
    (L4, 'a', [], 3, None, 1),
    (L4, 'd', [('a', 'd'), ('b', 'd'), ('c', 'b')], 3, 1, None),
    (L4, 'd', [('a', 'd'), ('b', 'd'), ('d', 'c')], 3, 3, None),
    (L3, 'c', [], 0, None, None),
]


def title(plan, alg, tabu=None):
    labels, x, known, it, limit, pat = plan
    return '%s, %d variables, %s%s, %d iterations%s%s%s' % (
        alg, len(labels), x, ' with known parents %s' % ''.join(u for u, w in known if w == x) if known else '', it,
        '' if limit is None else ', limit %d' % limit, '' if pat is None else ', patience %d' % pat,
        '' if tabu is None else ', tabu %s/%s' % tabu)


def add_case(pid, plan, alg, tabu=(None, None)):
    labels, x, known, its, limit, pat = plan
    name = title(plan, alg, tabu if alg == 'tabu' and tabu != (None, None) else None)

    def one(ctx):
        r = search(ctx, labels, x, known, alg, its, limit, pat, tabu)
        oblige(r, pid, name)
    prop(pid, name)(one)


for _pid in ('C13', 'C14', 'C15', 'C16', 'C17'):
    for _alg in ('hill', 'tabu'):
        for _p in PLANS:
            if _pid == 'C14' and not any(w == _p[1] for u, w in _p[2]):
                continue
            add_case(_pid, _p, _alg)

TABU_PLANS = [
    ((L3, 'b', [], 4, None, None), (None, None)),
    ((L3, 'a', [], 4, None, None), (1, 1)),
    ((L3, 'a', [], 4, None, None), (1, 3)),
    ((L3, 'a', [], 4, None, None), (5, 5)),
    ((L3, 'c', [], 4, None, None), (2, 3)),
    ((L3, 'c', [], 4, 1, None), (1, 5)),
    ((L3, 'c', [], 3, 1, 1), (None, 5)),
    ((L3, 'a', [], 3, None, None), (0, 2)),
    ((['a', 'b'], 'b', [], 3, None, None), (None, None)),
    ((L3, 'c', [('a', 'c')], 3, 2, None), (None, None)),
    ((L4, 'a', [], 3, None, None), (1, 4)),
    ((L4, 'a', [('b', 'a')], 4, None, None), (None, 7)),
    ((L4, 'a', [('b', 'a')], 4, 2, None), (2, None)),
    ((L4, 'd', [], 3, 2, None), (2, 2)),
    ((L4, 'd', [], 3, None, 0), (9, 9)),
]
for _p, _t in TABU_PLANS:
    add_case('C18', _p, 'tabu', _t)
    add_case('C17', _p, 'tabu', _t)
    add_case('C13', _p, 'tabu', _t)
