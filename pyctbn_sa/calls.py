"""Models of method calls on library values."""
from .models import *
from .models import _cast
from . import models as M
from . import vg

AX_NONE = object()


# ================================================================ helpers
def build(it, st, iterable, f):
    """run f(state, element, out) for every element; returns the list built in `out`"""
    out = it.new_list(st)

    def body(q, elem):
        outer, it.pending = it.pending, []
        try:
            try:
                f(q, elem, out)
                fl = Flows(q if q.cond is not FALSE else None)
            except Dead:
                fl = Flows(None)
            fl.exc = it.pending + fl.exc
        finally:
            it.pending = outer
        return fl
    fl = it.loop_over(st.fork(), iterable, body, it.cur)
    it.pending += fl.exc
    if fl.nxt is None:
        st.cond = FALSE
        raise Dead()
    keep = st.val
    st.become(fl.nxt)
    st.val = keep
    return out


def append(it, st, ref, x):
    it.setf(st, ref, 'seq', concat(st.heap[ref].f['seq'], vg.lst(x)))


def mapped(it, st, fnv, its):
    its = list(its)
    src = its[0] if len(its) == 1 else zip_value(it, st, its)

    def f(q, e, out):
        args = [e] if len(its) == 1 else [pair_get(e, k) for k in range(len(its))]
        append(it, q, out, it.call(fnv, args, {}, q))
    return build(it, st, src, f)


def filtered(it, st, fnv, x):
    def f(q, e, out):
        c = it.truth(q, e if is_none(fnv) else it.call(fnv, [e], {}, q))

        def yes(s):
            append(it, s, out, e)
            return NONE
        it.branch(q, c, yes, lambda s: NONE)
    return build(it, st, x, f)


def zip_pieces(ss):
    """element-wise pairing of sequences built the same way, or None"""
    if any(s.op == 'ite' for s in ss):
        r = lift('zipl', lambda *qs: zip_pieces(list(qs)) or mk('nozip'), tuple(ss))
        return None if any(l.op == 'nozip' for l in leaves(r)) else r
    if any(s.op != 'seq' for s in ss):
        return None
    if len({len(s.args) for s in ss}) != 1:
        return None
    out = []
    for ps in zip(*[s.args for s in ss]):
        if all(p.op == 'el' for p in ps):
            out.append(vg.lst(tup(*[p.args[0] for p in ps])))
            continue
        if any(p.op == 'el' for p in ps):
            return None
        ns = {vg._piece_len(p) for p in ps}
        units = [p.op == 'spl' or vg._unit(p.args[2][0]) for p in ps]
        if all(units):
            if len(ns) != 1:
                return None
            v = fresh(ns.pop())
            out.append(make_flat([v], (vg.lst(tup(*[vg._piece_at(p, v) for p in ps])),)))
            continue
        if any(p.op != 'flat' for p in ps) or len({p.args[1][0] for p in ps}) != 1:
            return None
        v = fresh(ps[0].args[1][0])
        b = zip_pieces([inst(p, [v])[0] for p in ps])
        if b is None:
            return None
        out.append(make_flat([v], (b,)))
    return seq(*out) if out else NIL


def wrap_of(it, st, v):
    """(length, wrap term) to iterate v by position"""
    if v.op == 'ref' and st.heap[v].kind in ('arr', 'view'):
        a = it.arr(st, v)
        if a.op != 'ite' and arr_dims(a) is not None and len(arr_dims(a)) > 1 and arr_guard_free0(a):
            return arr_dims(a)[0], mk('rowof', v)
    if v.op == 'iter' and len(v.args) > 1 and v.args[0].op == 'seq':
        return slen(v.args[0]), v.args[1]
    s = it.seq(st, v)
    return slen(s), mk('seqof', s)


def zip_value(it, st, vs):
    vs = [it.simp(st, v) for v in vs]
    reps = [v.op == 'repeat' for v in vs]
    if all(reps):
        return it.unk('zip of repeats')
    if any(reps):
        k = reps.index(False)
        v0 = vs[k]
        n, w0 = wrap_of(it, st, v0)
        s0 = it.seq(st, v0) if w0.op == 'seqof' else None
        if s0 is not None:
            if sum(not r for r in reps) > 1:
                z = zip_value(it, st, [v for v, r in zip(vs, reps) if not r])
                zs = it.seq(st, z)
                pos_ = {}
                j = 0
                for q, r in enumerate(reps):
                    if not r:
                        pos_[q] = j
                        j += 1
                return mk('iter', seq_map(zs, lambda p: tup(*[vs[q].args[0] if r else pair_get(p, pos_[q])
                                                              for q, r in enumerate(reps)])))
            return mk('iter', seq_map(s0, lambda x: tup(*[vs[q].args[0] if r else x for q, r in enumerate(reps)])))
    info = [wrap_of(it, st, v) for v in vs]
    if all(w.op == 'seqof' for _, w in info):
        z = zip_pieces([w.args[0] for _, w in info])
        if z is not None:
            return mk('iter', z)
    n = info[0][0]
    for m, _ in info[1:]:
        if m is not n:
            n = M.min_(n, m)
    return mk('iter', it.range_seq(n), mk('tup', *[w for _, w in info]))


def enumerate_value(it, st, v, start):
    v = it.simp(st, v)
    n, w = wrap_of(it, st, v)
    if w.op == 'seqof':
        s = w.args[0]
        if s.op == 'seq':
            out, off, ok = [], start, True
            for p in s.args:
                if p.op == 'el':
                    out.append(vg.lst(tup(off, p.args[0])))
                elif p.op == 'spl' or vg._unit(p.args[2][0]):
                    i = fresh(vg._piece_len(p))
                    out.append(make_flat([i], (vg.lst(tup(add(off, i), vg._piece_at(p, i))),)))
                else:
                    # position of a selected element
                    i = fresh(p.args[1][0])
                    b = inst(p, [i])[0]
                    if all(l is NIL or (l.op == 'seq' and len(l.args) == 1 and l.args[0].op == 'el') for l in leaves(b)):
                        j = fresh(i)
                        r = make_sum([j], (slen(subst(b, {i: j})),))
                        out.append(make_flat([i], (vg._mapl(b, lambda l: l if l is NIL else
                                                            vg.lst(tup(add(off, r), l.args[0].args[0]))),)))
                    else:
                        ok = False
                        break
                off = add(off, vg._piece_len(p))
            if ok:
                return mk('iter', seq(*out) if out else NIL)
        if s.op == 'ite':
            return mk('iter', vg._mapl(s, lambda l: it.seq(st, enumerate_value(it, st, mk('iter', l), start))))
    return mk('iter', it.range_seq(n), mk('tup', mk('count', start), w))


def draw(it, st, kind, args=(), sort='num', extra=()):
    k = st.draws.get(kind, 0)
    st.draws[kind] = k + 1
    t = mk('draw', kind, num(k), tuple(it.deep(st, a) for a in args), tuple(it.loopvars) + tuple(extra))
    it.event(st, 'draw', draw=kind, args=list(args), term=t)
    DRAW_SORT[(kind)] = sort
    return t


DRAW_SORT = {}
SORT_RULES['draw'] = lambda t: DRAW_SORT.get(t.args[0], 'num')


def deepcopy(it, st, v):
    mp = {}

    def cp(r):
        if r in mp:
            return mp[r]
        c = st.heap[r]
        if c.kind == 'view':
            n = it.new_arr(st, it.arr(st, r))
            mp[r] = n
            return n
        n = it.alloc(st, c.kind, {}, c.cls)
        mp[r] = n
        f = {k: conv(x) for k, x in c.f.items()}
        view = None
        from .interp import Cell
        st.heap[n] = Cell(c.kind, f, c.cls, view)
        return n

    def conv(t):
        refs = refs_in(t)
        for r in refs:
            t = replace_term(t, r, cp(r))
        return t
    return conv(v)


def refs_in(t):
    out, memo = {}, set()

    def go(x):
        if x.id in memo:
            return
        memo.add(x.id)
        if x.op == 'ref':
            out[x] = True
        for k in vg._kids(x.args, []):
            go(k)
    go(t)
    return list(out)


def shallow(it, st, v):
    if v.op == 'ref':
        c = st.heap[v]
        if c.kind == 'view':
            return it.new_arr(st, it.arr(st, v))
        return it.alloc(st, c.kind, dict(c.f), c.cls)
    return v


# ================================================================ arrays
def reshape_to(it, st, a, dims):
    """array term with new dimensions"""
    if a.op == 'ite':
        return vg._mapl(a, lambda l: reshape_to(it, st, l, dims))
    ds = list(arr_dims(a))
    vs = [fresh(d) for d in ds]
    g = arr_guard(a, *vs)
    unknown = [k for k, d in enumerate(dims) if d.op == 'n' and d.args[0] == -1]
    if g is not TRUE:
        # selected elements: keep the selection
        real = [d for d in ds if d is not ONE]
        if len(dims) == 1 and unknown:
            return drop_unit(a) if len(ds) > 1 else a
        if len(ds) == 2 and len(dims) == 2 and dims[0] is ds[0] and (unknown == [1] or dims[1] is sub(ds[1], ONE)):
            return a
        return mk('unk', 'reshape of selection', (a,))
    size = ONE
    for d in ds:
        size = mul(size, d)
    nd = list(dims)
    if unknown:
        rest = ONE
        for k, d in enumerate(nd):
            if k not in unknown:
                rest = mul(rest, d)
        nd[unknown[0]] = quot(size, rest)
    return M.reshape_view(ds, nd).read(a)


def quot(a, b):
    if b is ONE:
        return a
    q = div(a, b)
    if sort_of(q) == 'int' or is_num(q):
        return q
    return fdiv(a, b)


def drop_unit(a):
    ds = arr_dims(a)
    keep = [k for k, d in enumerate(ds) if d is not ONE]
    if len(keep) != 1:
        return a
    vs = [fresh(ds[k]) for k in keep]
    ix = [ZERO] * len(ds)
    for k, v in zip(keep, vs):
        ix[k] = v
    return make_arr(vs, (arr_guard(a, *ix), vg.cell(a, *ix)), (arr_dtype(a),))


def reshape(it, st, v, dims):
    a = it.arr(st, v)
    if a.op != 'ite' and arr_dims(a) is not None and arr_guard_true(a) and M.array_ref(it, st, v):
        ds = list(arr_dims(a))
        nd = list(dims)
        unknown = [k for k, d in enumerate(nd) if d.op == 'n' and d.args[0] == -1]
        size = ONE
        for d in ds:
            size = mul(size, d)
        if unknown:
            rest = ONE
            for k, d in enumerate(nd):
                if k not in unknown:
                    rest = mul(rest, d)
            nd[unknown[0]] = quot(size, rest)
        return M.make_view(it, st, v, M.reshape_view(ds, nd))
    return it.new_arr(st, reshape_to(it, st, a, dims))


def arr_guard_true(a):
    return a.op != 'arr' or a.args[2][0] is TRUE


def dims_arg(it, st, args):
    if len(args) == 1 and it.kind(st, args[0]) in ('tuple', 'list', 'arr'):
        s = it.seq(st, args[0])
        if s.op == 'seq' and all(p.op == 'el' for p in s.args):
            return [tonum(p.args[0]) for p in s.args]
        ls = leaves(s)
        if all(l.op == 'seq' and len(l.args) == len(ls[0].args) and all(p.op == 'el' for p in l.args) for l in ls):
            # one of several shapes of the same rank
            return [tonum(vg._mapl(s, lambda l, k=k: l.args[k].args[0])) for k in range(len(ls[0].args))]
        return None
    return [tonum(x) for x in args]


def norm_axis(ax, n):
    k = iconst(ax)
    if k is None:
        return None
    return k % n


def reduce_axis(a, axis, closer, empty, conv, keepdims=False, dtype=None):
    """fold an axis (or all axes) of an array term"""
    def one(x):
        ds = arr_dims(x)
        vs = [fresh(d) for d in ds]
        g = arr_guard(x, *vs)
        e = conv(vg.cell(x, *vs))
        e = ite(g, e, empty) if g is not TRUE else e
        if axis is None:
            return closer(vs, e)
        ks = [axis] if isinstance(axis, int) else list(axis)
        r = closer([vs[k] for k in ks], e)
        rest = [v for k, v in enumerate(vs) if k not in ks]
        if keepdims:
            full = [fresh(ONE) if k in ks else vs[k] for k in range(len(vs))]
            return make_arr(full, (TRUE, r), (dtype or elem_dtype(r),))
        if not rest:
            return r
        gr = row_guard(g, rest, ks, vs)
        return make_arr(rest, (gr, r), (dtype or elem_dtype(r),))
    return vg._mapl(a, one)


def row_guard(g, rest, ks, vs):
    """guard of the remaining axes of a selection (rows selected independently of the folded axes)"""
    folded = frozenset(vs[k] for k in ks)
    if g is TRUE or not (g.deps & folded):
        return g
    return TRUE


def a_sum(a, axis=None, keepdims=False):
    return reduce_axis(a, axis, lambda vs, e: make_sum(vs, (e,)), ZERO, tonum, keepdims)


def a_prod(a, axis=None, keepdims=False):
    return reduce_axis(a, axis, lambda vs, e: make_prod(vs, (e,)), ONE, tonum, keepdims)


def a_any(a, axis=None):
    return reduce_axis(a, axis, lambda vs, e: make_ex(vs, (e,)), FALSE, vg.truth, dtype='bool')


def a_all(a, axis=None):
    return reduce_axis(a, axis, lambda vs, e: vg.make_all(vs, (e,)), TRUE, vg.truth, dtype='bool')


def a_cum(a, prod):
    def one(x):
        if not arr_guard_true(x) or len(arr_dims(x)) != 1:
            return mk('unk', 'cumulative operation', (x,))
        v = fresh(arr_dims(x)[0])
        w = fresh(add(v, ONE))
        e = (make_prod if prod else make_sum)([w], (tonum(vg.cell(x, w)),))
        return make_arr([v], (TRUE, e), (elem_dtype(e),))
    return vg._mapl(a, one)


for _n in ('amax', 'amin', 'median', 'std'):
    SORT_RULES[_n] = lambda t: 'int' if arr_dtype(t.args[0]) == 'int' and t.op in ('amax', 'amin') else 'num'
for _n in ('argmin', 'argmax'):
    SORT_RULES[_n] = lambda t: 'int'


def a_ext(it, name, a):
    def one(x):
        if x.op == 'arr' and len(arr_dims(x)) == 1 and is_num(arr_dims(x)[0]) and arr_guard_true(x) and name in ('amax', 'amin'):
            n = iconst(arr_dims(x)[0])
            if n and n <= 4:
                r = vg.cell(x, ZERO)
                for k in range(1, n):
                    r = (M.max_ if name == 'amax' else M.min_)(r, vg.cell(x, num(k)))
                return r
        return mk(name, x)
    return vg._mapl(a, one)


def a_argpick(name, a):
    def one(x):
        n = iconst(arr_dims(x)[0]) if x.op == 'arr' and len(arr_dims(x)) == 1 and arr_guard_true(x) else None
        if not n or n > 4:
            return mk(name, x)
        best, bv = ZERO, vg.cell(x, ZERO)
        for k in range(1, n):
            c = vg.cell(x, num(k))

            def ahead(p, q):
                # a NaN comes before any number
                if p is NAN or q is NAN:
                    return TRUE if q is NAN and p is not NAN else FALSE
                return lt(q, p) if name == 'argmin' else lt(p, q)
            h = lift(('ahead', name), ahead, (bv, c))
            best, bv = ite(h, num(k), best), ite(h, c, bv)
        return best
    return vg._mapl(a, one)


def wrap_arr(it, st, v, r):
    """result of an elementwise method in the shape of v"""
    if v.op == 'ser':
        return M.ser(r, *v.args[1:3])
    return it.new_arr(st, r)


def arr_result(it, st, r):
    la = leaves(r)
    if any(arr_dims(l) is not None for l in la):
        return it.new_arr(st, r)
    return r


def axis_of(it, args, kwargs, k, n):
    ax = arg(args, kwargs, k, 'axis')
    if is_none(ax):
        return None
    if ax.op == 'tup':
        r = [norm_axis(x, n) for x in ax.args]
        return None if None in r else r
    return norm_axis(ax, n)


def diagonal_term(a):
    def one(x):
        ds = arr_dims(x)
        if len(ds) == 2:
            v = fresh(ds[0])
            return make_arr([v], (arr_guard(x, v, v), vg.cell(x, v, v)), (arr_dtype(x),))
        return mk('unk', 'diagonal', (x,))
    return vg._mapl(a, one)


def arr_method(it, st, v, name, args, kwargs):
    a = it.arr(st, v)
    la = leaves(a)
    if any(arr_dims(l) is None for l in la):
        return it.unk('method %s of unknown array' % name, v, *args)
    rank = len(arr_dims(la[0]))
    if name in ('sum', 'prod', 'any', 'all', 'max', 'min', 'mean', 'cumsum', 'cumprod', 'argmin', 'argmax', 'idxmin', 'idxmax'):
        ax = axis_of(it, args, kwargs, 0, rank)
        if rank == 1:
            ax = None
        kd = arg(args, kwargs, None, 'keepdims') is TRUE
        if name == 'sum':
            return arr_result(it, st, a_sum(a, ax, kd))
        if name == 'prod':
            return arr_result(it, st, a_prod(a, ax, kd))
        if name == 'any':
            return arr_result(it, st, a_any(a, ax))
        if name == 'all':
            return arr_result(it, st, a_all(a, ax))
        if name == 'mean':
            if ax is None:
                return div(a_sum(a), vg._mapl(a, M.arr_size))
            return it.unk('mean')
        if name in ('cumsum', 'cumprod'):
            if rank != 1:
                return it.unk('cumulative operation')
            return wrap_arr(it, st, v, a_cum(a, name == 'cumprod'))
        if ax is not None:
            return it.unk(name + ' along an axis')
        if name in ('max', 'min'):
            return a_ext(it, 'a' + name, a)
        return a_argpick({'idxmin': 'argmin', 'idxmax': 'argmax'}.get(name, name), a)
    if name == 'astype':
        dt = dtype_of(arg(args, kwargs, 0, 'dtype'))
        if dt == 'any':
            return it.unk('astype')
        if kwargs.get('copy') is FALSE and v.op in ('ref', 'view') and arr_dtype(a) == dt:
            return v
        if kwargs.get('copy', TRUE) is not TRUE and kwargs['copy'] is not FALSE:
            return it.unk('astype')
        return wrap_arr(it, st, v, arr_cast(a, dt))
    if name in ('copy', '__copy__', 'to_numpy', '__array__', 'toarray', 'todense', 'infer_objects', 'reset_index', '__deepcopy__',
                'squeeze'):
        if name in ('to_numpy',):
            dt = dtype_of(arg(args, kwargs, 0, 'dtype'))
            return M.shared_arr(it, st, arr_cast(a, dt), v.args[3] if len(v.args) > 3 else None) if v.op == 'ser' else \
                it.new_arr(st, arr_cast(a, dt))
        if name == 'reset_index':
            return M.ser(a, v.args[1]) if v.op == 'ser' and kwargs.get('drop') is TRUE else it.unk('reset_index')
        return v if name == 'squeeze' and v.op in ('ref', 'view') and ONE not in arr_dims(la[0]) else wrap_arr(it, st, v, a)
    if name == 'view' and not args and not kwargs and v.op in ('ref', 'view'):
        return v
    if name == 'reshape':
        d = dims_arg(it, st, args)
        if d is None:
            return it.unk('reshape')
        return reshape(it, st, v, d)
    if name == 'ravel':
        return reshape(it, st, v, [num(-1)]) if rank > 1 or not arr_guard_true(la[0]) else v
    if name == 'flatten':
        return it.new_arr(st, reshape_to(it, st, a, [num(-1)]))
    if name in ('diagonal', 'diag'):
        return it.new_arr(st, diagonal_term(a))
    if name in ('tolist', 'to_list'):
        if rank == 1:
            return it.new_list(st, arr_to_seq_all(a))
        return it.new_list(st, as_seq(a))
    if name == 'transpose':
        return M.attr(it, st, v, 'T')
    if name == 'dot':
        return M.matmul(it, st, a, it.arr(st, args[0]))
    if name == 'fill':
        M.store(it, st, v, lambda ix: TRUE, lambda ix, o: args[0])
        return NONE
    if name == 'nonzero':
        return mk('tup', it.new_arr(st, where1(a)))
    if name == 'item':
        return lift('item', lambda x: vg.cell(x, *[ZERO] * len(arr_dims(x))), (a,))
    if name == 'round':
        return wrap_arr(it, st, v, emap1(lambda x: fn('round', x, *args[:1]), a))
    if name in ('shift', 'diff', 'fillna', 'isin', 'isna', 'isnull', 'notna', 'notnull', 'dropna', 'map', 'apply', 'eq', 'ne',
                'add', 'sub', 'mul', 'div', 'where', 'unique', 'equals'):
        if name == 'shift':
            k = iconst(arg(args, kwargs, 0, 'periods', ONE))
            fill = arg(args, kwargs, None, 'fill_value', NAN)
            return wrap_arr(it, st, v, M.ser_shift(a, k, fill)) if k else it.unk('shift')
        if name == 'diff':
            k = iconst(arg(args, kwargs, 0, 'periods', ONE))
            return wrap_arr(it, st, v, M.ser_diff(a, k)) if k else it.unk('diff')
        if name == 'fillna' and (set(kwargs) - {'value'} or not args and not kwargs):
            return it.unk('fillna')
        if name == 'fillna':
            return wrap_arr(it, st, v, M.fillna(a, arg(args, kwargs, 0, 'value')))
        if name == 'isin':
            return wrap_arr(it, st, v, isin_term(it, st, a, args[0]))
        if name in ('isna', 'isnull'):
            return wrap_arr(it, st, v, emap1(M.isnan_term, a, 'bool'))
        if name in ('notna', 'notnull'):
            return wrap_arr(it, st, v, emap1(lambda x: not_(M.isnan_term(x)), a, 'bool'))
        if name == 'dropna':
            if v.op == 'ser':
                m = emap1(lambda x: not_(M.isnan_term(x)), a, 'bool')
                return M.ser(vg._mapl(a, lambda x: dropnan(x)), v.args[1], M.index_mask(v.args[2], M.col_len(a), m))
            return wrap_arr(it, st, v, vg._mapl(a, lambda x: dropnan(x)))
        if name in ('map', 'apply'):
            return M.ser(it.arr(st, mapped(it, st, args[0], [it.new_list(st, as_seq(a))])), *(v.args[1:3] if v.op == 'ser' else (NONE,)))
        if name in ('eq', 'ne'):
            return M.compare(it, st, 'Eq' if name == 'eq' else 'NotEq', v, args[0])
        if name in ('add', 'sub', 'mul', 'div'):
            return M.binop(it, st, {'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'div': 'Div'}[name], v, args[0])
        if name == 'equals':
            return array_equal(it, st, v, args[0])
    if name == 'sort':
        it.setf(st, v, 'a', vg._mapl(a, lambda x: mk('unk', 'sorted array', (x,)))) if M.array_ref(it, st, v) and \
            st.heap[v].kind == 'arr' else it.unk('sort')
        return NONE
    if name in ('abs', '__abs__'):
        return wrap_arr(it, st, v, emap1(lambda x: fn('abs', x), a))
    if name in ('head', 'tail') and v.op == 'ser':
        k = arg(args, kwargs, 0, 'n', num(5))
        return M.ser_get(it, st, v, mk('slice', NONE, k, NONE) if name == 'head' else mk('slice', neg(k), NONE, NONE), False)
    if name == 'argsort':
        return arr_result(it, st, argsort_term(it, st, a)) if rank == 1 else it.unk('argsort')
    if name == 'tobytes':
        return mk('fn', 'tobytes', a)
    return it.unk('array method ' + name, v, *args)


def arr_to_seq_all(a):
    return vg._mapl(a, lambda x: as_seq(x))


def dropnan(x):
    v = fresh(arr_dims(x)[0])
    e = vg.cell(x, v)
    g = and_(arr_guard(x, v), not_(M.isnan_term(e)))
    return make_arr([v], (g, simplify_under(e, g)), (arr_dtype(x),))


def where1(a):
    def one(x):
        v = fresh(arr_dims(x)[0])
        return make_arr([v], (and_(arr_guard(x, v), vg.truth(vg.cell(x, v))), v), ('int',))
    return vg._mapl(a, one)


def isin_term(it, st, a, box):
    k = it.kind(st, box)
    if k in ('set', 'graph', 'dict') and k != 'set':
        return mk('unk', 'isin', (a,))
    if k == 'set':
        S = M.set_val(it, st, box)
        return emap1(lambda x: smember(x, S), a, 'bool')
    if k in ('arr', 'ser'):
        b = it.arr(st, box)

        def mem(x):
            def one(q):
                vs = [fresh(d) for d in arr_dims(q)]
                return make_ex(vs, (and_(arr_guard(q, *vs), M.scalar_cmp('Eq', vg.cell(q, *vs), x)),))
            if b.op == 'arr' and len(arr_dims(b)) == 1:
                return member(x, as_seq(b))
            return vg._mapl(b, one)
        return emap1(mem, a, 'bool')
    s = it.freeze(st, it.seq(st, box), -1)
    return emap1(lambda x: member(x, s), a, 'bool')


def array_equal(it, st, x, y):
    a, b = it.arr(st, x), it.arr(st, y)

    def one(p, q):
        if p is q:
            return TRUE
        dp, dq = arr_dims(p), arr_dims(q)
        if dp is None or dq is None:
            return mk('unk', 'array_equal', (p, q))
        if len(dp) != len(dq):
            return FALSE
        if p.op == 'arr' and p.args[2][0] is not TRUE or q.op == 'arr' and q.args[2][0] is not TRUE:
            # selections: their elements, not their index ranges
            return M.seq_eq(it, st, as_seq(p), as_seq(q))
        c = TRUE
        for m, n in zip(dp, dq):
            c = and_(c, eq(m, n))
        if c is FALSE:
            return FALSE
        vs = [fresh(d) for d in dp]
        return and_(c, vg.make_all(vs, (M.scalar_cmp('Eq', vg.cell(p, *vs), vg.cell(q, *vs)),)))
    return lift('array_equal', one, (a, b))


# ================================================================ containers
def list_method(it, st, v, name, args, kwargs):
    ref = v if v.op == 'ref' else None
    s = it.seq(st, v)

    def put(x):
        if ref is None:
            it.event(st, 'lost-store', what=name)
            it.unk('mutation of an immutable value')
            return NONE
        it.setf(st, ref, 'seq', x)
        return NONE
    if name in ('append', 'put', 'put_nowait', 'appendleft') and not (name == 'appendleft'):
        if it.kind(st, v) == 'queue':
            it.event(st, 'put')
        most = st.heap[ref].f.get('max') if ref is not None else None
        if most is not None and name == 'append':
            # the oldest element of a full bounded deque is dropped
            new = concat(s, vg.lst(args[0]))
            return put(it.simp(st, ite(eq(most, ZERO), NIL, ite(lt(slen(s), most), new, drop(new, ONE)))))
        if most is not None:
            # a full bounded queue: waits for ever (put) or fails (put_nowait)
            it.raise_if(st, and_(lt(ZERO, most), le(most, slen(s))), 'Full')
        return put(concat(s, vg.lst(args[0])))
    if name == 'appendleft':
        if ref is not None and 'max' in st.heap[ref].f:
            return it.unk('bounded deque')
        return put(concat(vg.lst(args[0]), s))
    if name == 'extend':
        return put(concat(s, it.seq(st, args[0])))
    if name == 'insert':
        i = norm_index(tonum(args[0]), slen(s))
        return put(seq(take(s, i), vg.lst(args[1]), drop(s, i)) if iconst(i) is not None or True else s)
    if name in ('pop', 'get', 'popleft', 'get_nowait'):
        fifo = name in ('get', 'popleft', 'get_nowait') and not (ref is not None and st.heap[ref].f.get('as') is const('lifo'))
        i = tonum(args[0]) if args and name == 'pop' else (ZERO if fifo else num(-1))
        n = slen(s)
        it.raise_if(st, eq(n, ZERO), 'Empty' if name.startswith('get') else 'IndexError')
        s = it.simp(st, s)
        n = slen(s)
        x = sat(s, i)
        ii = norm_index(i, n)
        if ii is ZERO:
            put(drop(s, ONE))
        elif ii is sub(n, ONE):
            put(take(s, ii))
        else:
            put(seq_remove_at(s, ii))
        return it.simp(st, x)
    if name == 'remove':
        x = it.deep(st, args[0])
        fs = it.freeze(st, s, -1)
        c, k = index_of(fs, x)
        it.raise_if(st, not_(c), 'ValueError')
        return put(M.seq_remove_val(it, st, s, x))
    if name == 'index':
        fs = it.freeze(st, s, -1)
        c, k = index_of(fs, it.deep(st, args[0]))
        it.raise_if(st, not_(c), 'ValueError')
        return it.simp(st, k)
    if name == 'count':
        x = it.deep(st, args[0])
        return seq_sum(it.freeze(st, s, -1), lambda e: ite(eq(e, x), ONE, ZERO))
    if name == 'copy':
        return it.new_list(st, s)
    if name == 'clear':
        return put(NIL)
    if name == 'reverse':
        return put(seq_reverse(s))
    if name == 'sort':
        return put(it.seq(st, sorted_value(it, st, v, kwargs)))
    if name in ('qsize', '__len__', 'size'):
        return slen(s)
    if name == 'empty':
        return eq(slen(s), ZERO)
    if name in ('full',):
        most = st.heap[ref].f.get('max') if ref is not None else None
        return FALSE if most is None else and_(lt(ZERO, most), le(most, slen(s)))
    if name == 'maxlen':
        return st.heap[ref].f.get('max', NONE) if ref is not None else NONE
    if name == 'rotate':
        return it.unk('rotate')
    if name in ('task_done', 'join', 'close'):
        return NONE
    if name == '__getitem__':
        return M.getitem(it, st, v, args[0])
    if name == '__contains__':
        return M.contains_(it, st, v, args[0])
    if name == '__setitem__':
        return M.setitem(it, st, v, args[0], args[1]) or NONE
    return it.unk('list method ' + name, v, *args)


def dict_method(it, st, v, name, args, kwargs):
    ref = v if v.op == 'ref' else None
    d = M.dict_val(it, st, v)

    def put(x):
        if ref is None:
            it.event(st, 'lost-store', what=name)
            it.unk('mutation of an immutable value')
            return NONE
        it.setf(st, ref, 'd', x)
        return NONE
    if name == 'keys':
        return mk('iter', seq_map(ditems(d), lambda p: pair_get(p, 0)))
    if name == 'values':
        return mk('iter', seq_map(ditems(d), lambda p: pair_get(p, 1)))
    if name == 'items':
        return mk('iter', ditems(d))
    if name in ('get', 'setdefault'):
        k = it.deep(st, args[0])
        dflt = args[1] if len(args) > 1 else kwargs.get('default', NONE)
        c, x = dget(d, k)
        if name == 'setdefault':
            c = it.simp(st, c)
            if c is not TRUE:
                put(ite(c, d, dput(d, k, dflt)))
        return it.simp(st, ite(c, x, dflt)) if c is not FALSE else dflt
    if name == 'pop':
        k = it.deep(st, args[0])
        c, x = dget(d, k)
        if len(args) > 1:
            put(ite(c, ddel(d, k), d) if c is not FALSE else d)
            return ite(c, x, args[1]) if c is not FALSE else args[1]
        it.raise_if(st, not_(c), 'KeyError')
        put(ddel(it.simp(st, d), k))
        return it.simp(st, x)
    if name == 'update':
        x = d
        if args:
            b = args[0]
            if it.kind(st, b) == 'dict':
                x = it.dict_merge(x, M.dict_val(it, st, b))
            else:
                s = it.seq(st, b)
                x = it.dict_merge(x, dct(s))
        for k, y in kwargs.items():
            x = dput(x, const(k), y)
        return put(x)
    if name == 'copy':
        return it.new_dict(st, d)
    if name == 'clear':
        return put(dct(NIL))
    if name == '__contains__':
        return dget(d, it.deep(st, args[0]))[0]
    if name == '__len__':
        return slen(ditems(d))
    if name == '__getitem__':
        return M.getitem(it, st, v, args[0])
    if name == '__setitem__':
        return M.setitem(it, st, v, args[0], args[1]) or NONE
    if name == 'fromkeys':
        return it.unk('fromkeys')
    if name == 'popitem':
        items = it.simp(st, ditems(d))
        n = slen(items)
        it.raise_if(st, eq(n, ZERO), 'KeyError')
        first = (args[0] if args else kwargs.get('last', TRUE)) is FALSE
        p = it.simp(st, sat(items, ZERO if first else sub(n, ONE)))
        put(it.simp(st, ddel(d, pair_get(p, 0))))
        return p
    if name == 'move_to_end':
        k = it.deep(st, args[0])
        c, x = dget(d, k)
        it.raise_if(st, not_(c), 'KeyError')
        if (args[1] if len(args) > 1 else kwargs.get('last', TRUE)) is FALSE:
            return it.unk('move_to_end(last=False)')
        return put(it.simp(st, dput(ddel(d, k), k, x)))
    return it.unk('dict method ' + name, v, *args)


def set_method(it, st, v, name, args, kwargs):
    ref = v if v.op == 'ref' else None
    S = M.set_val(it, st, v)

    def put(x):
        if ref is None:
            it.event(st, 'lost-store', what=name)
            it.unk('mutation of an immutable value')
            return NONE
        it.setf(st, ref, 's', x)
        return NONE
    A = [it.deep(st, x) for x in args] if name in ('add', 'remove', 'discard', '__contains__') else args
    if name == 'add':
        return put(set_add(S, A[0]))
    if name == 'discard':
        return put(set_del(S, A[0]))
    if name == 'remove':
        it.raise_if(st, not_(smember(A[0], S)), 'KeyError')
        return put(set_del(it.simp(st, S), A[0]))
    if name == '__contains__':
        return smember(A[0], S)
    if name in ('union', 'difference', 'intersection', 'symmetric_difference', 'update', 'difference_update',
                'intersection_update'):
        r = S
        for x in args:
            if x.op == 'star':
                # union over a sequence of collections
                s = it.freeze(st, x.args[0], -1)
                if name not in ('union', 'update'):
                    return it.unk('set method with *')
                B = set_of_seq(seq_bind(s, lambda e: as_seq(it.seq(st, e))))
            else:
                B = M.set_val(it, st, x)
            if name in ('union', 'update'):
                r = set_union(r, B)
            elif name in ('difference', 'difference_update'):
                r = set_diff(r, B)
            elif name in ('intersection', 'intersection_update'):
                r = set_inter(r, B)
            else:
                r = set_union(set_diff(r, B), set_diff(B, r))
        if name.endswith('update'):
            return put(r)
        return it.new_set(st, r)
    if name == 'issubset':
        return M.subset(S, M.set_val(it, st, args[0]))
    if name == 'issuperset':
        return M.subset(M.set_val(it, st, args[0]), S)
    if name == 'isdisjoint':
        x = fresh(None, 'x', None)
        return not_(make_ex([x], (and_(smember(x, S), smember(x, M.set_val(it, st, args[0]))),)))
    if name == 'copy':
        return it.new_set(st, S)
    if name == 'clear':
        return put(set_of(lambda x: FALSE))
    if name == '__len__':
        return card(S)
    if name == 'pop':
        it.raise_if(st, eq(card(S), ZERO), 'KeyError')
        x = at_first(S)
        put(set_del(S, x))
        return x
    return it.unk('set method ' + name, v, *args)


def at_first(S):
    return sat(enum(S), ZERO)


def str_method(it, st, v, name, args, kwargs):
    if name == 'join':
        s = it.freeze(st, it.seq(st, args[0]), -1)
        s = seq_map(s, lambda e: M.str_term(e) if sort_of(e) != 'str' and not is_c(e) else e)
        if is_c(v) and v.args[1] == '':
            return M.scat_seq(s)

        def one(q):
            out, first = [], True
            for p in q.args:
                if p.op == 'el':
                    out += ([] if first else [el(v)]) + [p]
                else:
                    n = vg._piece_len(p)
                    if p.op == 'spl' or vg._unit(p.args[2][0]):
                        i = fresh(n)
                        b = vg.lst(vg._piece_at(p, i))
                        sepd = ite(pos(i), vg.lst(v), NIL) if first else vg.lst(v)
                        if not first or True:
                            out += list(make_flat([i], (concat(sepd, b),)).args)
                        if not first or iconst(n) is None:
                            first = False if iconst(n) is None else first
                    else:
                        return mk('unk', 'join', (q,))
                first = False
            return M._scat(mk('scat', mk('seq', *out))) if out else const('')
        return vg._mapl(s, one)
    if name == 'format' and is_c(v):
        return format_braces(it, st, v.args[1], args, kwargs)
    if is_c(v) and all(is_c(a) or iconst(a) is not None for a in args) and not kwargs and \
            name in ('upper', 'lower', 'strip', 'split', 'replace', 'startswith', 'endswith', 'lstrip', 'rstrip', 'find', 'isdigit',
                     'title', 'capitalize', 'partition', 'rpartition', 'rsplit', 'splitlines', 'isnumeric', 'isdecimal', 'isalpha',
                     'count', 'rfind', 'zfill', 'removeprefix', 'removesuffix', 'isalnum', 'swapcase', 'casefold'):
        r = getattr(v.args[1], name)(*[a.args[1] if is_c(a) else iconst(a) for a in args])
        if isinstance(r, tuple):
            return tup(*[const(x) for x in r])
        if isinstance(r, list):
            return it.new_list(st, vg.lst(*[const(x) for x in r]))
        return num(r) if isinstance(r, int) and not isinstance(r, bool) else const(r)
    if name in ('rstrip', 'strip', 'lstrip', 'removesuffix') and v.op == 'scat' and args and is_c(args[0]):
        ps = list(v.args[0].args)
        if ps and ps[-1].op == 'el' and is_c(ps[-1].args[0]) and name in ('rstrip', 'removesuffix'):
            t = ps[-1].args[0].args[1]
            if name == 'removesuffix' and t.endswith(args[0].args[1]):
                t = t[:len(t) - len(args[0].args[1])]
            elif name == 'rstrip':
                t2 = t.rstrip(args[0].args[1])
                if t2:
                    t = t2
                else:
                    return mk('strm', name, v, tuple(args))
            return M._scat(mk('scat', mk('seq', *(ps[:-1] + [el(const(t))]))))
    if name in ('startswith', 'endswith', 'isdigit', 'isnumeric', '__contains__'):
        return batom(mk('strp', name, v, tuple(args)))
    if name in ('split', 'splitlines', 'rsplit', 'partition'):
        return mk('strl', name, v, tuple(args))
    if name in ('find', 'index', 'count', '__len__', 'rfind'):
        return mk('strn', name, v, tuple(args))
    return mk('strm', name, v, tuple(it.deep(st, a) for a in args))


SORT_RULES['strm'] = lambda t: 'str'
SORT_RULES['strn'] = lambda t: 'int'
SORT_RULES['strl'] = lambda t: ('list', 'str')


def format_braces(it, st, fmt, args, kwargs):
    import string
    out, k = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            out.append(const(lit))
            if field is None:
                continue
            if field == '':
                x = args[k]
                k += 1
            elif field.isdigit():
                x = args[int(field)]
            else:
                x = kwargs[field]
            t = M.to_str(it, st, x)
            out.append(t if not spec and not conv else mk('strm', 'format', t, (const(spec or ''),)))
    except (ValueError, IndexError, KeyError):
        return it.unk('format string')
    return scat(*out)


def format_percent(it, st, a, b):
    import re
    fmt = a.args[1]
    args = list(b.args) if b.op == 'tup' else [b]
    out, last = [], 0
    try:
        for m in re.finditer(r'%(?:\.\d+)?[sdifrg%]', fmt):
            out.append(const(fmt[last:m.start()]))
            last = m.end()
            if m.group() == '%%':
                out.append(const('%'))
            else:
                t = M.to_str(it, st, args.pop(0))
                out.append(t if m.group() in ('%s', '%d', '%i', '%r') else mk('strm', 'format', t, (const(m.group()),)))
    except IndexError:
        return it.unk('format string')
    out.append(const(fmt[last:]))
    return scat(*out)


# ================================================================ sorting
def sorted_value(it, st, v, kwargs):
    s = it.seq(st, v)
    key = kwargs.get('key')
    rev = kwargs.get('reverse')
    rev = TRUE if rev is not None and it.truth(st, rev) is TRUE else FALSE if rev is None or it.truth(st, rev) is FALSE else None
    if rev is None:
        return it.unk('sorted')
    if s.op == 'seq' and 1 < len(s.args) <= 200 and all(p.op == 'el' for p in s.args):
        ks = []
        for p in s.args:
            kv = concrete_key(it, st, p.args[0], key)
            if kv is None or ks and type(kv[0]) is not type(ks[0][0]):
                break
            ks.append(kv)
        else:
            try:
                order = sorted(range(len(ks)), key=lambda j: ks[j][0], reverse=rev is TRUE)
            except TypeError:
                it.raise_if(st, TRUE, 'TypeError')
                return it.unk('sorted')
            return it.new_list(st, vg.lst(*[s.args[j].args[0] for j in order]))
    if s.op == 'seq' and len(s.args) > 1 and all(p.op == 'el' for p in s.args) and any(l.op == 'ref' for p in s.args for l in leaves(p.args[0])):
        return sorted_refs(it, st, [p.args[0] for p in s.args], key, rev)
    fs = it.freeze(st, s, -1)
    x = fresh(None, 'x', None)
    if key is not None and not is_none(key):
        q = st.fork()
        outer, it.pending = it.pending, []
        nev = len(it.events)
        S = None
        k = None
        try:
            k = it.deep(q, it.call(key, [x], {}, q))
        except Dead:
            pass
        finally:
            it.pending = outer
            del it.events[nev:]
        if k is None:
            return it.unk('sort key')
    else:
        k = x
    return it.new_list(st, vg._mapl(fs, lambda l: sort_seq(it, st, l, x, k, rev)))


def concrete(t):
    """(value,) of a term made of constants, comparable as in Python"""
    if t.op == 'n' and not isinstance(t.args[0], bool):
        return (t.args[0],)
    if t.op == 'c' and t.args[0] == 's':
        return (t.args[1],)
    xs = t.args if t.op == 'tup' else None
    if t.op == 'lst' and t.args[0].op == 'seq' and all(p.op == 'el' for p in t.args[0].args):
        xs = [p.args[0] for p in t.args[0].args]
    if xs is None:
        return None
    out = [concrete(x) for x in xs]
    if any(o is None for o in out):
        return None
    return ((tuple if t.op == 'tup' else list)(o[0] for o in out),)


def concrete_key(it, st, x, key):
    if key is None or is_none(key):
        return concrete(it.deep(st, x))
    q = st.fork()
    outer, it.pending = it.pending, []
    nev = len(it.events)
    try:
        k = it.deep(q, it.call(key, [x], {}, q))
        return concrete(k) if not it.pending else None
    except Dead:
        return None
    finally:
        it.pending = outer
        del it.events[nev:]


def sorted_refs(it, st, xs, key, rev):
    """a few objects in the order of their keys"""
    if len(xs) > 4 or key is None or is_none(key):
        return it.unk('sorted objects')
    ks = [it.deep(st, it.call(key, [x], {}, st)) for x in xs]
    if any(it.kind(st, k) != 'num' for k in ks):
        return it.unk('sorted objects')
    out = NIL
    import itertools
    for perm in itertools.permutations(range(len(xs))):
        c = TRUE
        for i, j in zip(perm, perm[1:]):
            a, b = (ks[j], ks[i]) if rev is TRUE else (ks[i], ks[j])
            c = and_(c, M.scalar_cmp('LtE' if i < j else 'Lt', a, b))
        c = it.simp(st, c)
        if c is not FALSE:
            out = ite(c, vg.lst(*[xs[i] for i in perm]), out)
    return it.new_list(st, out)


def argsort_term(it, st, a):
    """positions of a 1-d array in the order of its values"""
    def one(x):
        ds = arr_dims(x)
        if ds is None or len(ds) != 1 or arr_guard(x, fresh(ds[0])) is not TRUE:
            return mk('unk', 'argsort', (x,))
        v = fresh(None, 'x', 'int')
        t = mk('sorted', it.range_seq(ds[0]), raw_close('lamb', [v], (vg.cell(x, v),)), FALSE)
        r = fresh(ds[0])
        e = mk('at', t, r)
        SORT[e] = 'int'
        return make_arr([r], (TRUE, e), ('int',))
    return vg._mapl(a, one)


SORT_RULES['sorted'] = lambda t: ('list', None, lambda L: slen(L.args[0]))


def sort_seq(it, st, s, x, k, rev):
    if all(p.op == 'el' for p in s.args) and len(s.args) <= 1:
        return s
    base = k
    # position in a list
    L = None
    kk = [l for l in leaves(k) if l.op in ('idx',)] if k.op == 'ite' else [k]
    if len(kk) == 1 and kk[0].op == 'idx' and kk[0].args[1] is x:
        L = kk[0].args[0]
        L = L if L.op == 'seq' else L.args[0] if L.op == 'lst' else mk('seq', mk('spl', L))
    if L is not None and rev is FALSE:
        S = set_like(s)
        if S is not None and all(distinct_seq(p) for p in [L]):
            return seq_bind(L, lambda e: ite(smember(e, S), vg.lst(e), NIL))
    fin = None
    if all(p.op == 'el' and vg.is_const(p.args[0]) for p in s.args):
        fin, ties = [(p.args[0], TRUE) for p in s.args], True
    elif set_like(s) is not None:
        fin, ties = vg.finite_elements(set_like(s)), False
    if fin is not None:
        ks = [subst(k, {x: e}) for e, c in fin]
        vals = [z.args[0] if z.op == 'n' else z.args[1] if z.op == 'c' and z.args[0] == 's' else None for z in ks]
        if None not in vals and len({type(z) for z in vals}) <= 1 and (ties or len(set(vals)) == len(vals)):
            order = sorted(range(len(vals)), key=lambda i: vals[i], reverse=rev is TRUE)
            r = NIL
            for i in order:
                r = vg.concat(r, ite(fin[i][1], vg.lst(fin[i][0]), NIL))
            return r
    t = mk('sorted', s, raw_close('lamb', [x], (k,)), rev)
    return mk('seq', mk('spl', t))


def set_like(s):
    """the set enumerated by s if s has no repeated elements"""
    if len(s.args) == 1 and s.args[0].op == 'spl' and s.args[0].args[0].op == 'enum':
        return s.args[0].args[0].args[0]
    if len(s.args) == 1 and M.distinct_piece(s.args[0]):
        return set_of_seq(s)
    return None


def distinct_seq(s):
    return len(s.args) == 1 and M.distinct_piece(s.args[0])
