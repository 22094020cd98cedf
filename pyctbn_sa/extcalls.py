"""Models of library functions (builtins, numpy, pandas, networkx, random, ...)."""
import ast
from .calls import *
from .calls import _cast
from . import models as M
from . import calls as C
from . import vg

BUILTIN, NUMPY, OTHER = {}, {}, {}


def b(*names):
    def reg(f):
        for n in names:
            BUILTIN[n] = f
        return f
    return reg


def n_(*names):
    def reg(f):
        for x in names:
            NUMPY[x] = f
        return f
    return reg


def o(*names):
    def reg(f):
        for x in names:
            OTHER[x] = f
        return f
    return reg


READS = {'index', 'count', 'copy', 'keys', 'values', 'items', '__len__', '__getitem__', '__contains__', 'qsize', 'empty', 'full'}


# ================================================================ method dispatch
def call_method(it, st, v, name, args, kwargs):
    v = it.simp(st, v)
    if v.op == 'ite':
        return it.each(st, v, lambda l, s: call_method(it, s, l, name, args, kwargs))
    if name in ('__len__',) and not args:
        return BUILTIN['len'](it, st, [v], {})
    if v.op in ('mesh', 'mesharr', 'bmeth') and (v.op != 'bmeth' or v.args[0].op in ('mesh', 'mesharr', 'bmeth')):
        return mesh_method(it, st, v, name, args)
    k = it.kind(st, v)
    if name == 'fromkeys':
        r = it.new_dict(st, dct(NIL))
        build_into(it, st, v, lambda q, e: M.setitem(it, q, r, e, args[0] if args else NONE))
        return r
    if it.preempt is not None and v.op == 'ref' and name not in READS:
        shared_change(it, st, v)
    if v.op == 'ref' and st.heap[v].kind in ('pool', 'process', 'tqdm', 'file', 'misc'):
        return object_method(it, st, v, name, args, kwargs)
    if k in ('list', 'queue', 'tuple') or (v.op == 'iter'):
        if name in ('index', 'count', 'copy') or v.op == 'ref' or k == 'list':
            return list_method(it, st, v, name, args, kwargs)
        if k == 'tuple' and name in ('_asdict',):
            return it.unk('tuple method')
        return list_method(it, st, v, name, args, kwargs)
    if k == 'dict':
        return dict_method(it, st, v, name, args, kwargs)
    if k == 'set':
        return set_method(it, st, v, name, args, kwargs)
    if k in ('arr', 'ser'):
        return arr_method(it, st, v, name, args, kwargs)
    if k == 'frame':
        return frame_method(it, st, v, name, args, kwargs)
    if k == 'graph':
        return M.graph_method(it, st, v, name, args, kwargs)
    if k == 'acc' or v.op == 'acc':
        return acc_method(it, st, v, name, args, kwargs)
    if k == 'cols':
        if name in ('tolist', 'to_list', 'copy'):
            return it.new_list(st, v.args[0])
        if name in ('get_loc', 'index'):
            c, i = index_of(it.freeze(st, v.args[0], -1), it.deep(st, args[0]))
            it.raise_if(st, not_(c), 'KeyError')
            return it.simp(st, i)
        c = it.freeze(st, v.args[0], -1)
        if name == 'insert':
            i = args[0]
            return mk('cols', seq(take(c, i), vg.lst(it.deep(st, args[1])), drop(c, i)))
        if name == 'delete' and it.kind(st, args[0]) == 'num':
            return mk('cols', seq_remove_at(c, norm_index(args[0], slen(c))))
        if name == 'drop':
            x = args[0]
            ls = it.freeze(st, it.seq(st, x), -1) if it.kind(st, x) in ('list', 'arr', 'cols', 'tuple') else vg.lst(it.deep(st, x))
            return mk('cols', seq_bind(c, lambda p: ite(member(p, ls), NIL, vg.lst(p))))
        if name == 'append':
            return mk('cols', concat(c, it.freeze(st, it.seq(st, args[0]), -1)))
        if name == 'isin':
            ls = it.freeze(st, it.seq(st, args[0]), -1)
            return it.new_arr(st, seq_to_arr1(seq_map(c, lambda p: member(p, ls)), 'bool'))
        if name == 'difference' and len(args) == 1 and not kwargs:
            ls = it.freeze(st, it.seq(st, args[0]), -1)
            r = sorted_value(it, st, it.new_list(st, seq_bind(c, lambda p: ite(member(p, ls), NIL, vg.lst(p)))), {})
            return r if r.op == 'unk' else mk('cols', it.freeze(st, it.seq(st, r), -1))
        if name in ('union', 'difference', 'map', 'intersection'):
            return it.unk('columns method ' + name)
        if name in ('to_numpy',):
            return it.new_arr(st, seq_to_arr1(v.args[0], 'obj'))
        if name == 'equals':
            return M.seq_eq(it, st, v.args[0], it.seq(st, args[0]))
        if name == 'isin':
            return it.new_arr(st, C.isin_term(it, st, seq_to_arr1(v.args[0], 'obj'), args[0]))
    if k == 'str' or v.op == 'scat':
        return str_method(it, st, v, name, args, kwargs)
    if v.op == 'rowser':
        return rowser_method(it, st, v, name, args, kwargs)
    if k == 'objsym':
        it.event(st, 'opaque-call', obj=v, name=name, args=[it.deep(st, a) for a in args])
        return mk('mcall', v, name, tuple(it.deep(st, a) for a in args))
    if v.op == 'index':
        return it.unk('index method ' + name)
    if k == 'num':
        if name in ('astype',):
            return cast(v, dtype_of(args[0]))
        if name in ('item', 'copy', 'conjugate'):
            return v
        if name == 'is_integer':
            return eq(toint(v), v)
        if name in ('sum', 'all', 'any', 'max', 'min', 'squeeze'):
            return v
        if name in ('bit_length', 'as_integer_ratio', 'real'):
            return it.unk('number method')
    if v.op == 'nodelink':
        pass
    if v.op in ('file', 'path', 'regex', 'rng', 'repeat', 'opq', 'genobj') or k is None and v.op not in ('unk',):
        return object_method(it, st, v, name, args, kwargs)
    if v is NONE:
        it.raise_if(st, TRUE, 'AttributeError')
    if v.op == 'ref' and st.heap[v].kind == 'inst':
        it.raise_if(st, TRUE, 'AttributeError')
    return it.unk('method %s of %s' % (name, k or v.op), v, *args)


def acc_method(it, st, v, name, args, kwargs):
    what = v.args[0]
    g = v.args[1]
    if what in ('gnodes', 'gedges'):
        if name in ('__contains__',):
            return M.contains_(it, st, v, args[0])
        if name in ('items', 'data', 'keys', 'values'):
            if name == 'keys':
                return mk('iter', enum(st.heap[g].f['nodes' if what == 'gnodes' else 'edges']))
            return it.unk('graph view ' + name)
        return it.unk('graph view ' + name)
    if what in ('gadj', 'gpredall') and name in ('items', 'keys', 'values'):
        return it.unk('adjacency ' + name)
    return it.unk('accessor method ' + name)


def mesh_method(it, st, v, name, args):
    """index grids of symbolically many axes"""
    if name in ('reshape', 'ravel', 'flatten', 'transpose', 'T', 'swapaxes'):
        t = v.args[0] if v.op == 'bmeth' else v
        if v.op == 'bmeth' and v.args[1] == 'T' and t.op == 'mesharr' and name == 'reshape':
            s, kind = t.args
            d = dims_arg(it, st, args)
            K = slen(s)
            if d is not None and len(d) == 2 and d[1] is K and iconst(d[0]) == -1:
                return it.new_arr(st, mesh_rows(s, kind, True))
        if v.op == 'mesharr' and name == 'reshape':
            s, kind = v.args
            d = dims_arg(it, st, args)
            K = slen(s)
            if d is not None and len(d) == 2 and d[0] is K and iconst(d[1]) == -1:
                a = mesh_rows(s, kind, False)
                return it.new_arr(st, M.perm_view(arr_dims(a), [1, 0]).read(a))
            if d is not None and len(d) == 2 and d[1] is K and iconst(d[0]) == -1 and kind.endswith('/last'):
                return it.new_arr(st, mesh_rows(s, kind[:-5], False))
        if v.op == 'mesharr' and name == 'transpose' and not args:
            return mk('bmeth', v, 'T')
    return it.unk('grid method ' + name)


def mesh_rows(s, kind, first_fastest):
    """rows of the Cartesian product of the sequences in s"""
    K = slen(s)
    k = fresh(K)
    j = fresh(K)
    total = make_prod([j], (slen(as_seq(sat(s, j))),))
    r = fresh(total)
    if first_fastest:
        q = fresh(k)
        stride = make_prod([q], (slen(as_seq(sat(s, q))),))
    else:
        q = fresh(sub(sub(K, k), ONE))
        stride = make_prod([q], (slen(as_seq(sat(s, add(add(k, ONE), q)))),))
    if kind == 'xy':
        c0, c1 = slen(as_seq(sat(s, ZERO))), slen(as_seq(sat(s, ONE)))
        two = lt(ONE, K)
        if first_fastest:
            stride = ite(and_(two, eq(k, ZERO)), c1, ite(and_(two, eq(k, ONE)), ONE, stride))
        else:
            q2 = fresh(sub(K, num(2)))
            tail = make_prod([q2], (slen(as_seq(sat(s, add(num(2), q2)))),))
            stride = ite(and_(two, eq(k, ZERO)), tail, ite(and_(two, eq(k, ONE)), mul(c0, tail), stride))
    c = slen(as_seq(sat(s, k)))
    e = lift('meshcell', lambda x, i: sat(as_seq(x), i), (sat(s, k), mod(fdiv(r, stride), c)))
    return make_arr([r, k], (TRUE, e), (elem_dtype(e),))


# ---------------------------------------------------------------- frames
def frame_method(it, st, v, name, args, kwargs):
    cols, n, idx = M.fparts(it, st, v)
    inplace = kwargs.get('inplace')

    def result(r):
        if inplace is TRUE:
            M.frame_mutated(it, st, v)
            for k, x in st.heap[r].f.items():
                it.setf(st, v, k, x)
            return NONE
        return r
    if name in ('copy', 'infer_objects', '__copy__', 'convert_dtypes', '__deepcopy__'):
        r = mkframe(it, st, cols, n, idx)
        return M.same_cells(it, st, r, v) if arg(args, kwargs, 0, 'deep') is FALSE and name == 'copy' else r
    if name == 'reset_index':
        if arg(args, kwargs, None, 'drop') is TRUE:
            return result(mkframe(it, st, cols, n, NONE))
        return it.unk('reset_index keeping the index')
    if name in ('shift', 'diff'):
        if 'axis' in kwargs and kwargs['axis'] is not ZERO:
            return it.unk('column shift')
        k = iconst(arg(args, kwargs, 0, 'periods', ONE))
        if not k:
            return it.unk('shift')
        fill = kwargs.get('fill_value', NAN)
        return M.rows_map(it, st, v, (lambda a: M.ser_shift(a, k, fill)) if name == 'shift' else (lambda a: M.ser_diff(a, k)))
    if name == 'join' and len(args) == 1 and not kwargs and it.kind(st, args[0]) == 'frame':
        # over the default row labels of both; repeated row labels would be paired in every way
        c2, n2, idx2 = M.fparts(it, st, args[0])
        if idx is NONE and idx2 is NONE and n is n2 and cols.op == 'seq':
            it.raise_if(st, seq_any(c2, lambda p: index_of(M.labels_of(cols), pair_get(p, 0))[0]), 'ValueError')
            return mkframe(it, st, concat(cols, c2), n, NONE)
    if name == 'fillna' and set(kwargs) - {'value', 'inplace'}:
        return it.unk('fillna')
    if name == 'fillna':
        x = arg(args, kwargs, 0, 'value')
        if x is None or it.kind(st, x) in ('dict', 'frame', 'ser'):
            return it.unk('fillna')
        return result(M.rows_map(it, st, v, lambda a: M.fillna(a, x)))
    if name == 'astype':
        x = arg(args, kwargs, 0, 'dtype')
        if it.kind(st, x) == 'dict':
            d = M.dict_val(it, st, x)

            def conv(p):
                c, t = dget(d, pair_get(p, 0))
                if c is FALSE:
                    return p
                return tup(pair_get(p, 0), ite(c, arr_cast(pair_get(p, 1), dtype_of(t)), pair_get(p, 1)))
            return mkframe(it, st, seq_map(cols, conv), n, idx)
        dt = dtype_of(x)
        if dt == 'any':
            return it.unk('astype')
        return M.rows_map(it, st, v, lambda a: arr_cast(a, dt))
    if name == 'assign':
        r = mkframe(it, st, cols, n, idx)
        star = kwargs.get('**')
        for k, x in kwargs.items():
            if k == '**':
                continue
            if x.op == 'clo' or x.op == 'func':
                x = it.call(x, [r], {}, st)
            c2, _, _ = M.fparts(it, st, r)
            it.setf(st, r, 'cols', M.put_col(it, st, c2, n, const(k), x, idx))
        if star is not None:
            if it.kind(st, star) == 'frame':
                more, n2, idx2 = M.fparts(it, st, star)
                if n2 is not n or idx2 is not idx:
                    return it.unk('alignment of the assigned columns')
            elif it.kind(st, star) == 'dict':
                more = ditems(M.dict_val(it, st, star))
                more = seq_map(more, lambda p: tup(pair_get(p, 0), M.as_column(it, st, pair_get(p, 1), n, idx)))
            else:
                return it.unk('assign **')
            it.setf(st, r, 'cols', put_cols(it, st, st.heap[r].f['cols'], more))
        return r
    if name in ('where', 'mask'):
        m = args[0]
        other = arg(args, kwargs, 1, 'other', NAN)
        if it.kind(st, m) == 'frame':
            return it.unk('where frame')
        ma = it.arr(st, m)
        f = (lambda x, y: ite(vg.truth(y), x, other)) if name == 'where' else (lambda x, y: ite(vg.truth(y), other, x))
        return M.rows_map(it, st, v, lambda a: emap2(it, st, f, a, ma, 'any'))
    if name == 'dropna':
        def keep(r):
            return not_(seq_any(cols, lambda p: lift(('nanrow', r), lambda x: M.isnan_term(vg.cell(x, r)), (pair_get(p, 1),))))

        def sel(a):
            def one(x):
                r = fresh(arr_dims(x)[0])
                g = and_(arr_guard(x, r), keep(r))
                return make_arr([r], (g, simplify_under(vg.cell(x, r), g)), (arr_dtype(x),))
            return vg._mapl(a, one)
        r = M.rows_map(it, st, v, sel)
        it.setf(st, r, 'idx', sel(M.index_arr(idx, n)))
        return result(r)
    if name in ('to_numpy',):
        dt = dtype_of(arg(args, kwargs, 0, 'dtype'))
        return M.shared_arr(it, st, arr_cast(M.frame_to_numpy(it, st, v), dt), None if kwargs.get('copy') is TRUE else v)
    if name == 'to_json':
        if args or 'path_or_buf' in kwargs:
            it.event(st, 'file-write', path=args[0] if args else kwargs['path_or_buf'])
        return mk('tojson', it.deep(st, v), tuple(tup(const(k), it.deep(st, x)) for k, x in sorted(kwargs.items())))
    if name in ('to_csv', 'to_pickle', 'to_excel', 'to_parquet', 'to_hdf', 'to_feather'):
        it.event(st, 'file-write', path=args[0] if args else kwargs.get('path_or_buf', NONE))
        return NONE
    if name == 'to_dict' and len(args) + len(kwargs) == 1 and (args or [kwargs.get('orient')])[0] is const('records'):
        return it.new_list(st, M.frame_records(it, st, v))
    if name == 'to_dict':
        return mk('todict', it.deep(st, v), tuple(it.deep(st, x) for x in args) +
                  tuple(tup(const(k), it.deep(st, x)) for k, x in sorted(kwargs.items())))
    if name == 'append':
        x = args[0]
        s = vg.lst(v, x) if it.kind(st, x) == 'frame' else concat(vg.lst(v), it.seq(st, x))
        return concat_frames(it, st, s, kwargs)
    if name == 'drop':
        labels = kwargs.get('columns')
        ax = arg(args, kwargs, 1, 'axis')
        if labels is None:
            labels = arg(args, kwargs, 0, 'labels')
            if ax is None or not (iconst(ax) == 1 or sconst(ax) == 'columns'):
                ls = vg.lst(labels) if it.kind(st, labels) not in ('list', 'arr', 'cols', 'tuple', 'iter', 'ser') else it.freeze(st, it.seq(st, labels), -1)
                ia = M.index_arr(idx, n)
                m = emap1(lambda x: not_(member(x, ls)), ia, 'bool')
                r = M.rows_mask(it, st, v, m)
                return result(r)
        ls = vg.lst(labels) if it.kind(st, labels) not in ('list', 'arr', 'cols', 'tuple', 'iter') else it.freeze(st, it.seq(st, labels), -1)
        lab = M.labels_of(cols)
        if ls.op == 'seq':
            for p in ls.args:
                if p.op == 'el':
                    it.raise_if(st, not_(index_of(lab, p.args[0])[0]), 'KeyError')
        c2 = seq_bind(cols, lambda p: ite(member(pair_get(p, 0), ls), NIL, vg.lst(p)))
        return result(mkframe(it, st, c2, n, idx))
    if name in ('head', 'tail'):
        k = arg(args, kwargs, 0, 'n', num(5))
        return M.rows_slice(it, st, v, mk('slice', NONE, k, NONE) if name == 'head' else mk('slice', neg(k), NONE, NONE))
    if name == 'drop_duplicates':
        if args or set(kwargs) - {'inplace', 'ignore_index'}:
            return it.unk('drop_duplicates')
        w, u = fresh(n), None
        u = fresh(w)
        cells = lambda r: (lambda p: lift(('cellat', r), lambda x: vg.cell(x, r), (pair_get(p, 1),)))
        g = not_(make_ex([u], (not_(seq_any(cols, lambda p: ne(cells(u)(p), cells(w)(p)))),)))
        r = M.rows_mask(it, st, v, make_arr([w], (TRUE, g), ('bool',)))
        if kwargs.get('ignore_index') is TRUE:
            return it.unk('drop_duplicates')
        return result(r)
    if name in ('sort_index', 'sort_values'):
        by = arg(args, kwargs, 0, 'by') if name == 'sort_values' else None
        if set(kwargs) - {'by', 'inplace', 'ignore_index', 'kind'}:
            return it.unk(name)
        if by is not None and it.kind(st, by) == 'list':
            ps = it.seq_parts(st, by)
            by = ps[0] if ps is not None and len(ps) == 1 else None
            if by is None:
                return it.unk(name)
        if name == 'sort_index':
            if args:
                return it.unk(name)
            key = M.index_arr(idx, n)
            if idx is NONE:
                return result(mkframe(it, st, cols, n, idx))
        else:
            c, key = M.fcol(it, st, v, it.deep(st, by))
            it.raise_if(st, not_(c), 'KeyError')
        o_ = it.new_arr(st, C.argsort_term(it, st, key))
        f = M.rows_map(it, st, v, lambda a: M.fancy(it, st, a, [o_]))
        it.setf(st, f, 'idx', NONE if kwargs.get('ignore_index') is TRUE else M.fancy(it, st, M.index_arr(idx, n), [o_]))
        return result(f)
    if name == 'iterrows':
        w = fresh(n)
        fz = it.deep(st, v)
        return mk('iter', make_flat([w], (vg.lst(tup(vg.cell(M.index_arr(idx, n), w), mk('rowser', fz, w))),)))
    if name in ('itertuples', 'to_records'):
        w = fresh(n)
        if cols.op == 'seq' and all(p.op == 'el' for p in cols.args):
            cells = [lift('sercell', lambda x, i: vg.cell(x, i), (pair_get(p.args[0], 1), w)) for p in cols.args]
            if arg(args, kwargs, 0, 'index') is not FALSE:
                cells = [vg.cell(M.index_arr(idx, n), w)] + cells
            rows = make_flat([w], (vg.lst(tup(*cells)),))
            return mk('iter', rows) if name == 'itertuples' else vg.seq_to_arr1(rows, 'obj')
        return it.unk(name)
    if name == 'rename':
        d = kwargs.get('columns')
        if d is not None and it.kind(st, d) == 'dict':
            D = M.dict_val(it, st, d)

            def ren(p):
                c, x = dget(D, pair_get(p, 0))
                return tup(pair_get(p, 0) if c is FALSE else ite(c, x, pair_get(p, 0)), pair_get(p, 1))
            return result(mkframe(it, st, seq_map(cols, ren), n, idx))
        return it.unk('rename')
    if name in ('items', 'iteritems'):
        return mk('iter', seq_map(cols, lambda p: tup(pair_get(p, 0), M.ser(pair_get(p, 1), pair_get(p, 0), idx, v))))
    if name == 'keys':
        return mk('cols', M.labels_of(cols))
    if name == 'get':
        return M.frame_get(it, st, v, args[0])
    if name == 'isin':
        return M.rows_map(it, st, v, lambda a: C.isin_term(it, st, a, args[0]))
    if name == 'pop':
        r = M.frame_get(it, st, v, args[0])
        M.frame_delcol(it, st, v, args[0])
        return r
    if name == 'insert':
        M.frame_mutated(it, st, v)
        i = tonum(args[0])
        a = M.as_column(it, st, args[2], n)
        it.setf(st, v, 'cols', seq(take(cols, i), vg.lst(tup(it.deep(st, args[1]), a)), drop(cols, i)))
        return NONE
    if name in ('head', 'tail') and False:
        pass
    if name == 'equals':
        return scalar_cmp('Eq', it.deep(st, v), it.deep(st, args[0]))
    if name == 'reindex' and 'columns' in kwargs and not args:
        return M.cols_pick(it, st, v, it.freeze(st, it.seq(st, kwargs['columns']), -1))
    if name in ('update', 'sort_values', 'drop_duplicates') and (inplace is TRUE or name == 'update'):
        M.frame_mutated(it, st, v)
    return it.unk('frame method ' + name, it.deep(st, v), *[it.deep(st, a) for a in args])


def put_cols(it, st, cols, more):
    """add the columns of `more` (labels not in cols assumed checked): replaced where present, else appended"""
    lab = M.labels_of(cols)
    mlab = M.labels_of(more)

    def old(p):
        c, k = index_of(mlab, pair_get(p, 0))
        c = it.simp(st, c)
        return p if c is FALSE else ite(c, tup(pair_get(p, 0), M.col_at(it, st, more, k)), p)

    def new(p):
        c = it.simp(st, index_of(lab, pair_get(p, 0))[0])
        return NIL if c is TRUE else vg.lst(p) if c is FALSE else ite(c, NIL, vg.lst(p))
    return concat(seq_map(cols, old), seq_bind(more, new))


def concat_frames(it, st, s, kwargs=None):
    kwargs = kwargs or {}
    ax = kwargs.get('axis')
    if s.op == 'ite':
        return it.each(st, s, lambda l, q: concat_frames(it, q, l, kwargs))
    if ax is not None and not (iconst(ax) == 0):
        out = NIL
        n = None
        for p in s.args:
            if p.op != 'el':
                return it.unk('column concat')
            x = p.args[0]
            if it.kind(st, x) == 'frame':
                c, m, i = M.fparts(it, st, x)
            elif x.op == 'ser':
                c, m, i = vg.lst(tup(x.args[1], x.args[0])), arr_dims(x.args[0])[0], x.args[2]
            else:
                return it.unk('column concat')
            out = concat(out, c)
            n, idx = (m, i) if n is None else (n, idx)
            if m is not n or i is not idx:
                return it.unk('alignment of concatenated columns')
        return mkframe(it, st, out, n, idx)
    if s is NIL:
        it.raise_if(st, TRUE, 'ValueError')
    fs = it.freeze(st, s, -1)
    p0 = fs.args[0]
    f0 = vg._piece_at(p0, ZERO)
    f0 = it.simp(st, f0)
    if f0.op != 'frame':
        return it.unk('concat of frames', fs)
    labels = M.labels_of(f0.args[0])

    def colseq(label, k0):
        def of(f):
            if f.op != 'frame':
                return mk('seq', mk('spl', mk('unk', 'concat of frames', (f,))))
            c, k = index_of(M.labels_of(f.args[0]), label)
            return lift('asq', lambda q: as_seq(q), (M.col_at(it, st, f.args[0], k),))
        return seq_to_arr1(seq_bind(fs, of))
    cols = seq_map(labels, lambda l: tup(l, colseq(l, None)))
    n = seq_sum(fs, lambda f: M.row_count(it, st, f))
    it.event(st, 'concat', frames=fs)
    ign = kwargs.get('ignore_index') is TRUE

    def labels_(f):
        return as_seq(M.index_arr(f.args[2], f.args[1])) if f.op == 'frame' else mk('seq', mk('spl', mk('unk', 'concat of frames', (f,))))
    return mkframe(it, st, cols, n, NONE if ign else seq_to_arr1(seq_bind(fs, labels_)))


def rowser_method(it, st, v, name, args, kwargs):
    if name in ('to_numpy', 'to_list', 'tolist', 'values', 'copy'):
        a = M.rowser_values(it, st, v)
        if name in ('to_list', 'tolist'):
            return it.new_list(st, as_seq(it.arr(st, a)))
        return v if name == 'copy' else a
    if name == 'get':
        return M.getitem(it, st, v, args[0])
    a = M.rowser_values(it, st, v)
    return arr_method(it, st, a, name, args, kwargs)


def object_method(it, st, v, name, args, kwargs):
    if v.op == 'ref':
        c = st.heap[v]
        if c.kind == 'pool':
            return pool_method(it, st, v, c, name, args, kwargs)
        if c.kind == 'process':
            if name == 'start':
                it.event(st, 'process-start', target=c.f['target'], args=c.f['args'])
                if c.f['started'] is not TRUE:
                    it.setf(st, v, 'started', TRUE)
                    return schedule_start(it, st, v)
                return NONE
            if name == 'join':
                it.event(st, 'process-join')
                if not args and not kwargs:
                    wait_for(it, st, v)
                return NONE
            if name == 'is_alive':
                if pending(st, v):
                    n = iconst(st.heap[v].f.get('asked', ZERO))
                    it.setf(st, v, 'asked', num(n + 1))
                    if n > 2:
                        wait_for(it, st, v)
                return const(pending(st, v))
            if name in ('terminate', 'kill'):
                it.event(st, 'process-' + name)
                it.setf(st, v, 'waiting', FALSE)
                return NONE
            if name == 'close':
                return NONE
            return it.unk('process method ' + name)
        if c.kind == 'misc' and name in ('list', 'dict') and not (name == 'dict' and (args or kwargs)):
            r = it.new_list(st, it.seq(st, args[0]) if args else NIL) if name == 'list' else it.alloc(st, 'dict', {'d': vg.dct(NIL)})
            it.setf(st, r, 'managed', TRUE)
            return r
        if c.kind == 'misc' and name in ('shutdown', '__enter__', '__exit__', 'start'):
            return v if name == '__enter__' else NONE
        return it.unk('method ' + name)
    if v.op == 'file':
        if name in ('write', 'writelines'):
            it.event(st, 'file-content', file=v, value=it.deep(st, args[0]))
            return NONE
        if name in ('read', 'readlines', 'readline'):
            return mk('opq', 'read', v)
        if name in ('close', 'flush', 'seek', '__enter__', '__exit__'):
            return NONE if name != '__enter__' else v
    if v.op == 'opqfut':
        if name in ('result', 'get'):
            return it.thaw(st, v.args[0])
        if name == 'done':
            c = st.heap.get(v.args[1])
            return TRUE if c is not None and c.f.get('ended') is TRUE else draw(it, st, 'done', (v.args[0],), 'bool')
        return NONE if name == 'wait' else it.unk('future method ' + name)
    if v.op == 'rematch':
        gs, names = v.args
        if name == 'groups':
            return mk('tup', *gs[1:])
        if name in ('group', '__getitem__'):
            ks = [iconst(a) if iconst(a) is not None else dict(names).get(sconst(a)) for a in (args or [ZERO])]
            if any(k is None or not 0 <= k < len(gs) for k in ks):
                it.raise_if(st, TRUE, 'IndexError')
                return it.unk('group')
            return gs[ks[0]] if len(ks) == 1 else mk('tup', *[gs[k] for k in ks])
        return it.unk('match ' + name)
    if v.op == 'regex':
        return OTHER['re.' + name](it, st, [v.args[0]] + list(args), kwargs) if 're.' + name in OTHER else it.unk('regex')
    if v.op in ('opq', 'file', 'genobj', 'rng'):
        if v.op == 'rng':
            f = OTHER.get('random.' + {'integers': 'randint', 'random': 'random_sample'}.get(name, name))
            if f is not None:
                return f(it, st, args, kwargs)
            return it.unk('generator method ' + name)
        it.event(st, 'opaque-call', obj=v, name=name, args=[it.deep(st, a) for a in args])
        return mk('opq', 'm.' + name, v, tuple(it.deep(st, a) for a in args))
    it.event(st, 'opaque-call', obj=v, name=name, args=[it.deep(st, a) for a in args])
    return it.unk('method %s of opaque value' % name, v, *args)


def pool_method(it, st, v, c, name, args, kwargs):
    if name in ('map', 'imap', 'starmap', 'imap_unordered'):
        f, its = args[0], list(args[1:])
        it.event(st, 'pool-map', fn=f, its=its, pool=v)
        if name == 'starmap':
            src = its[0]
            its = [src]

            def call(q, e):
                parts = it.seq_parts(q, e)
                return it.call(f, parts, {}, q)
        elif name == 'map' and len(its) > 1 or name == 'map':
            src = its[0] if len(its) == 1 else zip_value(it, st, its)

            def call(q, e):
                return it.call(f, [e] if len(its) == 1 else [pair_get(e, k) for k in range(len(its))], {}, q)
        else:
            src = its[0]

            def call(q, e):
                return it.call(f, [e], {}, q)
        base_heap = None

        def run(q, e, out):
            # every call works on its own copy of the arguments
            if c.f.get('shared') is TRUE:
                append(it, q, out, call(q, e))
                return
            s = q.fork()
            r = it.deep(s, call(s, e))
            q.cond = s.cond
            append(it, q, out, r)
        return build(it, st, src, run)
    if name in ('submit', 'apply', 'apply_async'):
        f = args[0]
        if name == 'submit':
            a = list(args[1:])
        else:
            a = it.seq_parts(st, args[1]) if len(args) > 1 else []
        it.event(st, 'pool-submit', fn=f, args=a, pool=v)
        kw = dict(kwargs)
        if name != 'submit':
            kw = {}
            if 'args' in kwargs:
                a = it.seq_parts(st, kwargs['args'])
        s = st if c.f.get('shared') is TRUE else st.fork()
        r = it.call(f, a, kw, s)
        if s is not st:
            r = it.deep(s, r)
            st.cond = s.cond
        return r if name == 'apply' else mk('opqfut', r, v)
    if name in ('shutdown', 'close', 'join', 'terminate', '__enter__', '__exit__'):
        if name in ('shutdown', 'join'):
            it.setf(st, v, 'ended', TRUE)
        return v if name == '__enter__' else NONE
    return it.unk('pool method ' + name)


# ================================================================ builtins
@b('len')
def _len(it, st, args, kw):
    v = it.simp(st, args[0])
    if v.op == 'ite':
        return it.each(st, v, lambda l, s: _len(it, s, [l], {}))
    k = it.kind(st, v)
    if k == 'frame':
        return M.row_count(it, st, v)
    if k in ('arr', 'ser'):
        a = it.arr(st, v)
        if any(arr_dims(l) is None for l in leaves(a)):
            return mk('len', a)
        return vg._mapl(a, arr_len0)
    if k == 'set':
        return card(M.set_val(it, st, v))
    if k == 'dict':
        return slen(ditems(M.dict_val(it, st, v)))
    if k == 'graph':
        return card(st.heap[v].f['nodes'])
    if k == 'cols':
        return slen(v.args[0])
    if k == 'inst':
        m = st.heap[v].cls.lookup('__len__') if st.heap[v].cls else None
        if m is not None:
            return it.call_func(m, [v], {}, st)
        return it.unk('len')
    if k == 'str' or v.op == 'scat':
        return num(len(v.args[1])) if is_c(v) else mk('strn', 'len', v, ())
    if v.op == 'acc' and v.args[0] in ('gnodes', 'gedges'):
        return card(st.heap[v.args[1]].f['nodes' if v.args[0] == 'gnodes' else 'edges'])
    if v is NONE:
        it.raise_if(st, TRUE, 'TypeError')
    if v.op == 'tup':
        return num(len(v.args))
    if v.op == 'rowser':
        return slen(v.args[0].args[0])
    if v.op == 'unk':
        return it.unk('len', v)
    return slen(it.seq(st, v))


@b('range')
def _range(it, st, args, kw):
    a = [tonum(x) for x in args]
    lo, hi, step = (ZERO, a[0], ONE) if len(a) == 1 else (a[0], a[1], ONE) if len(a) == 2 else tuple(a)
    k = iconst(step)
    if k is None or k == 0:
        return it.unk('range step')

    def one(l, h):
        n = sub(h, l) if k > 0 else sub(l, h)
        if abs(k) != 1:
            n = fdiv(add(n, num(abs(k) - 1)), num(abs(k)))
        if is_num(n) and n.args[0] <= 0:
            return NIL
        v = fresh(n)
        return make_flat([v], (vg.lst(add(l, mul(v, step))),))
    return mk('iter', lift(('range', k), one, (lo, hi)))


@b('zip')
def _zip(it, st, args, kw):
    if len(args) == 1 and args[0].op == 'star':
        return it.unk('zip of *')
    if len(args) == 1:
        return mk('iter', seq_map(it.seq(st, args[0]), lambda x: tup(x)))
    return zip_value(it, st, args)


@b('enumerate')
def _enumerate(it, st, args, kw):
    return enumerate_value(it, st, args[0], tonum(arg(args, kw, 1, 'start', ZERO)))


@b('map')
def _map(it, st, args, kw):
    return mapped(it, st, args[0], args[1:])


@b('filter')
def _filter(it, st, args, kw):
    return filtered(it, st, args[0], args[1])


@b('sorted')
def _sorted(it, st, args, kw):
    return sorted_value(it, st, args[0], kw)


@b('reversed')
def _reversed(it, st, args, kw):
    return mk('iter', seq_reverse(it.seq(st, args[0])))


@b('list')
def _list(it, st, args, kw):
    if not args:
        return it.new_list(st)
    v = it.simp(st, args[0])
    if v.op == 'unk':
        return v
    return it.new_list(st, it.seq(st, v))


@b('tuple')
def _tuple(it, st, args, kw):
    if not args:
        return mk('tup')
    v = it.simp(st, args[0])
    if v.op in ('tup', 'unk'):
        return v
    s = it.seq(st, v)

    def one(q):
        if q.op == 'seq' and all(p.op == 'el' for p in q.args):
            return mk('tup', *[p.args[0] for p in q.args])
        # a two-element pair of unknown parts
        if q.op == 'seq' and len(q.args) == 1 and q.args[0].op == 'spl':
            x = q.args[0].args[0]
            if sort_of(x) is not None and sort_of(x)[0] == 'pair':
                return x
            if it.kind(st, v) == 'tuple' or v is x:
                return v
        return mk('lst', q)
    return vg._mapl(s, one)


@b('set', 'frozenset')
def _set(it, st, args, kw):
    if not args:
        return it.new_set(st, set_of(lambda x: FALSE))
    return it.new_set(st, M.set_val(it, st, args[0]))


@b('dict')
def _dict(it, st, args, kw):
    d = dct(NIL)
    if args:
        v = it.simp(st, args[0])
        if it.kind(st, v) == 'dict':
            d = M.dict_val(it, st, v)
        else:
            r = it.new_dict(st, d)

            def f(q, e, out):
                it.setf(q, r, 'd', dput(q.heap[r].f['d'], it.deep(q, pair_at(it, q, e, 0)), pair_at(it, q, e, 1)))
            build(it, st, v, f)
            d = st.heap[r].f['d']
    for k, x in kw.items():
        d = dput(d, const(k), x)
    return it.new_dict(st, d)


def pair_at(it, st, e, k):
    e = it.simp(st, e)
    if e.op == 'ref':
        return sat(it.seq(st, e), num(k))
    return pair_get(e, k)


@b('sum')
def _sum(it, st, args, kw):
    start = arg(args, kw, 1, 'start', ZERO)
    v = it.simp(st, args[0])
    if it.kind(st, start) in ('list', 'tuple'):
        return it.new_list(st, concat(it.seq(st, start), seq_bind(it.freeze(st, it.seq(st, v), -1), lambda e: as_seq(it.seq(st, e)))))
    if it.is_arrlike(st, v):
        a = it.arr(st, v)
        if len(arr_dims(leaves(a)[0])) > 1:
            return it.new_arr(st, a_sum(a, 0))
        return add(start, a_sum(a))
    s = it.freeze(st, it.seq(st, v), -1)
    return add(start, seq_sum(s, tonum))


@b('any')
def _any(it, st, args, kw):
    v = it.simp(st, args[0])
    if it.is_arrlike(st, v):
        return a_any(it.arr(st, v))
    return seq_any(it.seq(st, v), lambda e: it.truth(st, e))


@b('all')
def _all(it, st, args, kw):
    v = it.simp(st, args[0])
    if it.is_arrlike(st, v):
        return a_all(it.arr(st, v))
    return not_(seq_any(it.seq(st, v), lambda e: not_(it.truth(st, e))))


@b('min', 'max')
def _minmax(it, st, args, kw, name=None):
    return it.unk('min/max')


def minmax(name):
    def f(it, st, args, kw):
        if 'key' in kw:
            return it.unk(name + ' with key')
        if len(args) == 1:
            v = it.simp(st, args[0])
            if it.is_arrlike(st, v):
                return a_ext(it, 'a' + name, it.arr(st, v))
            s = it.freeze(st, it.seq(st, v), -1)
            if s.op == 'seq' and s.args and all(p.op == 'el' for p in s.args) and len(s.args) <= 6:
                vals = [tonum(p.args[0]) for p in s.args]
            else:
                r = vg._mapl(s, lambda q: mk('a' + name, seq_to_arr1(q)))
                if 'default' in kw:
                    return ite(pos(slen(s)), r, kw['default'])
                return r
        else:
            vals = [tonum(x) for x in args]
        r = vals[0]
        for x in vals[1:]:
            r = (M.max_ if name == 'max' else M.min_)(r, x)
        return r
    return f


BUILTIN['min'], BUILTIN['max'] = minmax('min'), minmax('max')


@b('int')
def _int(it, st, args, kw):
    if not args:
        return ZERO
    x = scalar_of(it, st, args[0])
    return it.simp(st, cast(x, 'int'))


@b('float')
def _float(it, st, args, kw):
    if is_c(args[0]):
        t = args[0].args[1].lower()
        if t == 'nan':
            return NAN
        if t in ('inf', '+inf', 'infinity'):
            return INF
        if t in ('-inf',):
            return mk('c', 'f', '-inf')
    return cast(scalar_of(it, st, args[0]), 'num')


def scalar_of(it, st, v):
    if it.is_arrlike(st, v):
        a = it.arr(st, v)
        return vg._mapl(a, lambda x: vg.cell(x, *[ZERO] * len(arr_dims(x))) if arr_dims(x) is not None else mk('unk', 'scalar'))
    return v


@b('bool')
def _bool(it, st, args, kw):
    return it.truth(st, args[0]) if args else FALSE


@b('str', 'repr')
def _str(it, st, args, kw):
    return M.to_str(it, st, args[0]) if args else const('')


@b('abs')
def _abs(it, st, args, kw):
    v = args[0]
    if it.is_arrlike(st, v):
        return wrap_arr(it, st, v, emap1(absv, it.arr(st, v)))
    return absv(tonum(v))


def absv(x):
    return lift('abs', lambda q: NAN if q is NAN else ite(lt(q, ZERO), neg(q), q), (tonum(x),))


@b('round')
def _round(it, st, args, kw):
    x = tonum(args[0])
    if len(args) == 1 or is_none(args[1]):
        r = lift('rnd', lambda q: q if sort_of(q) == 'int' or is_int_const(q) else mk('round', q), (x,))
        return r
    return lift(('rnd2', args[1]), lambda q: q if sort_of(q) == 'int' else mk('roundn', q, args[1]), (x,))


SORT_RULES['round'] = lambda t: 'int'
SORT_RULES['roundn'] = lambda t: 'num'


@b('pow')
def _pow(it, st, args, kw):
    return M.binop(it, st, 'Pow', args[0], args[1])


@b('divmod')
def _divmod(it, st, args, kw):
    return mk('tup', fdiv(tonum(args[0]), tonum(args[1])), mod(tonum(args[0]), tonum(args[1])))


@b('print', 'input', 'breakpoint')
def _print(it, st, args, kw):
    if 'file' in kw:
        it.event(st, 'file-content', file=kw['file'], value=NONE)
    return NONE


TYPES = {'list': 'list', 'dict': 'dict', 'set': 'set', 'str': 'str', 'tuple': 'tuple', 'frozenset': 'set'}


def isinst1(it, st, v, c):
    k = it.kind(st, v)
    if c.op == 'tup':
        return or_(*[isinst1(it, st, v, x) for x in c.args])
    name = c.args[0] if c.op in ('ext', 'cls') else None
    if name is None:
        return batom(mk('isinst', it.deep(st, v), c))
    if v.op in ('sym', 'unk', 'opq') or k in (None, 'objsym'):
        if not (k in ('list', 'dict', 'set', 'str', 'arr', 'num', 'frame')):
            return batom(mk('isinst', it.deep(st, v), const(name)))
    if c.op == 'cls':
        if v.op == 'ref' and st.heap[v].cls is not None:
            return const(any(x.name == name for x in st.heap[v].cls.mro()))
        if v.op == 'obj':
            return const(any(x.name == name for x in it.prog.classes[v.args[0]].mro()))
        return FALSE
    short = name.split('.')[-1]
    if name.startswith('builtins.') and short in TYPES:
        return const(k == TYPES[short])
    if short in ('DataFrame',):
        return const(k == 'frame')
    if short == 'Series':
        return const(k == 'ser' or v.op == 'rowser')
    if short == 'ndarray':
        return const(k == 'arr')
    if short in ('int', 'integer', 'int64', 'Integral'):
        return const(sort_of(v) == 'int' or iconst(v) is not None) if k in ('num', 'bool') else FALSE
    if short in ('float', 'floating', 'float64', 'Number', 'Real'):
        return const(k == 'num') if short != 'float' else const(k == 'num' and sort_of(v) != 'int' and iconst(v) is None)
    if short in ('bool', 'bool_'):
        return const(k == 'bool' or is_boolean(v))
    if short == 'DiGraph':
        return const(k == 'graph')
    if short == 'object':
        return TRUE
    if short in ('Sequence', 'Iterable', 'Collection'):
        return const(k in ('list', 'tuple', 'arr', 'ser', 'str') or (short != 'Sequence' and k in ('set', 'dict', 'frame')))
    if short in ('Mapping', 'MutableMapping'):
        return const(k == 'dict')
    if short == 'NoneType':
        return const(v is NONE)
    return batom(mk('isinst', it.deep(st, v), const(name)))


@b('isinstance')
def _isinstance(it, st, args, kw):
    v = it.simp(st, args[0])
    if v.op == 'ite':
        return it.each(st, v, lambda l, s: isinst1(it, s, l, args[1]))
    return isinst1(it, st, v, args[1])


@b('issubclass')
def _issubclass(it, st, args, kw):
    a, c = args
    if a.op == 'cls' and c.op == 'cls':
        return const(any(x.name == c.args[0] for x in it.prog.classes[a.args[0]].mro()))
    return it.unk('issubclass')


@b('type')
def _type(it, st, args, kw):
    v = args[0]
    if v.op == 'ref' and st.heap[v].cls is not None:
        return mk('cls', st.heap[v].cls.name)
    k = it.kind(st, v)
    n = {'list': 'builtins.list', 'dict': 'builtins.dict', 'set': 'builtins.set', 'str': 'builtins.str',
         'tuple': 'builtins.tuple', 'arr': 'numpy.ndarray', 'frame': 'pandas.DataFrame'}.get(k)
    return mk('ext', n) if n else mk('typeof', it.deep(st, v))


@b('callable')
def _callable(it, st, args, kw):
    return const(args[0].op in ('func', 'clo', 'bound', 'cls', 'ext', 'bmeth'))


@b('hasattr')
def _hasattr(it, st, args, kw):
    v, nm = args[0], sconst(args[1])
    if v.op == 'ref' and st.heap[v].kind == 'inst' and nm:
        if nm in st.heap[v].f:
            return TRUE
        c = st.heap[v].cls
        return const(c is not None and (c.lookup(nm) is not None or c.lookup_attr(nm) is not None))
    return batom(mk('hasattr', it.deep(st, v), args[1]))


@b('getattr')
def _getattr(it, st, args, kw):
    nm = sconst(args[1])
    if nm is None:
        return it.unk('dynamic getattr')
    if len(args) > 2 and _hasattr(it, st, args[:2], {}) is FALSE:
        return args[2]
    return it.getattr(args[0], nm, st)


@b('setattr')
def _setattr(it, st, args, kw):
    nm = sconst(args[1])
    if nm is None:
        return it.unk('dynamic setattr')
    it.setattr(args[0], nm, args[2], st)
    return NONE


@b('iter')
def _iter(it, st, args, kw):
    return it.alloc(st, 'queue', {'seq': it.seq(st, args[0]), 'as': const('iter')})


@b('next')
def _next(it, st, args, kw):
    v = it.simp(st, args[0])
    s = it.seq(st, v)
    n = slen(s)
    if len(args) < 2:
        it.raise_if(st, not_(pos(n)), 'StopIteration')
        s = it.simp(st, s)
        x = first_of(s)
    else:
        c = it.simp(st, pos(n))
        x = ite(c, simplify_under(first_of(s), c), args[1]) if c is not FALSE else args[1]
    if v.op == 'ref':
        it.setf(st, v, 'seq', drop(s, ONE))
    return x


def first_of(s):
    if s.op == 'seq' and len(s.args) == 1 and s.args[0].op == 'flat':
        p = s.args[0]
        v = fresh(p.args[1][0])
        bd = inst(p, [v])[0]
        if all(l is NIL or (l.op == 'seq' and len(l.args) == 1 and l.args[0].op == 'el') for l in leaves(bd)):
            cnd = vg._mapl(bd, lambda l: FALSE if l is NIL else TRUE)
            if cnd is not TRUE:
                from .interp import mk_first
                w = mk_first(v, cnd)
                val = simplify_under(vg._mapl(bd, lambda l: NONE if l is NIL else l.args[0].args[0]), cnd)
                return subst(val, {v: w})
    return sat(s, ZERO)


@b('slice')
def _slice(it, st, args, kw):
    a = list(args) + [NONE] * 3
    return mk('slice', *([NONE, a[0], NONE] if len(args) == 1 else a[:3]))


@b('super')
def _super(it, st, args, kw):
    return it.super_of(st)


@b('object', 'object.__init__', 'object.__new__')
def _object(it, st, args, kw):
    return NONE if args else mk('opq', 'object')


@b('vars', 'globals', 'locals', 'eval', 'exec', '__import__', 'compile')
def _vars(it, st, args, kw):
    return it.unk('dynamic code')


@b('hash', 'id')
def _hash(it, st, args, kw):
    return mk('fn', 'hash', it.deep(st, args[0]))


@b('ord', 'chr', 'hex', 'bin', 'format', 'ascii', 'bytes', 'memoryview', 'bytearray')
def _ord(it, st, args, kw):
    return mk('strm', 'conv', it.deep(st, args[0]), tuple(it.deep(st, a) for a in args[1:]))


@b('open')
def _open(it, st, args, kw):
    path = it.deep(st, args[0])
    mode = arg(args, kw, 1, 'mode', const('r'))
    it.event(st, 'open', path=path, mode=mode)
    return mk('file', path, mode)


@b('property', 'staticmethod', 'classmethod')
def _prop(it, st, args, kw):
    return args[0]


# ================================================================ numpy
def arr_of(it, st, v):
    return it.arr(st, v)


def is_arr_t(a):
    return all(arr_dims(l) is not None for l in leaves(a))


@n_('asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray')
def np_asarray(it, st, args, kw):
    v = it.simp(st, arg(args, kw, 0, 'a'))
    dt = dtype_of(arg(args, kw, 1, 'dtype'))
    if v.op == 'ite':
        return it.each(st, v, lambda l, s: np_asarray(it, s, [l] + list(args[1:]), kw))
    k = it.kind(st, v)
    if k in ('arr', 'ser') and v.op in ('ref', 'view', 'ser'):
        a = it.arr(st, v)
        if is_arr_t(a) and (dt is None or dt == arr_dtype(a)):
            # no copy is made
            if v.op == 'ser':
                return M.shared_arr(it, st, a, v.args[3] if len(v.args) > 3 else None)
            return v
    return np_array(it, st, [v] + list(args[1:]), kw)


@n_('array', 'copy', 'vstack1')
def np_array(it, st, args, kw):
    v = it.simp(st, arg(args, kw, 0, 'object'))
    if kw.get('copy') is FALSE:
        return np_asarray(it, st, [v] + list(args[1:]), {k: x for k, x in kw.items() if k != 'copy'})
    dt = dtype_of(arg(args, kw, 1, 'dtype'))
    if v.op == 'ite':
        return it.each(st, v, lambda l, s: np_array(it, s, [l] + list(args[1:]), kw))
    if v.op == 'mesh':
        return mk('mesharr', v.args[0], v.args[1])
    if v.op == 'unk':
        return v
    k = it.kind(st, v)
    if k in ('set', 'dict', 'graph'):
        return it.unk('array of an unordered collection', it.deep(st, v))
    if k in ('num', 'str', 'bool', 'none'):
        return cast(v, dt)
    a = arr_of(it, st, v)
    if not is_arr_t(a):
        return it.unk('array', a)
    return it.new_arr(st, arr_cast(a, dt))


def full_dims(it, st, v):
    k = it.kind(st, v)
    if k in ('tuple', 'list', 'arr'):
        s = it.seq(st, v)
        if s.op == 'seq' and all(p.op == 'el' for p in s.args):
            return [tonum(p.args[0]) for p in s.args]
        return None
    return [tonum(v)]


def filled(it, st, shape, x, dt):
    d = full_dims(it, st, shape)
    if d is None:
        return it.unk('shape')
    vs = [fresh(n) for n in d]
    return it.new_arr(st, make_arr(vs, (TRUE, cast(x, dt) if dt else x), (dt or elem_dtype(x),)))


@n_('zeros', 'ones', 'empty')
def np_zeros(it, st, args, kw):
    return it.unk('zeros')


def np_const(x):
    def f(it, st, args, kw):
        dt = dtype_of(arg(args, kw, 1, 'dtype')) or 'num'
        y = x
        if x is None:
            y = mk('sym', 'uninitialised')
            SORT[y] = 'num'
            return filled(it, st, arg(args, kw, 0, 'shape'), y, dt if dt != 'bool' else None)
        return filled(it, st, arg(args, kw, 0, 'shape'), y, dt)
    return f


NUMPY['zeros'], NUMPY['ones'], NUMPY['empty'] = np_const(ZERO), np_const(ONE), np_const(None)


@n_('full')
def np_full(it, st, args, kw):
    x = arg(args, kw, 1, 'fill_value')
    return filled(it, st, arg(args, kw, 0, 'shape'), x, dtype_of(arg(args, kw, 2, 'dtype')))


@n_('zeros_like', 'ones_like', 'empty_like', 'full_like')
def np_like(it, st, args, kw):
    return it.unk('like')


def np_like_f(x):
    def f(it, st, args, kw):
        a = arr_of(it, st, args[0])
        y = args[1] if x == 'full' else x
        dt = dtype_of(kw.get('dtype')) or M.arr_dtype_leaf(a)
        return it.new_arr(st, emap1(lambda e: cast(y, dt), a, dt))
    return f


NUMPY['zeros_like'], NUMPY['ones_like'], NUMPY['full_like'] = np_like_f(ZERO), np_like_f(ONE), np_like_f('full')
NUMPY['empty_like'] = np_like_f(sym('uninitialised', 'num'))


@n_('eye', 'identity')
def np_eye(it, st, args, kw):
    n = tonum(args[0])
    m = tonum(args[1]) if len(args) > 1 and not is_none(args[1]) else n
    dt = dtype_of(kw.get('dtype')) or 'num'
    i, j = fresh(n), fresh(m)
    return it.new_arr(st, make_arr([i, j], (TRUE, cast(ite(eq(i, j), ONE, ZERO), dt)), (dt,)))


@n_('arange')
def np_arange(it, st, args, kw):
    r = _range(it, st, args, {})
    if r.op != 'iter':
        return r
    return it.new_arr(st, arr_cast(seq_to_arr1(r.args[0], 'int'), dtype_of(kw.get('dtype'))))


@n_('append')
def np_append(it, st, args, kw):
    if not is_none(arg(args, kw, 2, 'axis')):
        return NUMPY['concatenate'](it, st, [it.new_list(st, vg.lst(args[0], args[1])), kw.get('axis', args[2] if len(args) > 2 else ZERO)], {})
    parts = []
    dts = []
    for v in (arg(args, kw, 0, 'arr'), arg(args, kw, 1, 'values')):
        v = it.simp(st, v)
        k = it.kind(st, v)
        if k in ('arr', 'ser', 'list', 'tuple', 'frame') or v.op == 'ite':
            a = arr_of(it, st, v)
            if not is_arr_t(a):
                return it.unk('append', a)
            if any(len(arr_dims(l)) > 1 for l in leaves(a)):
                a = reshape_to(it, st, a, [num(-1)])
            parts.append(vg._mapl(a, lambda x: as_seq(x)))
            la = leaves(a)
            if not all(arr_dims(l)[0] is ZERO for l in la):
                dts.append(arr_dtype(la[0]))
            elif k in ('list', 'tuple'):
                dts.append('num')
        elif k == 'set':
            return it.unk('append of a set')
        else:
            parts.append(vg.lst(v))
            dts.append(elem_dtype(v))
    return it.new_arr(st, join_seq(parts, dts))


def join_seq(parts, dts):
    s = concat(*parts) if len(parts) == 2 else seq(*parts)
    dt = common_dtype(dts)
    return vg._mapl(s, lambda q: seq_to_arr1(q, dt) if dt else seq_to_arr1(q))


def common_dtype(dts):
    ds = set(dts)
    if len(ds) == 1:
        return ds.pop()
    if not ds:
        return None
    if ds <= {'int', 'bool'}:
        return 'int'
    if ds <= {'int', 'bool', 'num'}:
        return 'num'
    if 'obj' in ds:
        return 'obj'
    return None


@n_('concatenate', 'hstack', 'vstack', 'stack', 'column_stack', 'r_', 'row_stack')
def np_concat(it, st, args, kw):
    return it.unk('concatenate')


def np_cat(name):
    def f(it, st, args, kw):
        ax = arg(args, kw, 1, 'axis')
        v = it.simp(st, args[0])
        if name == 'stack' and v.op == 'mesh':
            k = iconst(ax) if ax is not None else 0
            if k == -1:
                return mk('mesharr', v.args[0], const(v.args[1].args[1] + '/last') if isinstance(v.args[1], T) else v.args[1] + '/last')
            if k == 0:
                return mk('mesharr', v.args[0], v.args[1])
            return it.unk('stack of grids')
        s = it.freeze(st, it.seq(st, v), -1)
        if s.op != 'seq':
            return it.unk('concatenate', s)
        if name == 'stack':
            if ax is None or iconst(ax) == 0:
                return it.new_arr(st, it.list_to_arr(st, s))
            return it.unk('stack')
        if not all(p.op == 'el' for p in s.args):
            a = seq_bind(s, lambda e: as_seq(it.arr(st, e)))
            if name in ('concatenate', 'hstack') and (ax is None or iconst(ax) == 0):
                return it.new_arr(st, it.list_to_arr(st, a))
            return it.unk('concatenate', s)
        arrs = [it.arr(st, p.args[0]) for p in s.args]
        arrs = [x if arr_dims(leaves(x)[0]) is not None else it.arr(st, it.new_list(st, vg.lst(x))) for x in arrs]
        if any(l.op == 'ite' for l in arrs):
            return it.new_arr(st, lift(('cat', name, ax), lambda *q: cat_arrs(it, st, name, ax, list(q)), tuple(arrs)))
        return it.new_arr(st, cat_arrs(it, st, name, ax, arrs))
    return f


def cat_arrs(it, st, name, ax, arrs):
    ranks = {len(arr_dims(a)) for a in arrs}
    if len(ranks) != 1:
        return mk('unk', 'concatenate', tuple(arrs))
    r = ranks.pop()
    if name == 'vstack' and r == 1:
        return it.list_to_arr(st, vg.lst(*arrs))
    axis = 0 if name in ('concatenate', 'vstack') else (0 if r == 1 else 1)
    if name == 'column_stack':
        if r == 1:
            t = it.list_to_arr(st, vg.lst(*arrs))
            return M.perm_view(arr_dims(t), [1, 0]).read(t)
        axis = 1
    if ax is not None and iconst(ax) is not None and name == 'concatenate':
        axis = iconst(ax) % r
    if r == 1:
        return join_seq([as_seq(a) for a in arrs], [arr_dtype(a) for a in arrs if arr_dims(a)[0] is not ZERO])
    out = arrs[0]
    for y in arrs[1:]:
        out = cat2(out, y, axis)
    return out


def cat2(x, y, axis):
    dx, dy = arr_dims(x), arr_dims(y)
    if not (C.arr_guard_true(x) and C.arr_guard_true(y)):
        if axis == 0 and len(dx) >= 1:
            pass
        return mk('unk', 'concatenate', (x, y))
    ds = list(dx)
    ds[axis] = add(dx[axis], dy[axis])
    vs = [fresh(d) for d in ds]
    iy = list(vs)
    iy[axis] = sub(vs[axis], dx[axis])
    e = ite(lt(vs[axis], dx[axis]), vg.cell(x, *vs), vg.cell(y, *iy))
    dt = common_dtype([arr_dtype(x), arr_dtype(y)])
    return make_arr(vs, (TRUE, e), (dt or elem_dtype(e),))


for _nm in ('concatenate', 'hstack', 'vstack', 'stack', 'column_stack'):
    NUMPY[_nm] = np_cat(_nm)


@n_('delete')
def np_delete(it, st, args, kw):
    a = arr_of(it, st, args[0])
    i = args[1]
    if not is_arr_t(a):
        return it.unk('delete')
    ax = arg(args, kw, 2, 'axis')
    if any(len(arr_dims(l)) > 1 for l in leaves(a)) and (is_none(ax)):
        a = reshape_to(it, st, a, [num(-1)])
    elif any(len(arr_dims(l)) > 1 for l in leaves(a)):
        return it.unk('delete on an axis')
    if it.kind(st, i) in ('list', 'arr', 'tuple', 'slice'):
        ia = it.arr(st, i)
        if is_arr_t(ia) and M.arr_dtype_leaf(ia) != 'bool':
            s = as_seq(ia)
            dt = M.arr_dtype_leaf(a)

            def drop_(x):
                v = fresh(arr_dims(x)[0])
                g = and_(arr_guard(x, v), not_(member(v, s)))
                return make_arr([v], (g, vg.cell(x, v)), (dt,))
            return it.new_arr(st, vg._mapl(a, drop_))
        if is_arr_t(ia):
            return it.new_arr(st, M.select_mask(a, emap1(lambda x: not_(vg.truth(x)), ia, 'bool')))
        return it.unk('delete')
    dt = M.arr_dtype_leaf(a)
    s = vg._mapl(a, lambda x: as_seq(x))
    n = slen(s)
    k = norm_index(tonum(i), n)
    return it.new_arr(st, vg._mapl(M.seq_remove_at(s, k), lambda q: seq_to_arr1(q, dt)))


@n_('isin', 'in1d')
def np_isin(it, st, args, kw):
    inv = arg(args, kw, None, 'invert') is TRUE
    v = args[0]
    if it.is_arrlike(st, v) or it.kind(st, v) in ('list', 'tuple'):
        a = isin_term(it, st, arr_of(it, st, v), args[1])
    else:
        r = M.contains_(it, st, args[1], v)
        return not_(r) if inv else r
    if inv:
        a = emap1(lambda x: not_(vg.truth(x)), a, 'bool')
    return it.new_arr(st, a)


@n_('where')
def np_where(it, st, args, kw):
    c = it.simp(st, args[0])
    if len(args) == 1:
        if not it.is_arrlike(st, c) and it.kind(st, c) not in ('list',):
            return it.unk('where')
        a = arr_of(it, st, c)
        if any(len(arr_dims(l)) != 1 for l in leaves(a)):
            ds = arr_dims(a)
            vs = [fresh(d) for d in ds]
            g = and_(arr_guard(a, *vs), vg.truth(vg.cell(a, *vs)))
            return mk('tup', *[it.new_arr(st, make_arr(vs, (g, v), ('int',))) for v in vs])
        return mk('tup', it.new_arr(st, C.where1(a)))
    x, y = args[1], args[2]
    if not it.is_arrlike(st, c) and not it.is_arrlike(st, x) and not it.is_arrlike(st, y):
        return ite(it.truth(st, c), x, y)
    ca = arr_of(it, st, c)
    xa = arr_of(it, st, x) if it.is_arrlike(st, x) or it.kind(st, x) == 'list' else x
    ya = arr_of(it, st, y) if it.is_arrlike(st, y) or it.kind(st, y) == 'list' else y
    t = emap2(it, st, lambda p, q: mk('tup', vg.truth(p), q), ca, xa, 'obj')
    return it.new_arr(st, emap2(it, st, lambda p, q: ite(pair_get(p, 0), pair_get(p, 1), q), t, ya))


@n_('nonzero')
def np_nonzero(it, st, args, kw):
    return np_where(it, st, args[:1], {})


@n_('flatnonzero')
def np_flatnonzero(it, st, args, kw):
    return it.new_arr(st, C.where1(arr_of(it, st, args[0])))


@n_('argwhere')
def np_argwhere(it, st, args, kw):
    a = arr_of(it, st, args[0])
    if any(len(arr_dims(l)) != 1 for l in leaves(a)):
        return it.unk('argwhere')

    def one(x):
        v, w = fresh(arr_dims(x)[0]), fresh(ONE)
        return make_arr([v, w], (and_(arr_guard(x, v), vg.truth(vg.cell(x, v))), v), ('int',))
    return it.new_arr(st, vg._mapl(a, one))


@n_('bincount')
def np_bincount(it, st, args, kw):
    a = arr_of(it, st, arg(args, kw, 0, 'x'))
    w = arg(args, kw, 1, 'weights')
    ml = arg(args, kw, 2, 'minlength')
    if not is_arr_t(a) or a.op == 'ite' or len(arr_dims(a)) != 1:
        return it.unk('bincount', a)
    if M.arr_dtype_leaf(a) not in ('int', 'bool'):
        it.event(st, 'suspect', what='bincount of non-integers')
    if is_none(ml):
        n = add(mk('amax', a), ONE)
        return it.unk('bincount without minlength', a)
    n = tonum(ml)
    s = fresh(n)
    v = fresh(arr_dims(a)[0])
    g = arr_guard(a, v)
    if is_none(w):
        wt = ONE
    else:
        wa = arr_of(it, st, w)
        vs, ia, ib, g2 = M.align(a, wa)
        if vs[0] is not v:
            v = vs[0]
        wt = tonum(vg.cell(wa, *ib))
        g = g2
        if ia[0] is not v:
            return it.unk('bincount weights')
    hit = and_(g, eq(tonum(vg.cell(a, v)), s))
    e = make_sum([v], (ite(hit, wt, ZERO),))
    return it.new_arr(st, make_arr([s], (TRUE, e), ('int' if is_none(w) else 'num',)))


@n_('add.at')
def np_add_at(it, st, args, kw):
    return ufunc_at(it, st, args, 1)


@n_('subtract.at')
def np_subtract_at(it, st, args, kw):
    return ufunc_at(it, st, args, -1)


def ufunc_at(it, st, args, sign):
    ref, ix = args[:2]
    val = args[2] if len(args) > 2 else None
    if val is None or not M.array_ref(it, st, ref):
        return it.unk('ufunc.at')
    a = it.arr(st, ref)
    if a.op == 'ite' or arr_dims(a) is None:
        return it.unk('ufunc.at')
    ds = arr_dims(a)
    items = it.seq_parts(st, ix) if it.kind(st, ix) == 'tuple' else [ix]
    if items is None or len(items) != len(ds):
        return it.unk('ufunc.at')
    arrs = [arr_of(it, st, x) if it.is_arrlike(st, x) or it.kind(st, x) == 'list' else None for x in items]
    lens = {arr_dims(x)[0] for x in arrs if x is not None and is_arr_t(x) and x.op != 'ite' and len(arr_dims(x)) == 1}
    if len(lens) != 1 or any(x is not None and (not is_arr_t(x) or x.op == 'ite' or len(arr_dims(x)) != 1 or arr_dtype(x) == 'bool')
                             for x in arrs):
        return it.unk('ufunc.at')
    va = arr_of(it, st, val) if it.is_arrlike(st, val) else None
    v = fresh(lens.pop())
    g = and_(*[arr_guard(x, v) for x in arrs if x is not None])
    if va is not None and (va.op == 'ite' or len(arr_dims(va)) != 1 or (g is not TRUE and arr_guard(va, v) is not g)):
        return it.unk('ufunc.at')
    wt = tonum(vg.cell(va, v)) if va is not None else tonum(val)

    def new(jx, old):
        hit = g
        for x, y, z, d in zip(jx, arrs, items, ds):
            hit = and_(hit, eq(x, vg.cell(y, v) if y is not None else M.norm_index(tonum(z), d)))
        s = make_sum([v], (ite(hit, wt, ZERO),))
        return add(old, s if sign > 0 else neg(s))
    M.store(it, st, ref, lambda jx: TRUE, new)
    return NONE


@n_('meshgrid')
def np_meshgrid(it, st, args, kw):
    ind = kw.get('indexing')
    kind = sconst(ind) if ind is not None else 'xy'
    if len(args) == 1 and args[0].op == 'star':
        s = it.freeze(st, args[0].args[0], -1)
        return mk('mesh', s, kind or '?')
    return mk('mesh', it.freeze(st, vg.lst(*args), -1), kind or '?')


@n_('indices')
def np_indices(it, st, args, kw):
    s = it.seq(st, args[0])
    if s.op != 'seq' or not all(p.op == 'el' for p in s.args) or 'sparse' in kw:
        return it.unk('indices')
    ds = [tonum(p.args[0]) for p in s.args]
    vs = [fresh(num(len(ds)))] + [fresh(d) for d in ds]
    e = ZERO
    for k in reversed(range(len(ds))):
        e = ite(eq(vs[0], num(k)), vs[k + 1], e)
    return it.new_arr(st, make_arr(vs, (TRUE, e), ('int',)))


@n_('array_equal')
def np_array_equal(it, st, args, kw):
    return array_equal(it, st, args[0], args[1])


@n_('fill_diagonal')
def np_fill_diagonal(it, st, args, kw):
    ref, val = args[0], args[1]
    if not M.array_ref(it, st, ref):
        return it.unk('fill_diagonal')
    va = arr_of(it, st, val) if it.kind(st, val) in ('arr', 'list', 'ser', 'tuple') else None
    if va is not None and not is_arr_t(va):
        return it.unk('fill_diagonal')
    M.store(it, st, ref, lambda ix: and_(*[eq(ix[0], j) for j in ix[1:]]),
            lambda ix, old: vg.cell(va, ix[0]) if va is not None else val)
    return NONE


@n_('diagonal', 'diag')
def np_diagonal(it, st, args, kw):
    a = arr_of(it, st, args[0])
    if len(arr_dims(leaves(a)[0])) == 1:
        d = arr_dims(a)[0]
        i, j = fresh(d), fresh(d)
        return it.new_arr(st, make_arr([i, j], (TRUE, ite(eq(i, j), vg.cell(a, i), ZERO)), (arr_dtype(a),)))
    return it.new_arr(st, diagonal_term(a))


def np_red(name):
    def f(it, st, args, kw):
        v = it.simp(st, arg(args, kw, 0, 'a'))
        rest = list(args[1:])
        if v.op == 'ite':
            return it.each(st, v, lambda l, s: f(it, s, [l] + rest, {k: x for k, x in kw.items() if k != 'a'}))
        k = it.kind(st, v)
        if k in ('num', 'bool'):
            return v
        if k == 'set':
            return it.unk(name + ' of a set')
        a = arr_of(it, st, v)
        if not is_arr_t(a):
            return it.unk('np.' + name, a)
        ref = v if M.array_ref(it, st, v) else it.new_arr(st, a)
        return arr_method(it, st, ref, {'amax': 'max', 'amin': 'min', 'around': 'round', 'round_': 'round'}.get(name, name), rest,
                          {k: x for k, x in kw.items() if k != 'a'})
    return f


for _nm in ('sum', 'prod', 'any', 'all', 'max', 'min', 'amax', 'amin', 'mean', 'cumsum', 'cumprod', 'argmin', 'argmax', 'ravel',
            'transpose', 'squeeze', 'diff1'):
    NUMPY[_nm] = np_red(_nm)
NUMPY['nansum'] = NUMPY['nanmin'] = NUMPY['nanmax'] = None


@n_('argsort')
def np_argsort(it, st, args, kw):
    a = arr_of(it, st, args[0])
    if not is_arr_t(a) or arr_dims(leaves(a)[0]) is None or len(arr_dims(leaves(a)[0])) != 1:
        return it.unk('argsort')
    return it.new_arr(st, C.argsort_term(it, st, a))


@n_('nanargmin', 'nanargmax', 'nanmin', 'nanmax', 'nansum', 'median', 'std', 'var', 'sort', 'unique', 'cov', 'corrcoef')
def np_opaque(it, st, args, kw):
    return it.unk('numpy function')


@n_('diff')
def np_diff(it, st, args, kw):
    a = arr_of(it, st, args[0])
    if not is_arr_t(a) or len(arr_dims(leaves(a)[0])) != 1:
        return it.unk('np.diff')

    def one(x):
        n = sub(arr_dims(x)[0], ONE)
        v = fresh(n)
        return make_arr([v], (TRUE, sub(vg.cell(x, add(v, ONE)), vg.cell(x, v))), (arr_dtype(x),))
    return it.new_arr(st, vg._mapl(a, one))


@n_('reshape')
def np_reshape(it, st, args, kw):
    d = dims_arg(it, st, [args[1]])
    if args[0].op in ('mesh', 'mesharr', 'bmeth'):
        return mesh_method(it, st, args[0], 'reshape', [args[1]])
    return reshape(it, st, args[0] if M.array_ref(it, st, args[0]) else it.new_arr(st, arr_of(it, st, args[0])), d) if d else it.unk('reshape')


@n_('dot', 'matmul')
def np_dot(it, st, args, kw):
    return M.matmul(it, st, arr_of(it, st, args[0]), arr_of(it, st, args[1]))


@n_('expand_dims')
def np_expand(it, st, args, kw):
    k = iconst(arg(args, kw, 1, 'axis'))
    a = arr_of(it, st, args[0])
    d = list(arr_dims(a))
    d.insert(k if k >= 0 else len(d) + 1 + k, ONE)
    return reshape(it, st, args[0], d)


@n_('ix_')
def np_ix(it, st, args, kw):
    return mk('ix_', *[it.deep(st, a) for a in args])


@n_('nan_to_num')
def np_nan(it, st, args, kw):
    return it.new_arr(st, M.fillna(arr_of(it, st, args[0]), ZERO))


def np_fn1(f, dtype=None):
    def g(it, st, args, kw):
        v = args[0]
        if 'out' in kw or 'where' in kw:
            return it.unk('ufunc with out/where')
        if it.is_arrlike(st, v) or it.kind(st, v) in ('list', 'tuple'):
            a = arr_of(it, st, v)
            if not is_arr_t(a):
                return it.unk('ufunc')
            return wrap_arr(it, st, v, emap1(f, a, dtype))
        if v.op == 'unk':
            return it.unk('ufunc', v)
        return f(v)
    return g


def sqrt(x):
    return lift('sqrt_', lambda q: q if q is NAN else powq(q, vg.Q(1, 2)), (tonum(x),))


for _nm, _f in (('sqrt', sqrt), ('log', lambda x: fn('log', tonum(x))), ('exp', lambda x: fn('exp', tonum(x))),
                ('abs', absv), ('absolute', absv), ('square', lambda x: mul(tonum(x), tonum(x))),
                ('negative', lambda x: neg(tonum(x))), ('floor', lambda x: fn('floor', tonum(x))),
                ('ceil', lambda x: fn('ceil', tonum(x))), ('rint', lambda x: mk('round', tonum(x))),
                ('log1p', lambda x: fn('log', add(ONE, tonum(x)))), ('log2', lambda x: fn('log2', tonum(x))),
                ('reciprocal', lambda x: div(ONE, tonum(x)))):
    NUMPY[_nm] = np_fn1(_f)
NUMPY['isnan'] = np_fn1(M.isnan_term, 'bool')
NUMPY['isfinite'] = np_fn1(lambda x: not_(or_(M.isnan_term(x), const(x is INF))), 'bool')
NUMPY['isinf'] = np_fn1(lambda x: const(x is INF), 'bool')
NUMPY['logical_not'] = np_fn1(lambda x: not_(vg.truth(x)), 'bool')
NUMPY['invert'] = lambda it, st, args, kw: M.unop(it, st, 'Invert', args[0])


@n_('around', 'round', 'round_')
def np_around(it, st, args, kw):
    v = args[0]
    d = arg(args, kw, 1, 'decimals', ZERO)
    f = lambda x: lift(('ar', d), lambda q: mk('roundn', q, d), (tonum(x),))
    if it.is_arrlike(st, v) or it.kind(st, v) in ('list', 'tuple'):
        return wrap_arr(it, st, v, emap1(f, arr_of(it, st, v)))
    return f(v)


def np_fn2(op):
    def g(it, st, args, kw):
        if 'out' in kw or 'where' in kw:
            return it.unk('ufunc with out/where')
        a, c = args[0], args[1]
        conv = lambda v: it.new_arr(st, arr_of(it, st, v)) if it.kind(st, v) in ('list', 'tuple') else v
        return M.binop(it, st, op, conv(a), conv(c))
    return g


for _nm, _op in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'),
                 ('power', 'Pow'), ('float_power', 'Pow'), ('floor_divide', 'FloorDiv'), ('mod', 'Mod'), ('remainder', 'Mod'),
                 ('bitwise_and', 'BitAnd'), ('bitwise_or', 'BitOr')):
    NUMPY[_nm] = np_fn2(_op)


def np_cmp(op):
    def g(it, st, args, kw):
        return M.compare(it, st, op, args[0], args[1])
    return g


for _nm, _op in (('equal', 'Eq'), ('not_equal', 'NotEq'), ('less', 'Lt'), ('greater', 'Gt'), ('less_equal', 'LtE'),
                 ('greater_equal', 'GtE')):
    NUMPY[_nm] = np_cmp(_op)


def np_logic(op):
    def g(it, st, args, kw):
        a = emap2(it, st, lambda p, q: op(vg.truth(p), vg.truth(q)), arr_of(it, st, args[0]), arr_of(it, st, args[1]), 'bool')
        return it.new_arr(st, a) if is_arr_t(a) else a
    return g


NUMPY['logical_and'] = np_logic(and_)
NUMPY['logical_or'] = np_logic(or_)


@n_('maximum', 'minimum', 'fmax', 'fmin')
def np_maximum(it, st, args, kw):
    return it.unk('maximum')


def np_mx(f):
    def g(it, st, args, kw):
        a, c = args
        if it.is_arrlike(st, a) or it.is_arrlike(st, c):
            return it.new_arr(st, emap2(it, st, f, arr_of(it, st, a) if it.is_arrlike(st, a) else a,
                                        arr_of(it, st, c) if it.is_arrlike(st, c) else c))
        return f(tonum(a), tonum(c))
    return g


NUMPY['maximum'], NUMPY['minimum'] = np_mx(M.max_), np_mx(M.min_)


def np_cast(dt):
    def g(it, st, args, kw):
        v = args[0]
        if it.is_arrlike(st, v) or it.kind(st, v) in ('list', 'tuple'):
            return it.new_arr(st, arr_cast(arr_of(it, st, v), dt))
        return cast(v, dt)
    return g


for _nm in ('int', 'int64', 'int32', 'int_', 'intp', 'uint64', 'uint32', 'int8', 'int16', 'uint8', 'uint16', 'float', 'float64', 'float_',
            'double', 'float32', 'float16', 'bool', 'bool_', 'longdouble'):
    NUMPY[_nm] = np_cast(dtype_of(mk('ext', 'numpy.' + _nm)))


@n_('seterr', 'errstate', 'set_printoptions')
def np_seterr(it, st, args, kw):
    return mk('opq', 'errstate')


@n_('size', 'shape', 'ndim')
def np_size(it, st, args, kw):
    return it.unk('np.size')


NUMPY['size'] = lambda it, st, a, k: M.attr(it, st, it.new_arr(st, arr_of(it, st, a[0])), 'size')
NUMPY['shape'] = lambda it, st, a, k: M.attr(it, st, it.new_arr(st, arr_of(it, st, a[0])), 'shape')
NUMPY['isscalar'] = lambda it, st, a, k: const(it.kind(st, a[0]) in ('num', 'str', 'bool'))


@n_('tile', 'repeat', 'flip', 'roll', 'cross', 'outer', 'einsum', 'insert', 'unravel_index', 'ravel_multi_index', 'take', 'put',
    'apply_along_axis', 'vectorize', 'fromiter', 'linspace', 'triu', 'tril', 'setdiff1d', 'union1d', 'intersect1d', 'pad',
    'broadcast_to', 'lexsort', 'searchsorted', 'digitize', 'histogram', 'count_nonzero', 'array2string')
def np_unsupported(it, st, args, kw):
    return it.unk('numpy function')


@n_('count_nonzero')
def np_cnz(it, st, args, kw):
    a = arr_of(it, st, args[0])
    return arr_result(it, st, a_sum(emap1(lambda x: ite(vg.truth(x), ONE, ZERO), a, 'int'), axis_of(it, args, kw, 1, len(arr_dims(leaves(a)[0])))))


@n_('fromiter')
def np_fromiter(it, st, args, kw):
    return np_array(it, st, [it.new_list(st, it.seq(st, args[0]))], {'dtype': arg(args, kw, 1, 'dtype', NONE)})


@n_('take')
def np_take(it, st, args, kw):
    if 'axis' in kw and iconst(kw['axis']) != 0 or len(args) > 2:
        return it.unk('take')
    return M.getitem(it, st, args[0], args[1])


@n_('split', 'array_split')
def np_split(it, st, args, kw):
    a = arr_of(it, st, args[0])
    at, axis = arg(args, kw, 1, 'indices_or_sections'), iconst(arg(args, kw, 2, 'axis', ZERO))
    ps = it.seq_parts(st, at) if it.kind(st, at) in ('list', 'tuple') else None
    if not is_arr_t(a) or a.op == 'ite' or ps is None or arr_guard(a, *[fresh(d) for d in arr_dims(a)[:1]]) is not TRUE or \
            axis not in range(len(arr_dims(a))) or any(iconst(p) is None or iconst(p) < 0 for p in ps):
        return it.unk('split')
    ds = arr_dims(a)
    lim = lambda k: ite(lt(ds[axis], k), ds[axis], k)
    marks = [ZERO] + [lim(p) for p in ps] + [ds[axis]]
    out = []
    for lo, hi in zip(marks, marks[1:]):
        vs = [fresh(sub(hi, lo) if k == axis else d) for k, d in enumerate(ds)]
        e = vg.cell(a, *[add(v, lo) if k == axis else v for k, v in enumerate(vs)])
        out.append(it.new_arr(st, make_arr(vs, (TRUE, e), (arr_dtype(a),))))
    return it.new_list(st, vg.lst(*out))


@n_('flip')
def np_flip(it, st, args, kw):
    a = arr_of(it, st, args[0])
    if len(arr_dims(leaves(a)[0])) != 1:
        return it.unk('flip')
    return it.new_arr(st, vg._mapl(seq_reverse(as_seq(a)), lambda q: seq_to_arr1(q)))


@n_('isclose')
def np_isclose(it, st, args, kw):
    return close_to(it, st, args, kw)


@n_('allclose')
def np_allclose(it, st, args, kw):
    r = close_to(it, st, args, kw)
    return NUMPY['all'](it, st, [r], {}) if it.is_arrlike(st, r) else r


def close_to(it, st, args, kw):
    x, y = args[0], args[1]
    rt = arg(args, kw, 2, 'rtol', num(vg.Q(1, 10 ** 5)))
    at = arg(args, kw, 3, 'atol', num(vg.Q(1, 10 ** 8)))
    conv = lambda v: it.new_arr(st, arr_of(it, st, v)) if it.kind(st, v) in ('list', 'tuple') else v
    x, y = conv(x), conv(y)
    size = lambda v: NUMPY['abs'](it, st, [v], {})
    d = M.binop(it, st, 'Sub', x, y)
    lim = M.binop(it, st, 'Add', at, M.binop(it, st, 'Mult', rt, size(y)))
    return M.compare(it, st, "LtE", size(d), lim)


def past_nan(last, name, fill):
    def f(it, st, args, kw):
        a = arr_of(it, st, args[0])
        if not is_arr_t(a):
            return it.unk(name)
        b = emap1(lambda x: ite(M.isnan_term(x), fill, x), a)
        return NUMPY[last](it, st, [it.new_arr(st, b)] + list(args[1:]), dict(kw))
    return f


for _nm, _last, _fill in (('nansum', 'sum', ZERO), ('nanmin', 'min', const(float('inf'))), ('nanmax', 'max', const(float('-inf'))),
                          ('nanargmin', 'argmin', const(float('inf'))), ('nanargmax', 'argmax', const(float('-inf')))):
    NUMPY[_nm] = past_nan(_last, _nm, _fill)


@n_('sort')
def np_sort(it, st, args, kw):
    a = arr_of(it, st, args[0])
    if any(arr_dims(l) is None or len(arr_dims(l)) != 1 for l in leaves(a)) or set(kw) - {'kind', 'axis'}:
        return it.unk('sort')
    r = sorted_value(it, st, args[0], {})
    return it.new_arr(st, arr_of(it, st, r))


@n_('unique')
def np_unique(it, st, args, kw):
    a = arr_of(it, st, args[0])
    if any(arr_dims(l) is None or len(arr_dims(l)) != 1 for l in leaves(a)) or len(args) > 1 or set(kw) - {'return_counts', 'return_inverse'} \
            or any(x not in (TRUE, FALSE) for x in kw.values()):
        return it.unk('unique')
    r = sorted_value(it, st, it.alloc(st, 'set', {'s': vg.set_of_seq(as_seq(a))}), {})
    u = arr_of(it, st, r)
    out = [it.new_arr(st, u)]
    if TRUE in kw.values() and (a.op == 'ite' or u.op == 'ite' or len(arr_dims(u)) != 1 or arr_guard(u, fresh(arr_dims(u)[0])) is not TRUE):
        return it.unk('unique')
    if kw.get('return_inverse') is TRUE:
        v, w = fresh(arr_dims(a)[0]), fresh(arr_dims(u)[0])
        out.append(it.new_arr(st, make_arr([v], (arr_guard(a, v), make_sum([w], (ite(eq(vg.cell(a, v), vg.cell(u, w)), w, ZERO),))), ('int',))))
    if kw.get('return_counts') is TRUE:
        v, w = fresh(arr_dims(a)[0]), fresh(arr_dims(u)[0])
        c = make_sum([v], (ite(and_(arr_guard(a, v), eq(vg.cell(a, v), vg.cell(u, w))), ONE, ZERO),))
        out.append(it.new_arr(st, make_arr([w], (TRUE, c), ('int',))))
    return out[0] if len(out) == 1 else mk('tup', *out)


@n_('ravel_multi_index')
def np_ravel_multi(it, st, args, kw):
    xs, ds = it.seq_parts(st, args[0]), it.seq_parts(st, args[1] if len(args) > 1 else kw['dims'])
    order = sconst(arg(args, kw, 3, 'order', const('C')))
    if xs is None or ds is None or len(xs) != len(ds) or len(args) > 2 or set(kw) - {'dims', 'order'} or order not in ('C', 'F'):
        return it.unk('ravel_multi_index')
    r = ZERO
    for x, d in (zip(xs, ds) if order == 'C' else list(zip(xs, ds))[::-1]):
        r = M.binop(it, st, 'Add', M.binop(it, st, 'Mult', r, d), x)
    return r


@n_('unravel_index')
def np_unravel(it, st, args, kw):
    ds = it.seq_parts(st, args[1] if len(args) > 1 else kw['shape'])
    order = sconst(arg(args, kw, 2, 'order', const('C')))
    if ds is None or order not in ('C', 'F') or it.is_arrlike(st, args[0]):
        return it.unk('unravel_index')
    r, out = tonum(args[0]), []
    for d in (ds[::-1] if order == 'C' else ds):
        out.append(mod(r, tonum(d)))
        r = M.binop(it, st, 'FloorDiv', r, tonum(d))
    return mk('tup', *(out[::-1] if order == 'C' else out))


@n_('repeat')
def np_repeat(it, st, args, kw):
    a = arr_of(it, st, args[0]) if it.is_arrlike(st, args[0]) or it.kind(st, args[0]) in ('list', 'tuple') else None
    k = args[1] if len(args) > 1 else kw['repeats']
    if a is None or len(args) > 2 or 'axis' in kw or it.is_arrlike(st, k) or it.kind(st, k) == 'list' or \
            any(len(arr_dims(l)) != 1 or not arr_guard_true(l) for l in leaves(a)):
        return it.unk('repeat')

    def one(p, q):
        v = fresh(mul(arr_dims(p)[0], q))
        return make_arr([v], (TRUE, vg.cell(p, vg.fdiv(v, q))), (arr_dtype(p),))
    return it.new_arr(st, lift('repeat', one, (a, tonum(k))))


@n_('tile')
def np_tile(it, st, args, kw):
    a = arr_of(it, st, args[0]) if it.is_arrlike(st, args[0]) or it.kind(st, args[0]) in ('list', 'tuple') else None
    k = args[1] if len(args) > 1 else kw['reps']
    if a is None or it.kind(st, k) in ('list', 'tuple') or it.is_arrlike(st, k) or \
            any(len(arr_dims(l)) != 1 or not arr_guard_true(l) for l in leaves(a)):
        return it.unk('tile')

    def one(p, q):
        v = fresh(mul(arr_dims(p)[0], q))
        return make_arr([v], (TRUE, vg.cell(p, mod(v, arr_dims(p)[0]))), (arr_dtype(p),))
    return it.new_arr(st, lift('tile', one, (a, tonum(k))))


@n_('insert')
def np_insert(it, st, args, kw):
    a = arr_of(it, st, args[0])
    if len(args) != 3 or kw or it.is_arrlike(st, args[1]) or it.is_arrlike(st, args[2]) or it.kind(st, args[1]) in ('list', 'tuple') or \
            it.kind(st, args[2]) in ('list', 'tuple') or any(len(arr_dims(l)) != 1 for l in leaves(a)):
        return it.unk('insert')
    r = it.new_list(st, as_seq(a))
    list_method(it, st, r, 'insert', [args[1], args[2]], {})
    x = arr_of(it, st, r)
    return it.new_arr(st, x)


@n_('roll')
def np_roll(it, st, args, kw):
    a = arr_of(it, st, args[0])
    k = tonum(args[1] if len(args) > 1 else kw['shift'])
    ax = arg(args, kw, 2, 'axis', NONE)
    if any(len(arr_dims(l)) > 2 for l in leaves(a)) or not all(arr_guard_true(l) for l in leaves(a)):
        return it.unk('roll')

    def one(p, q):
        d = arr_dims(p)
        vs = [fresh(x) for x in d]
        if len(d) == 1:
            return make_arr(vs, (TRUE, vg.cell(p, mod(sub(vs[0], q), d[0]))), (arr_dtype(p),))
        x = iconst(ax)
        if x is None:
            return mk('unk', 'roll', (p,))
        at = list(vs)
        at[x] = mod(sub(vs[x], q), d[x])
        return make_arr(vs, (TRUE, vg.cell(p, *at)), (arr_dtype(p),))
    return it.new_arr(st, lift('roll', one, (a, k)))


@n_('outer')
def np_outer(it, st, args, kw):
    x, y = arr_of(it, st, args[0]), arr_of(it, st, args[1])
    i, j = fresh(arr_dims(x)[0]), fresh(arr_dims(y)[0])
    e = mul(tonum(vg.cell(x, i)), tonum(vg.cell(y, j)))
    return it.new_arr(st, make_arr([i, j], (TRUE, e), (elem_dtype(e),)))


# ================================================================ pandas
@o('pandas.DataFrame')
def pd_frame(it, st, args, kw):
    data = arg(args, kw, 0, 'data')
    cols = arg(args, kw, 2, 'columns')
    dt = dtype_of(arg(args, kw, 3, 'dtype'))
    cs = None if is_none(cols) else it.freeze(st, it.seq(st, cols), -1)
    if is_none(data):
        if cs is None:
            return mkframe(it, st, NIL, ZERO)
        w = fresh(ZERO)
        return mkframe(it, st, seq_map(cs, lambda l: tup(l, vg.seq_to_arr1(NIL))), ZERO)
    data = it.simp(st, data)
    if data.op == 'ite':
        return it.each(st, data, lambda l, s: pd_frame(it, s, [l] + list(args[1:]), {k: x for k, x in kw.items() if k != 'data'}))
    k = it.kind(st, data)
    fin = (lambda a: arr_cast(a, dt)) if dt else (lambda a: a)
    if k == 'frame':
        r = M.same_cells(it, st, mkframe(it, st, *M.fparts(it, st, data)), data)
        if cs is not None:
            r = M.cols_pick(it, st, r, cs)
        return M.rows_map(it, st, r, fin) if dt else r
    if cs is not None and (k == 'dict' or k in ('list', 'tuple') and not opaque_seq(it, st, data) and it.seq_elem_kinds(st, it.seq(st, data)) == {'dict'}):
        # the named columns of a table of named columns, in that order
        f = pd_frame(it, st, [data], {x: y for x, y in kw.items() if x == 'dtype'})
        if it.kind(st, f) != 'frame':
            return f
        lab = M.labels_of(M.fparts(it, st, f)[0])
        if it.simp(st, seq_any(cs, lambda l: not_(index_of(lab, l)[0]))) is not FALSE:
            return it.unk('frame with missing columns')
        return M.cols_pick(it, st, f, cs)
    if k == 'dict':
        items = ditems(M.dict_val(it, st, data))
        if items.op == 'seq' and items.args and cs is None:
            x0 = vg._piece_at(items.args[0], ZERO)
            a0 = it.arr(st, pair_get(x0, 1)) if it.kind(st, pair_get(x0, 1)) in ('arr', 'ser', 'list', 'tuple') else None
            if a0 is not None and arr_dims(leaves(a0)[0]) is not None:
                n = arr_len0(leaves(a0)[0])
                return mkframe(it, st, seq_map(items, lambda p: tup(pair_get(p, 0), fin(M.as_column(it, st, pair_get(p, 1), n)))), n)
        return it.unk('frame of dict')
    if k == 'arr':
        a = it.arr(st, data)
        if not is_arr_t(a) or a.op == 'ite' or len(arr_dims(a)) != 2:
            return it.unk('frame of array')
        return frame_from2d(it, st, a, cs, fin)
    if k in ('list', 'tuple') and not opaque_seq(it, st, data):
        s = it.seq(st, data)
        if s is NIL:
            w = fresh(ZERO)
            return mkframe(it, st, seq_map(cs if cs is not None else NIL, lambda l: tup(l, vg.seq_to_arr1(NIL))), ZERO)
        kinds = it.seq_elem_kinds(st, s)
        if kinds == {'dict'} and cs is None:
            f = M.frame_of_records(it, st, s)
            if f is not None:
                return f
        if kinds <= {'list', 'tuple', 'arr'}:
            rows = seq_map(s, lambda x: mk('rowv', it.freeze(st, it.seq(st, x), -1)))
            n = slen(rows)
            r = fresh(n)
            row0 = it.simp(st, sat(rows, r))
            rl = leaves(row0)
            ms = {slen(x.args[0]) for x in rl if x.op == 'rowv'}
            if len(ms) != 1 or any(x.op != 'rowv' for x in rl):
                return it.unk('frame of rows')
            m = ms.pop()
            if r in m.deps:
                return it.unk('frame of ragged rows')
            labels = cs if cs is not None else it.range_seq(m)
            # columns by position
            out, off = [], ZERO
            lens = slen(labels)

            def column(i):
                rr = fresh(n)
                e = lift(('rowcell', i), lambda x: sat(x.args[0], i), (sat(rows, rr),))
                return fin(make_arr([rr], (TRUE, e), (elem_dtype(e),)))
            if all(x.args[0].op == 'seq' and all(p.op == 'el' for p in x.args[0].args) for x in rl) and labels.op == 'seq' and \
                    all(p.op == 'el' for p in labels.args):
                if len(labels.args) != len(rl[0].args[0].args):
                    it.raise_if(st, TRUE, 'ValueError')
                return mkframe(it, st, vg.lst(*[tup(p.args[0], column(num(i))) for i, p in enumerate(labels.args)]), n)
            pieces = []
            for p in labels.args:
                if p.op == 'el':
                    pieces.append(vg.lst(tup(p.args[0], column(off))))
                    off = add(off, ONE)
                else:
                    pn = vg._piece_len(p)
                    w = fresh(pn)
                    pieces.append(make_flat([w], (vg.lst(tup(vg._piece_at(p, w), column(add(off, w)))),)))
                    off = add(off, pn)
            it.event(st, 'frame-shape', want=lens, got=m)
            return mkframe(it, st, seq(*pieces), n)
        return it.unk('frame of list')
    if cs is not None:
        f = M.frame_of(it, st, data)
        c, n, idx = M.fparts(it, st, f)
        it.setf(st, f, 'cols', M.relabel(it, st, c, cs))
        return f
    return M.frame_of(it, st, data)


@o('pandas.DataFrame.from_dict', 'pandas.DataFrame.from_records')
def pd_from(it, st, args, kw):
    if len(args) != 1 or set(kw) - {'columns'}:
        return it.unk('frame from a table')
    return it.call_leaf(mk('ext', 'pandas.DataFrame'), list(args), kw, st)


def opaque_seq(it, st, v):
    if v.op in ('ref', 'tup', 'lst', 'seq', 'iter'):
        return False
    return True


def frame_from2d(it, st, a, cs, fin):
    n, m = arr_dims(a)
    labels = cs if cs is not None else it.range_seq(m)

    def column(i):
        rr = fresh(n)
        return fin(make_arr([rr], (arr_guard(a, rr, i), vg.cell(a, rr, i)), (arr_dtype(a),)))
    out, off = [], ZERO
    if labels.op != 'seq':
        return it.unk('frame columns')
    for p in labels.args:
        if p.op == 'el':
            out.append(vg.lst(tup(p.args[0], column(off))))
            off = add(off, ONE)
        else:
            if not (p.op == 'spl' or vg._unit(p.args[2][0])):
                return it.unk('frame columns')
            pn = vg._piece_len(p)
            w = fresh(pn)
            out.append(make_flat([w], (vg.lst(tup(vg._piece_at(p, w), column(add(off, w)))),)))
            off = add(off, pn)
    return mkframe(it, st, seq(*out) if out else NIL, n)


@o('pandas.concat')
def pd_concat(it, st, args, kw):
    return concat_frames(it, st, it.seq(st, arg(args, kw, 0, 'objs')), {k: x for k, x in kw.items() if k != 'objs'})


@o('pandas.Series')
def pd_series(it, st, args, kw):
    a = arr_of(it, st, arg(args, kw, 0, 'data'))
    if kw.get('index') is not None and not is_none(kw['index']):
        return M.ser(a, kw.get('name', NONE), it.arr(st, kw['index'])) if is_arr_t(a) and not isinstance(arg(args, kw, 0, 'data'), str) \
            and arg(args, kw, 0, 'data').op != 'ser' else it.unk('series')
    return M.ser(a, kw.get('name', NONE)) if is_arr_t(a) else it.unk('series')


@o('pandas.isna', 'pandas.isnull')
def pd_isna(it, st, args, kw):
    return np_fn1(M.isnan_term, 'bool')(it, st, args, {})


@o('pandas.read_json', 'pandas.read_csv')
def pd_read(it, st, args, kw):
    it.event(st, 'open', path=it.deep(st, args[0]), mode=const('r'))
    return M.frame_of(it, st, mk('opq', 'read', it.deep(st, args[0])))


# ================================================================ networkx
@o('networkx.DiGraph')
def nx_digraph(it, st, args, kw):
    g = M.new_graph(it, st)
    if args and not is_none(args[0]):
        if it.kind(st, args[0]) == 'graph':
            return it.alloc(st, 'graph', dict(st.heap[args[0]].f))
        M.graph_method(it, st, g, 'add_edges_from', [args[0]], {})
    return g


@o('networkx.get_node_attributes')
def nx_attrs(it, st, args, kw):
    return it.new_dict(st, st.heap[args[0]].f.get('a:' + (sconst(args[1]) or '?'), dct(NIL)))


@o('networkx.adj_matrix', 'networkx.adjacency_matrix', 'networkx.to_numpy_array', 'networkx.to_numpy_matrix', 'networkx.to_scipy_sparse_matrix')
def nx_adj(it, st, args, kw):
    g = args[0]
    nl = arg(args, kw, 1, 'nodelist')
    E = it.simp(st, st.heap[g].f['edges'])
    s = enum(st.heap[g].f['nodes']) if is_none(nl) else it.freeze(st, it.seq(st, nl), -1)
    n = slen(s)
    i, j = fresh(n), fresh(n)
    e = ite(smember(tup(sat(s, i), sat(s, j)), E), ONE, ZERO)
    return it.new_arr(st, make_arr([i, j], (TRUE, e), ('int',)))


@o('networkx.readwrite.json_graph.node_link_data', 'networkx.node_link_data')
def nx_nodelink(it, st, args, kw):
    if it.kind(st, args[0]) != 'graph':
        return it.unk('node-link data of another value')
    f = st.heap[args[0]].f
    if len(args) > 1 or kw or any(k not in ('nodes', 'edges', 'attrs') and not is_none(x) and it.simp(st, x) is not dct(NIL) for k, x in f.items()):
        return it.unk('node-link data with attributes')
    entry = lambda *kv: dct(seq(*[vg.lst(tup(const(k), x)) for k, x in kv]))
    n = seq_map(enum(it.simp(st, f['nodes'])), lambda x: entry(('id', x)))
    e = seq_map(enum(it.simp(st, f['edges'])), lambda x: entry(('source', pair_get(x, 0)), ('target', pair_get(x, 1))))
    d = entry(('directed', TRUE), ('multigraph', FALSE), ('graph', dct(NIL)), ('nodes', it.new_list(st, n)), ('links', it.new_list(st, e)))
    return it.new_dict(st, d)


@o('networkx.compose', 'networkx.create_empty_copy', 'networkx.complete_graph', 'networkx.from_edgelist', 'networkx.subgraph',
   'networkx.relabel_nodes', 'networkx.from_numpy_matrix', 'networkx.from_pandas_edgelist', 'networkx.spring_layout',
   'networkx.draw')
def nx_other(it, st, args, kw):
    return it.unk('networkx function')


# ================================================================ random draws
def seq_choice(it, st, v, kind='choice'):
    if it.is_arrlike(st, v):
        a = it.arr(st, v)
        s = as_seq(a) if a.op != 'ite' else vg._mapl(a, as_seq)
    else:
        s = it.seq(st, v)
    s = it.simp(st, s)
    n = slen(s)
    it.raise_if(st, not_(pos(n)), 'IndexError')
    s = it.simp(st, s)
    i = draw(it, st, kind, (it.freeze(st, s, -1),), 'int')
    LOWER[i] = 0
    return it.simp(st, choose(it, st, s, i))


def choose(it, st, s, i):
    if s.op == 'ite':
        return vg._mapl(s, lambda q: choose(it, st, q, i))
    if s.op == 'seq' and len(s.args) == 1:
        p = s.args[0]
        if p.op == 'spl' or (p.op == 'flat' and vg._unit(p.args[2][0])):
            x = vg._piece_at(p, i)
            if p.op == 'spl' and p.args[0].op == 'enum':
                c = smember(x, p.args[0].args[0])
                it.assume(st, c)
            return x
        if p.op == 'flat':
            bd = inst(p, [i])[0]
            if all(l is NIL or (l.op == 'seq' and len(l.args) == 1 and l.args[0].op == 'el') for l in leaves(bd)):
                c = vg._mapl(bd, lambda l: FALSE if l is NIL else TRUE)
                val = simplify_under(vg._mapl(bd, lambda l: NONE if l is NIL else l.args[0].args[0]), c)
                it.assume(st, c)
                return val
    return sat(s, i)


@o('random.choice', 'numpy.random.choice')
def rnd_choice(it, st, args, kw):
    v = arg(args, kw, 0, 'a')
    p = arg(args, kw, 3, 'p')
    if v is None or not is_none(arg(args, kw, 1, 'size')):
        return it.unk('sized choice', *[it.deep(st, a) for a in args])
    if not is_none(p):
        r = categorical(it, st, it.arr(st, p))
        if r is None:
            return it.unk('weighted choice', *[it.deep(st, a) for a in args])
        i = it.simp(st, vg._mapl(r[0], r[1]))
        if it.kind(st, v) == 'num':
            return i
        s = as_seq(it.arr(st, v)) if it.is_arrlike(st, v) else it.seq(st, v)
        return it.simp(st, sat(s, i))
    if it.kind(st, v) == 'num':
        v = _range(it, st, [v], {})
    return seq_choice(it, st, v)


@o('random.shuffle', 'numpy.random.shuffle')
def rnd_shuffle(it, st, args, kw):
    v = args[0]
    if v.op == 'ref' and st.heap[v].kind == 'list':
        s = it.seq(st, v)
        d = draw(it, st, 'shuffle', (it.freeze(st, s, -1),), None)
        it.setf(st, v, 'seq', mk('seq', mk('spl', mk('shuffled', it.freeze(st, s, -1), d))))
        return NONE
    if v.op == 'ref' and st.heap[v].kind == 'arr':
        a = it.arr(st, v)
        d = draw(it, st, 'shuffle', (a,), None)
        it.setf(st, v, 'a', seq_to_arr1(mk('seq', mk('spl', mk('shuffled', as_seq(a), d))), arr_dtype(a)))
        return NONE
    return it.unk('shuffle')


SORT_RULES['shuffled'] = lambda t: ('list', None, lambda L: slen(L.args[0]))


@o('random.sample')
def rnd_sample(it, st, args, kw):
    s = it.freeze(st, it.seq(st, args[0]), -1)
    k = tonum(arg(args, kw, 1, 'k'))
    d = draw(it, st, 'shuffle', (s,), None)
    it.raise_if(st, lt(slen(s), k), 'ValueError')
    return it.new_list(st, take(mk('seq', mk('spl', mk('shuffled', s, d))), k))


@o('numpy.random.permutation')
def rnd_perm(it, st, args, kw):
    v = args[0]
    s = it.freeze(st, it.seq(st, _range(it, st, [v], {}) if it.kind(st, v) == 'num' else v), -1)
    d = draw(it, st, 'shuffle', (s,), None)
    return it.new_arr(st, seq_to_arr1(mk('seq', mk('spl', mk('shuffled', s, d)))))


@o('random.randint')
def rnd_randint_std(it, st, args, kw):
    return draw(it, st, 'randint', (tonum(args[0]), add(tonum(args[1]), ONE)), 'int')


@o('numpy.random.randint')
def rnd_randint(it, st, args, kw):
    lo, hi = (ZERO, tonum(args[0])) if len(args) < 2 or is_none(args[1]) else (tonum(args[0]), tonum(args[1]))
    size = kw.get('size') or (args[2] if len(args) > 2 else None)
    return sized(it, st, 'randint', (lo, hi), size, 'int')


@o('random.randrange')
def rnd_randrange(it, st, args, kw):
    lo, hi = (ZERO, tonum(args[0])) if len(args) < 2 else (tonum(args[0]), tonum(args[1]))
    return draw(it, st, 'randint', (lo, hi), 'int')


def sized(it, st, kind, dargs, size, sort='num'):
    if is_none(size):
        return draw(it, st, kind, dargs, sort)
    d = full_dims(it, st, size)
    if d is None:
        return it.unk('sized draw')
    vs = [fresh(n) for n in d]
    k = draw(it, st, kind, dargs, sort, vs)
    return it.new_arr(st, make_arr(vs, (TRUE, k), (sort,)))


@o('random.random', 'numpy.random.random_sample', 'numpy.random.random', 'numpy.random.ranf')
def rnd_random(it, st, args, kw):
    return sized(it, st, 'unit', (), arg(args, kw, 0, 'size'))


@o('numpy.random.rand')
def rnd_rand(it, st, args, kw):
    return sized(it, st, 'unit', (), mk('tup', *args) if args else None)


@o('numpy.random.randn')
def rnd_randn(it, st, args, kw):
    return sized(it, st, 'stdnormal', (), mk('tup', *args) if args else None)


@o('numpy.random.standard_normal')
def rnd_standard_normal(it, st, args, kw):
    return sized(it, st, 'stdnormal', (), arg(args, kw, 0, 'size'))


@o('random.gauss', 'numpy.random.normal', 'random.normalvariate')
def rnd_normal(it, st, args, kw):
    mu = tonum(arg(args, kw, 0, 'loc', ZERO))
    sd = tonum(arg(args, kw, 1, 'scale', ONE))
    u = sized(it, st, 'stdnormal', (), arg(args, kw, 2, 'size'))
    if it.is_arrlike(st, u):
        return it.new_arr(st, emap1(lambda x: add(mu, mul(sd, x)), it.arr(st, u)))
    return add(mu, mul(sd, u))


@o('random.uniform', 'numpy.random.uniform')
def rnd_uniform(it, st, args, kw):
    lo = tonum(arg(args, kw, 0, 'low', ZERO))
    hi = tonum(arg(args, kw, 1, 'high', ONE))
    u = sized(it, st, 'unit', (), arg(args, kw, 2, 'size'))
    if it.is_arrlike(st, u):
        return it.new_arr(st, emap1(lambda x: add(lo, mul(sub(hi, lo), x)), it.arr(st, u)))
    return add(lo, mul(sub(hi, lo), u))


@o('numpy.random.exponential')
def rnd_exp(it, st, args, kw):
    sc = tonum(arg(args, kw, 0, 'scale', ONE))
    u = sized(it, st, 'stdexp', (), arg(args, kw, 1, 'size'))
    if it.is_arrlike(st, u):
        return it.new_arr(st, emap1(lambda x: mul(sc, x), it.arr(st, u)))
    return mul(sc, u)


@o('random.expovariate')
def rnd_expovariate(it, st, args, kw):
    return div(draw(it, st, 'stdexp', (), 'num'), tonum(arg(args, kw, 0, 'lambd', ONE)))


@o('numpy.random.standard_exponential')
def rnd_sexp(it, st, args, kw):
    return sized(it, st, 'stdexp', (), arg(args, kw, 0, 'size'))


@o('numpy.random.binomial')
def rnd_binomial(it, st, args, kw):
    return sized(it, st, 'binomial', (tonum(args[0]), tonum(args[1])), arg(args, kw, 2, 'size'), 'int')


def categorical(it, st, p):
    """for every case of p, the index of an outcome drawn with the listed probabilities; an outcome of
    probability zero is not drawn"""
    p = it.simp(st, p)
    for l in leaves(p):
        d = arr_dims(l)
        n = iconst(d[0]) if d is not None and len(d) == 1 and arr_guard_true(l) else None
        if n is None or not 0 < n <= 6:
            return None
    k = st.draws.get('categ', 0)
    where = tuple(it.loopvars)

    def pick(*xs):
        alive = [j for j, x in enumerate(xs) if x is not ZERO]
        if not alive:
            return mk('unk', 'outcome of probability zero')
        if len(alive) == 1:
            return num(alive[0])
        t = mk('draw', 'categ', num(k), tuple(xs), where)
        r = num(alive[-1])
        for j in reversed(alive[:-1]):
            r = ite(eq(t, num(j)), num(j), r)
        return r

    def one(l):
        cells = tuple(tonum(vg.cell(l, num(j))) for j in range(iconst(arr_dims(l)[0])))
        return lift(('categ', k, where), pick, cells)
    st.draws['categ'] = k + 1
    C.DRAW_SORT['categ'] = 'int'
    it.event(st, 'draw', draw='categ', args=[p], term=num(k))
    return p, one


@o('numpy.random.multinomial')
def rnd_multinomial(it, st, args, kw):
    p = it.arr(st, arg(args, kw, 1, 'pvals'))
    n = tonum(arg(args, kw, 0, 'n'))
    if n is ONE:
        size = arg(args, kw, 2, 'size')
        d = () if is_none(size) else full_dims(it, st, size)
        r = categorical(it, st, p) if d is not None and all(x is ONE for x in d) else None
        if r is not None:
            def onehot(l):
                ws = [fresh(x) for x in d]
                j = fresh(arr_dims(l)[0])
                return make_arr(ws + [j], (TRUE, ite(eq(r[1](l), j), ONE, ZERO)), ('int',))
            return it.new_arr(st, vg._mapl(r[0], onehot))
    size = arg(args, kw, 2, 'size')
    if not is_arr_t(p):
        return it.unk('multinomial')
    m = arr_dims(leaves(p)[0])[0]
    d = [] if is_none(size) else full_dims(it, st, size)
    vs = [fresh(x) for x in d] + [fresh(m)]
    t = draw(it, st, 'multinomial', (n, p), 'int', vs)
    return it.new_arr(st, make_arr(vs, (TRUE, t), ('int',)))


@o('random.seed', 'numpy.random.seed')
def rnd_seed(it, st, args, kw):
    it.event(st, 'seed', arg=it.deep(st, args[0]) if args else NONE)
    return NONE


@o('random.choices')
def rnd_choices(it, st, args, kw):
    return it.unk('choices')


@o('numpy.random.default_rng', 'numpy.random.RandomState', 'random.Random')
def rnd_gen(it, st, args, kw):
    return mk('rng', it.deep(st, args[0]) if args else NONE)


# ================================================================ other libraries
SP = {'scipy.special.loggamma': 'lgamma', 'scipy.special.gammaln': 'lgamma', 'math.lgamma': 'lgamma', 'math.log': 'log',
      'math.exp': 'exp', 'math.floor': 'floor', 'math.ceil': 'ceil'}


@o(*SP)
def sp_fn(it, st, args, kw):
    return it.unk('function')


for _k, _v in SP.items():
    OTHER[_k] = (lambda name: lambda it, st, args, kw: (
        np_fn1(lambda x: fn(name, tonum(x)))(it, st, args[:1], {}) if len(args) == 1 else
        div(fn(name, tonum(args[0])), fn(name, tonum(args[1])))))(_v)
OTHER['math.sqrt'] = lambda it, st, args, kw: sqrt(args[0])
OTHER['math.pow'] = lambda it, st, args, kw: power(tonum(args[0]), tonum(args[1]))
OTHER['math.isnan'] = lambda it, st, args, kw: M.isnan_term(args[0])
OTHER['math.prod'] = lambda it, st, args, kw: arr_result(it, st, a_prod(arr_of(it, st, args[0])))
OTHER['math.fabs'] = lambda it, st, args, kw: absv(args[0])
OTHER['math.trunc'] = lambda it, st, args, kw: cast(args[0], 'int')


def dist(name):
    def f(it, st, args, kw):
        ks = sorted(kw)
        a = [tonum(x) for x in args] + [tonum(kw[k]) for k in (('dfn', 'dfd') if 'dfn' in kw else ('df',) if 'df' in kw else ks)]
        if any(it.is_arrlike(st, x) for x in a):
            terms = [it.arr(st, x) if it.is_arrlike(st, x) else x for x in a]
            r = terms[0]
            acc = emap1(lambda x: tup(x), r, 'obj') if arr_dims(r) is not None else tup(r)
            for t in terms[1:]:
                acc = emap2(it, st, lambda p, q: vg._mapl(p, lambda l: mk('tup', *(l.args + (q,)))), acc, t, 'obj')
            return it.new_arr(st, emap1(lambda p: vg._mapl(p, lambda l: fn(name, *l.args)), acc, 'num'))
        return fn(name, *a)
    return f


def interval(name):
    def f(it, st, args, kw):
        args = list(args)
        c = tonum(args.pop(0)) if args else tonum(kw[[k for k in ('confidence', 'alpha') if k in kw][0]])
        kw = {k: v for k, v in kw.items() if k not in ('confidence', 'alpha')}
        tail = div(sub(ONE, c), num(2))
        return tup(dist(name + '.ppf')(it, st, [tail] + args, kw), dist(name + '.ppf')(it, st, [sub(ONE, tail)] + args, kw))
    return f


for _d in ('chi2', 'f', 'norm', 't'):
    OTHER['scipy.stats.%s.interval' % _d] = interval(_d)
    for _m in ('ppf', 'cdf', 'sf', 'isf', 'pdf'):
        OTHER['scipy.stats.%s.%s' % (_d, _m)] = dist('%s.%s' % (_d, _m))


@o('json.load')
def json_load(it, st, args, kw):
    return mk('opq', 'json', args[0])


@o('json.loads')
def json_loads(it, st, args, kw):
    x = it.deep(st, args[0])
    if x.op == 'tojson' and x.args[0].op == 'frame':
        f, kws = x.args[0], dict((k.args[0].args[1], k.args[1]) for k in x.args[1])
        digits = iconst(kws.pop('double_precision', num(10)))
        if kws == {'orient': const('records')} and digits is not None:
            # the keys of an object are strings
            rows = seq_map(M.frame_records(it, st, f), lambda d: lift('strkeys', lambda z: vg.dct(
                seq_map(ditems(z), lambda p: tup(lift('to_str', M.str_term, (pair_get(p, 0),)), pair_get(p, 1)))), (d,)))
            if digits < 10:
                # numbers are written with this many decimals
                rd = lambda q: lift(('rd', digits), lambda z: z if sort_of(z) in ('int', 'str') or is_int_const(z) else mk('roundn', z, num(digits)), (q,))
                rows = seq_map(rows, lambda d: lift(('rdd', digits), lambda z: vg.dct(seq_map(ditems(z), lambda p: tup(pair_get(p, 0), rd(pair_get(p, 1))))), (d,)))
            return it.new_list(st, rows)
    if x.op == 'strm' and x.args[0] == 'json':
        return it.thaw(st, x.args[1])
    return mk('loads', x)


def json_value(v):
    """keys of objects become strings and tuples lists"""
    if v.op == 'ite':
        return vg._mapl(v, json_value)
    if v.op in ('dct', 'dput', 'ddel'):
        key = lambda k: lift('to_str', M.str_term, (k,)) if sort_of(k) == 'int' or is_int_const(k) else k
        return vg.dct(seq_map(ditems(v), lambda p: tup(key(pair_get(p, 0)), json_value(pair_get(p, 1)))))
    if v.op == 'lst':
        return mk('lst', seq_map(v.args[0], json_value))
    if v.op in ('tup', 'tuple'):
        return mk('lst', seq_map(as_seq(v), json_value))
    return v


@o('json.dump')
def json_dump(it, st, args, kw):
    it.event(st, 'file-content', file=args[1], value=json_value(it.deep(st, args[0])))
    return NONE


@o('json.dumps')
def json_dumps(it, st, args, kw):
    return mk('strm', 'json', json_value(it.deep(st, args[0])), ())


@o('copy.deepcopy')
def copy_deep(it, st, args, kw):
    return it.each(st, args[0], lambda l, s: deepcopy(it, s, l))


@o('copy.copy')
def copy_shallow(it, st, args, kw):
    return it.each(st, args[0], lambda l, s: shallow(it, s, l))


@o('itertools.product')
def itp(it, st, args, kw):
    if 'repeat' in kw:
        k = iconst(kw['repeat'])
        if k is None:
            return it.unk('product repeat')
        args = list(args) * k
    if len(args) == 1 and args[0].op == 'star':
        s = it.freeze(st, args[0].args[0], -1)
        a = mesh_rows(s, 'ij', False)
        return mk('iter', seq_map(as_seq(a), lambda r: mk('lst', as_seq(r))))
    seqs = [it.seq(st, x) for x in args]

    def go(k, pre):
        if k == len(seqs):
            return vg.lst(tup(*pre))
        return seq_bind(seqs[k], lambda x: go(k + 1, pre + [x]))
    return mk('iter', go(0, []))


@o('itertools.permutations', 'itertools.combinations')
def itperm(it, st, args, kw):
    return it.unk('permutations')


def list_elems(s):
    """the elements of a list of known elements"""
    if s is NIL:
        return []
    if s.op == 'seq' and all(p.op == 'el' for p in s.args):
        return [p.args[0] for p in s.args]
    return None


def perms(ordered):
    def f(it, st, args, kw):
        s = it.seq(st, args[0])
        r = arg(args, kw, 1, 'r')
        k = iconst(r) if r is not None else None
        xs = list_elems(s)
        if xs is not None and r is not None and k is not None and len(xs) <= 6 and k <= 6:
            import itertools
            return mk('iter', vg.lst(*[tup(*c) for c in (itertools.permutations if ordered else itertools.combinations)(xs, k)]))
        if s.op == 'seq' and (len(s.args) == 1) and (s.args[0].op == 'spl' or s.args[0].op == 'flat' and vg._unit(s.args[0].args[2][0])) \
                and k == 2:
            p = s.args[0]
            n = vg._piece_len(p)
            i, j = fresh(n), fresh(n)
            c = ne(i, j) if ordered else lt(i, j)
            x = make_flat([j], (ite(c, vg.lst(tup(vg._piece_at(p, i), vg._piece_at(p, j))), NIL),))
            return mk('iter', make_flat([i], (x,)))
        t = mk('combos' if not ordered else 'perms', it.freeze(st, s, -1), tonum(r) if r is not None else NONE)
        return mk('iter', mk('seq', mk('spl', t)))
    return f


OTHER['itertools.permutations'], OTHER['itertools.combinations'] = perms(True), perms(False)
SORT_RULES['combos'] = SORT_RULES['perms'] = lambda t: ('list', ('list', None, None), None)


@o('itertools.chain')
def itchain(it, st, args, kw):
    if len(args) == 1 and args[0].op == 'star':
        return mk('iter', seq_bind(it.freeze(st, args[0].args[0], -1), lambda e: as_seq(it.seq(st, e))))
    return mk('iter', seq(*[it.seq(st, x) for x in args]) if args else NIL)


@o('itertools.chain.from_iterable')
def itchainf(it, st, args, kw):
    s = it.freeze(st, it.seq(st, args[0]), -1)
    return mk('iter', seq_bind(s, lambda e: as_seq(it.seq(st, e))))


@o('itertools.repeat')
def itrepeat(it, st, args, kw):
    if len(args) > 1 or kw:
        v = fresh(tonum(args[1] if len(args) > 1 else kw['times']))
        return mk('iter', make_flat([v], (vg.lst(args[0]),)))
    return mk('repeat', args[0])


@o('itertools.count')
def itcount(it, st, args, kw):
    return it.unk('infinite iterator')


@o('itertools.islice')
def itslice(it, st, args, kw):
    s = it.seq(st, args[0])
    if len(args) == 2:
        return mk('iter', take(s, tonum(args[1])))
    return mk('iter', M.seq_slice(s, *[None if is_none(x) else tonum(x) for x in args[1:]]))


@o('itertools.starmap')
def itstarmap(it, st, args, kw):
    def f(q, e, out):
        append(it, q, out, it.call(args[0], it.seq_parts(q, e), {}, q))
    return build(it, st, args[1], f)


@o('functools.partial')
def ft_partial(it, st, args, kw):
    if kw:
        k2 = dict(kw)
        from .interp import Interp
        nm = 'partial%d' % len(it.pyfns)
        f0, a0 = args[0], list(args[1:])
        it.pyfns[nm] = lambda it_, st_, a, k: it_.call(f0, a0 + list(a), dict(k2, **k), st_)
        return mk('pyfn', nm)
    return mk('partial', args[0], tuple(args[1:]))


@o('functools.reduce')
def ft_reduce(it, st, args, kw):
    acc = it.new_list(st, vg.lst(args[2])) if len(args) > 2 else None
    if acc is None:
        return it.unk('reduce')
    cell = it.alloc(st, 'misc', {'x': args[2]})

    def f(q, e, out):
        it.setf(q, cell, 'x', it.call(args[0], [q.heap[cell].f['x'], e], {}, q))
    build(it, st, args[1], f)
    return st.heap[cell].f['x']


def queue_cell(it, st, kind, most, items=NIL, **more):
    f = {'seq': items, 'as': const(kind)}
    f.update(more)
    if most is not None and most is not NONE and iconst(most) != 0:
        f['max'] = most
    return it.alloc(st, 'queue', f)


def maxsize(args, kw):
    return args[0] if args else kw.get('maxsize')


@o('queue.Queue', 'queue.SimpleQueue')
def q_new(it, st, args, kw):
    return queue_cell(it, st, 'queue', maxsize(args, kw))


@o('multiprocessing.Queue', 'multiprocessing.SimpleQueue', 'multiprocessing.JoinableQueue')
def mpqueue(it, st, args, kw):
    return queue_cell(it, st, 'queue', maxsize(args, kw), managed=TRUE)


@o('queue.LifoQueue')
def lifo_new(it, st, args, kw):
    return queue_cell(it, st, 'lifo', maxsize(args, kw))


@o('collections.deque')
def c_deque(it, st, args, kw):
    most = args[1] if len(args) > 1 else kw.get('maxlen', NONE)
    src = args[0] if args else kw.get('iterable')
    if most is NONE:
        return queue_cell(it, st, 'deque', None, it.seq(st, src) if src is not None else NIL)
    r = it.alloc(st, 'queue', {'seq': NIL, 'as': const('deque'), 'max': most})
    if src is not None:
        build_into(it, st, src, lambda q, e: list_method(it, q, r, 'append', [e], {}))
    return r


def build_into(it, st, src, f):
    build(it, st, src, lambda q, e, out: f(q, e))


@o('collections.OrderedDict')
def c_odict(it, st, args, kw):
    return _dict(it, st, args, kw)


@o('collections.defaultdict')
def c_ddict(it, st, args, kw):
    r = _dict(it, st, args[1:], kw)
    if r.op != 'ref':
        return it.unk('defaultdict')
    if args and args[0] is not NONE:
        it.setf(st, r, 'default', args[0])
    return r


@o('collections.Counter')
def c_counter(it, st, args, kw):
    if kw or args and it.kind(st, args[0]) == 'dict':
        return it.unk('Counter')
    r = it.new_dict(st, dct(NIL))
    it.setf(st, r, 'zero', TRUE)

    def one(q, e):
        M.setitem(it, q, r, e, add(tonum(M.getitem(it, q, r, e)), ONE))
    if args:
        build_into(it, st, args[0], one)
    return r


@o('operator.itemgetter')
def op_item(it, st, args, kw):
    nm = 'itemgetter%d' % len(it.pyfns)
    ix = args[0]
    it.pyfns[nm] = lambda it_, st_, a, k: M.getitem(it_, st_, a[0], ix)
    return mk('pyfn', nm)


@o('re.findall')
def re_findall(it, st, args, kw):
    p, x = it.simp(st, args[0]), it.simp(st, args[1])
    if all(v.op == 'c' and v.args[0] == 's' for v in (p, x)) and len(args) == 2 and not kw:
        import re
        r = re.findall(p.args[1], x.args[1])
        return it.new_list(st, vg.lst(*[tup(*map(const, v)) if isinstance(v, tuple) else const(v) for v in r]))
    return mk('findall', p, it.deep(st, x))


SORT_RULES['findall'] = lambda t: ('list', 'str')


def re_concrete(it, st, args, kw):
    xs = [it.simp(st, a) for a in args]
    if kw or any(sconst(x) is None for x in xs):
        return None
    return [sconst(x) for x in xs]


@o('re.escape')
def re_escape(it, st, args, kw):
    import re
    xs = re_concrete(it, st, args, kw)
    return const(re.escape(xs[0])) if xs else it.unk('regular expression')


def re_search_(name):
    def f(it, st, args, kw):
        import re
        if any(it.simp(st, a).op == 'ite' for a in args[:2]):
            return it.each(st, it.simp(st, args[1]), lambda l, q: f(it, q, [args[0], l], kw))
        xs = re_concrete(it, st, args, kw)
        if xs is None or len(xs) != 2:
            return it.unk('regular expression')
        m = getattr(re, name)(*xs)
        if m is None:
            return NONE
        return mk('rematch', tuple(const(g) if g is not None else NONE for g in (m.group(0),) + m.groups()),
                  tuple(sorted(m.re.groupindex.items())))
    return f


for _nm in ('search', 'match', 'fullmatch'):
    OTHER['re.' + _nm] = re_search_(_nm)


@o('re.split')
def re_split(it, st, args, kw):
    import re
    xs = re_concrete(it, st, args, kw)
    if xs is None or len(xs) != 2:
        return it.unk('regular expression')
    return it.new_list(st, vg.lst(*[const(x) if x is not None else NONE for x in re.split(*xs)]))


@o('re.sub')
def re_sub(it, st, args, kw):
    import re
    xs = re_concrete(it, st, args, kw)
    return const(re.sub(*xs)) if xs is not None and len(xs) == 3 else it.unk('regular expression')


@o('re.compile')
def re_compile(it, st, args, kw):
    return mk('regex', args[0])


@o('concurrent.futures.ProcessPoolExecutor', 'multiprocessing.Pool', 'multiprocessing.pool.Pool')
def pool_new(it, st, args, kw, shared=FALSE):
    n = kw.get('processes') or arg(args, kw, 0, 'max_workers')
    if is_none(n):
        n = mp_cpu(it, st, [], {})
    it.event(st, 'pool', workers=n, shared=shared)
    return it.alloc(st, 'pool', {'n': n, 'shared': shared})


@o('concurrent.futures.ThreadPoolExecutor', 'multiprocessing.pool.ThreadPool', 'multiprocessing.dummy.Pool')
def tpool_new(it, st, args, kw):
    return pool_new(it, st, args, kw, TRUE)


@o('multiprocessing.cpu_count', 'os.cpu_count')
def mp_cpu(it, st, args, kw):
    t = sym('cpu_count', 'int')
    LOWER[t] = 1
    return t


@o('concurrent.futures.as_completed')
def fut_done(it, st, args, kw):
    return args[0]


# Schedules of worker processes. Only objects of a manager (and process queues) are shared, so a schedule matters at the
# operations on them: None: every process runs when it is started; 'late': every process runs when it is waited for, and
# the ones nobody waits for have not ended; ('preempt', p): the second process runs as a whole inside the first one, just
# before its p-th change of a shared object.
def schedule_start(it, st, v):
    if st.heap[v].f['shared'] is TRUE or it.schedule is None:
        return run_process(it, st, v)
    if it.schedule == 'late':
        it.setf(st, v, 'waiting', TRUE)
        return NONE
    if it.started == 0:
        it.started = 1
        it.setf(st, v, 'waiting', TRUE)
        it.first = v
        return NONE
    if it.started == 1:
        it.started = 2
        first = it.first
        it.setf(st, first, 'waiting', FALSE)
        left = [it.schedule[1]]

        def hook(q):
            left[0] -= 1
            if left[0] == 0:
                it.preempt = None
                it.preempted += 1
                run_process(it, st, v, q)
        it.preempt = hook
        run_process(it, st, first)
        it.preempt = None
        if left[0] > 0:
            run_process(it, st, v)
        return NONE
    return run_process(it, st, v)


def pending(st, v):
    return st.heap[v].f.get('waiting') is TRUE


def wait_for(it, st, v):
    if pending(st, v):
        it.setf(st, v, 'waiting', FALSE)
        run_process(it, st, v)


def share(src, dst):
    for r in src.heap:
        if r not in dst.heap or src.heap[r].f.get('managed') is TRUE:
            dst.heap[r] = src.heap[r]
    dst.cond = src.cond


def run_process(it, st, v, inside=None):
    """the memory of the parent is st; the shared objects are those of the running process, if there is one"""
    c = st.heap[v]
    args_ = list(it.seq_parts(st, c.f['args']))
    kw_ = M.dict_val(it, st, c.f['kwargs']) if not is_none(c.f['kwargs']) else None
    kws = {}
    if kw_ is not None:
        for p in as_seq(ditems(kw_)).args:
            if p.op != 'el' or sconst(pair_get(p.args[0], 0)) is None:
                return it.unk('process arguments')
            kws[sconst(pair_get(p.args[0], 0))] = pair_get(p.args[0], 1)
    if c.f['shared'] is TRUE:
        it.call(c.f['target'], args_, kws, st)
        return NONE
    # the child works on a copy of the memory; only what a manager holds is shared
    s = st.fork()
    if inside is not None:
        share(inside, s)
    s.draws['process'] = s.draws.get('process', 0) + 1
    it.call(c.f['target'], args_, kws, s)
    share(s, st if inside is None else inside)
    it.event(st, 'process-end')
    return NONE


def shared_change(it, st, ref):
    if it.preempt is not None and ref.op == 'ref' and st.heap[ref].f.get('managed') is TRUE:
        it.preempt(st)


@o('multiprocessing.Manager')
def mp_manager(it, st, args, kw):
    return it.alloc(st, 'misc', {})


def mp_process(it, st, args, kw, shared=FALSE):
    return it.alloc(st, 'process', {'target': arg(args, kw, 1, 'target', NONE), 'args': arg(args, kw, 3, 'args', mk('tup')),
                                    'kwargs': arg(args, kw, 4, 'kwargs', NONE), 'started': FALSE, 'shared': shared})


@o('multiprocessing.Process')
def mp_proc(it, st, args, kw):
    return mp_process(it, st, args, kw)


@o('threading.Thread')
def mp_thread(it, st, args, kw):
    return mp_process(it, st, args, kw, TRUE)


@o('multiprocessing.get_context', 'multiprocessing.set_start_method', 'multiprocessing.freeze_support')
def mp_ctx(it, st, args, kw):
    return mk('ext', 'multiprocessing')


FILE_EFFECTS = {'os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.mkdir', 'os.makedirs', 'os.rmdir', 'os.removedirs', 'os.chmod',
                'os.truncate', 'os.symlink', 'os.link', 'os.open', 'shutil.rmtree', 'shutil.move', 'shutil.copy', 'shutil.copyfile',
                'shutil.copy2', 'shutil.copytree', 'os.system', 'os.popen', 'subprocess.run', 'subprocess.call', 'subprocess.Popen',
                'subprocess.check_call', 'subprocess.check_output', 'pickle.dump', 'numpy.save', 'numpy.savetxt', 'numpy.savez',
                'tempfile.mkstemp', 'tempfile.mkdtemp', 'tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile', 'joblib.dump',
                'matplotlib.pyplot.savefig', 'numpy.ndarray.tofile', 'os.chdir', 'os.utime', 'os.write'}

PASS = ('tqdm', 'time.', 'logging', 'warnings', 'typing', 'abc', 'matplotlib', 'gc.', 'sys.', 'os.path', 'pathlib', 'datetime', 'os.getcwd',
        'os.getenv', 'os.environ', 'os.getpid', 'os.sched_getaffinity', 'os.listdir', 'glob.', 'platform.', 'uuid.', 'hashlib.', 'math.',
        'functools.lru_cache', 'functools.wraps', 'operator.', 'networkx.draw', 'networkx.spring_layout', 'inspect.', 'contextlib.', 'threading')


def call_ext(it, st, dotted, args, kwargs):
    it.calls_seen[dotted] = it.calls_seen.get(dotted, 0) + 1
    if dotted in it.stubs:
        r = it.stubs[dotted](it, st, args, kwargs)
        if r is not NotImplemented:
            return r
    if dotted.startswith('builtins.'):
        name = dotted[9:]
        f = BUILTIN.get(name)
        if f is not None:
            return f(it, st, list(args), dict(kwargs))
        from .interp import EXC_PARENTS
        if name in EXC_PARENTS or name.endswith(('Error', 'Exception', 'Warning')):
            return exc_term(name, *[it.deep(st, a) for a in args])
        if '.' in name:
            t, m = name.split('.', 1)
            if t in ('list', 'dict', 'set', 'str', 'tuple') and args:
                return call_method(it, st, args[0], m, args[1:], kwargs)
        if name.split('.')[0] not in dir(__import__('builtins')):
            it.raise_if(st, TRUE, 'NameError')
        return it.unk('builtin ' + name, *args)
    if dotted.startswith(('matplotlib.pyplot.', 'networkx.draw')):
        it.event(st, 'plot', name=dotted, given=sorted(kwargs))
    if dotted in FILE_EFFECTS:
        it.event(st, 'file-effect', name=dotted, args=[it.deep(st, a) for a in args])
        return mk('opq', dotted)
    f = OTHER.get(dotted)
    if f is None and dotted.startswith('numpy.'):
        f = NUMPY.get(dotted[6:])
    if dotted == 'time.sleep' and it.schedule == 'late':
        for r in [r for r in st.heap if pending(st, r)][:1]:
            wait_for(it, st, r)
    if f is not None and dotted.startswith('networkx.') and args:
        g = it.simp(st, args[0])
        if g.op == 'ite' and any(l.op == 'ref' for l in leaves(g)):
            # one of several graphs
            rest = list(args[1:])
            return it.branch(st, batom(g.args[0]), lambda q: call_ext(it, q, dotted, [g.args[1]] + rest, kwargs),
                             lambda q: call_ext(it, q, dotted, [g.args[2]] + rest, kwargs))
        args = [g] + list(args[1:])
    if f is not None:
        return f(it, st, list(args), dict(kwargs))
    if dotted.startswith('tqdm'):
        if args:
            return args[0]
        return mk('opq', 'tqdm')
    if dotted.startswith(PASS) or dotted.startswith('networkx.draw'):
        return mk('opq', dotted, tuple(it.deep(st, a) for a in args))
    return it.unk('call of ' + dotted, *args)
