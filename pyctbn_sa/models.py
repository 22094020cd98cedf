"""Models of the library calls the analysed program makes (builtins, numpy,
pandas, networkx, random, json, ...): each maps value graph terms to terms."""
from .vg import *
from . import vg
from .interp import Dead, State, merge, exc_term, is_c, UNB, Flows

DRAWS = {}


# ================================================================ small helpers
def sconst(t):
    return t.args[1] if t.op == 'c' and t.args[0] == 's' else None


def iconst(t):
    if t.op == 'n' and t.args[0].denominator == 1:
        return int(t.args[0])
    if t is TRUE:
        return 1
    if t is FALSE:
        return 0
    return None


def tonum(x):
    """numeric value of a scalar (booleans count as 0/1)"""
    if x is TRUE:
        return ONE
    if x is FALSE:
        return ZERO
    if x.op == 'ite':
        return vg._mapl(x, lambda l: ONE if l is TRUE else ZERO if l is FALSE else l)
    return x


def is_boolean(x):
    return all(l is TRUE or l is FALSE for l in leaves(x)) or sort_of(x) == 'bool'


def arg(args, kwargs, k, name, default=None):
    if k is not None and k < len(args):
        return args[k]
    if name in kwargs:
        return kwargs[name]
    return default


def is_none(x):
    return x is None or x is NONE


def is_ref(st, v, *kinds):
    return v.op == 'ref' and st.heap[v].kind in kinds


def bool_of(it, st, t):
    return it.simp(st, it.truth(st, t))


def radix(ix, dims):
    """row-major flat index"""
    r = ZERO
    for i, d in zip(ix, dims):
        r = add(mul(r, d), i)
    return r


def unradix(flat, dims):
    out = []
    rest = flat
    for k, d in enumerate(reversed(dims)):
        if k == len(dims) - 1:
            out.append(rest)
        else:
            out.append(mod(rest, d))
            rest = fdiv(rest, d)
    return tuple(reversed(out))


def dims_of(a):
    return arr_dims(a)


def shape_of(a):
    """visible shape (counts the selected positions of a guarded array)"""
    ds = list(arr_dims(a))
    if a.op == 'arr':
        vs, (g, b) = open_binder(a)
        if g is not TRUE:
            for k, v in enumerate(vs):
                others = frozenset(vs) - {v}
                if v in g.deps and not (g.deps & others):
                    ds[k] = make_sum([v], (ite(g, ONE, ZERO),))
                    return tuple(ds)
            return (mk('shape', a, num(0)),) + tuple(mk('shape', a, num(k)) for k in range(1, len(ds))) \
                if False else tuple(ds)
    return tuple(ds)


def rank_of(v, g):
    """number of selected positions before v"""
    w = fresh(v)
    return make_sum([w], (ite(subst(g, {v: w}), ONE, ZERO),))


# ================================================================ dtypes
def dtype_of(t):
    """dtype descriptor of a dtype argument"""
    if t is None or t is NONE:
        return None
    if t.op == 'c' and t.args[0] == 's':
        n = t.args[1]
    elif t.op == 'ext':
        n = t.args[0].split('.')[-1]
    elif t.op == 'dtype':
        return t.args[0]
    else:
        return 'any'
    n = n.lower().lstrip('<>=|')
    if n in ('int', 'int64', 'int32', 'int_', 'i4', 'i8', 'intp', 'longlong', 'uint64', 'uint32', 'integer'):
        return 'int'
    if n in ('float', 'float64', 'double', 'f8', 'float_', 'longdouble', 'float128'):
        return 'num'
    if n in ('bool', 'bool_', 'bool8'):
        return 'bool'
    if n in ('object', 'object_', 'o'):
        return 'obj'
    if n in ('str', 'str_', 'u', 'unicode_'):
        return 'str'
    if n in ('int8', 'i1', 'byte'):
        return 'wrap8'
    if n in ('uint8', 'u1', 'ubyte'):
        return 'wrapu8'
    if n in ('int16', 'i2', 'short'):
        return 'wrap16'
    if n in ('uint16', 'u2'):
        return 'wrapu16'
    if n in ('float32', 'float16', 'f4', 'f2', 'single', 'half'):
        return n if n.startswith('float') else 'float32'
    return 'any'


def _cast(x, dt):
    if dt is None or dt == 'obj' or dt == 'any':
        return x
    if dt == 'int':
        if x.op == 'c' and x.args[0] == 's':
            try:
                return num(int(x.args[1]))
            except ValueError:
                return mk('unk', 'int of text')
        if x is NAN or x is INF:
            return mk('unk', 'integer from nan')
        if sort_of(x) == 'str' or x.op == 'scat':
            return mk('parseint', x)
        return vg._toint(x)
    if dt == 'num':
        if x is TRUE or x is FALSE:
            return tonum(x)
        if x is NONE:
            return NAN
        if sort_of(x) == 'str':
            return mk('parsefloat', x)
        return x
    if dt == 'bool':
        return vg._truth(x)
    if dt == 'str':
        return str_term(x)
    if dt.startswith('wrap'):
        x = vg._toint(x)
        n = iconst(x)
        return mk('wrap', dt, x) if n is None or not -128 <= n <= 127 else x
    if dt.startswith('float'):
        n = iconst(tonum(x))
        return mk('wrap', dt, x) if n is None or abs(n) > 1000 else tonum(x)
    return x


def cast(x, dt):
    return lift(('cast', dt), lambda q: _cast(q, dt), (x,))


SORT_RULES['wrap'] = lambda t: 'num' if t.args[0].startswith('float') else 'int'
SORT_RULES['parseint'] = lambda t: 'int'
SORT_RULES['parsefloat'] = lambda t: 'num'
REBUILD['wrap'] = lambda dt, x: cast(x, dt)
REBUILD['parseint'] = lambda x: cast(x, 'int')
REBUILD['parsefloat'] = lambda x: cast(x, 'num')


def arr_cast(a, dt):
    if dt is None or dt == 'any' or arr_dtype(a) == dt:
        return a

    def one(x):
        vs = [fresh(d) for d in arr_dims(x)]
        return make_arr(vs, (arr_guard(x, *vs), cast(vg.cell(x, *vs), dt)), (dt,))
    return vg._mapl(a, one)


# ================================================================ strings
def str_term(x):
    if x.op == 'c':
        if x.args[0] == 's':
            return x
        return mk('c', 's', {TRUE: 'True', FALSE: 'False', NONE: 'None'}.get(x, x.args[1] if isinstance(x.args[1], str) else '?'))
    if x.op == 'n' and x.args[0].denominator == 1:
        return const(str(int(x.args[0])))
    if sort_of(x) == 'str' or x.op == 'scat':
        return x
    return mk('str', x)


SORT_RULES['str'] = lambda t: 'str'
SORT_RULES['scat'] = lambda t: 'str'
SORT_RULES['numchar'] = lambda t: 'str'


def to_str(it, st, x):
    x = it.deep(st, x)
    return lift('to_str', str_term, (x,))


REBUILD['str'] = lambda x: lift('to_str', str_term, (x,))


def str_seq(t):
    if t.op == 'scat':
        return t.args[0]
    if is_c(t) and t.args[1] == '':
        return NIL
    return vg.lst(t)


def _scat(*parts):
    out = []
    for p in parts:
        s = str_seq(p)
        for q in s.args:
            if q.op == 'el' and is_c(q.args[0]):
                if q.args[0].args[1] == '':
                    continue
                if out and out[-1].op == 'el' and is_c(out[-1].args[0]):
                    out[-1] = el(const(out[-1].args[0].args[1] + q.args[0].args[1]))
                    continue
            if q.op == 'el' and q.args[0].op == 'scat':
                out.extend(q.args[0].args[0].args)
                continue
            out.append(q)
    if not out:
        return const('')
    if len(out) == 1 and out[0].op == 'el':
        return out[0].args[0]
    return mk('scat', mk('seq', *out))


def scat(*parts):
    return lift('scat', _scat, tuple(parts))


def scat_seq(s):
    """concatenation of the strings of a sequence"""
    return vg._mapl(s, lambda q: mk_scat(q))


def mk_scat(s):
    # flatten str elements inside flats
    return _scat(mk('scat', s)) if s.args else const('')


REBUILD['scat'] = lambda s: scat_seq(s if s.op == 'ite' else s)


def _eq_str(a, b):
    """equality of concatenations"""
    if a.op == 'scat' or b.op == 'scat':
        sa, sb = list(str_seq(a).args), list(str_seq(b).args)
        if any(p.op != 'el' for p in sa + sb):
            return None
        if is_numeric(a) or is_numeric(b) or a is NONE or b is NONE:
            return FALSE
        # strip equal ends
        while sa and sb and sa[0] is sb[0]:
            sa.pop(0), sb.pop(0)
        while sa and sb and sa[-1] is sb[-1]:
            sa.pop(), sb.pop()
        if not sa and not sb:
            return TRUE
        if not sa or not sb:
            rest = sa or sb
            if any(is_c(p.args[0]) and p.args[0].args[1] for p in rest):
                return FALSE
            return None
        if len(str_seq(a).args) == len(sa) and len(str_seq(b).args) == len(sb):
            return None
        x, y = _scat(mk('scat', mk('seq', *sa))), _scat(mk('scat', mk('seq', *sb)))
        return eq(x, y)
    return None


EQ_RULES.append(_eq_str)


# ================================================================ views
class View(object):
    """view of an array: forward map of indexes and its inverse"""

    def __init__(self, dims, fwd, inv):
        self.dims, self.fwd, self.inv = tuple(dims), fwd, inv

    def read(self, a):
        if a.op == 'ite':
            return vg._mapl(a, self.read)
        vs = [fresh(d) for d in self.dims]
        ix = self.fwd(tuple(vs))
        return make_arr(vs, (arr_guard(a, *ix), vg.cell(a, *ix)), (arr_dtype(a),))


def RowView(a, ix):
    k = len(ix)
    ds = arr_dims(a)[k:]

    def inv(bx):
        c = TRUE
        for p, q in zip(bx[:k], ix):
            c = and_(c, eq(p, q))
        return c, tuple(bx[k:])
    return View(ds, lambda vs: tuple(ix) + tuple(vs), inv)


def slice_view(ds, spec):
    """spec: per base dimension ('int', i) | ('sl', start, len, step) | ('new',)"""
    out = [s[2] if s[0] == 'sl' else ONE for s in spec if s[0] != 'int']

    def fwd(vs):
        r, k = [], 0
        for s in spec:
            if s[0] == 'int':
                r.append(s[1])
            elif s[0] == 'new':
                k += 1
            else:
                r.append(add(s[1], mul(s[3], vs[k])))
                k += 1
        return tuple(r)

    def inv(bx):
        c, r, k = TRUE, [], 0
        for s in spec:
            if s[0] == 'new':
                r.append(ZERO)
                continue
            x = bx[k]
            k += 1
            if s[0] == 'int':
                c = and_(c, eq(x, s[1]))
            else:
                d = sub(x, s[1])
                st_ = iconst(s[3])
                if st_ == 1:
                    y = d
                elif st_ == -1:
                    y = neg(d)
                else:
                    y = fdiv(d, s[3])
                    c = and_(c, eq(mod(d, s[3]), ZERO))
                c = and_(c, vg.in_range(y, s[2]))
                r.append(y)
        return c, tuple(r)
    return View(out, fwd, inv)


def perm_view(ds, perm):
    return View([ds[p] for p in perm],
                lambda vs: tuple(vs[perm.index(k)] for k in range(len(perm))),
                lambda bx: (TRUE, tuple(bx[p] for p in perm)))


def reshape_view(ds, nds):
    ds, nds = tuple(ds), tuple(nds)
    # keep equal leading / trailing dimensions
    lead = 0
    while lead < len(ds) and lead < len(nds) and ds[lead] is nds[lead]:
        lead += 1
    d2, n2 = ds[lead:], nds[lead:]

    def conv(vs, a, b):
        if not a and not b:
            return tuple(vs)
        r = radix(vs[lead:], a)
        return tuple(vs[:lead]) + (unradix(r, b) if b else ())
    return View(nds, lambda vs: conv(vs, n2, d2), lambda bx: (TRUE, conv(bx, d2, n2)))


def make_view(it, st, ref, vm):
    return it.alloc(st, 'view', {}, None, (ref, vm))


def array_ref(it, st, v):
    return v.op == 'ref' and st.heap[v].kind in ('arr', 'view')


def view_or_copy(it, st, v, vm):
    if array_ref(it, st, v):
        return make_view(it, st, v, vm)
    return it.new_arr(st, vm.read(it.arr(st, v)))


def store(it, st, ref, cond, val):
    """ref[ix] := val(ix, old) where cond(ix)"""
    c = st.heap[ref]
    if c.kind == 'view':
        base, vm = c.view

        def cond2(bx):
            g, ix = vm.inv(bx)
            return and_(g, cond(ix)) if g is not FALSE else FALSE
        return store(it, st, base, cond2, lambda bx, old: val(vm.inv(bx)[1], old))
    a = it.arr(st, ref)
    if c.kind == 'arr':
        if c.view is not None:
            frame_mutated(it, st, c.view[1], 'shared cells')
        field = 'a'
    else:
        it.unk('store into ' + c.kind)
        return

    def one(x):
        vs = tuple(fresh(d) for d in arr_dims(x))
        old = vg.cell(x, *vs)
        dt = arr_dtype(x)
        cc = cond(vs)
        new = cast(simplify_under(val(vs, old), cc), dt) if cc is not FALSE else old
        if dt == 'num':
            new = tonum(new)
        e = ite(cc, new, old)
        d2 = dt
        if dt not in ('int', 'num', 'bool'):
            d2 = dt
        return make_arr(vs, (arr_guard(x, *vs), e), (d2,))
    it.setf(st, ref, field, vg._mapl(a, one))


# ================================================================ broadcasting
def as_array_term(it, st, v):
    """(array term or None, scalar)"""
    k = it.kind(st, v)
    if k in ('arr', 'ser', 'list', 'tuple', 'frame'):
        return it.arr(st, v)
    return None


def align(a, b):
    """common dims for elementwise operation: (vs, fa, fb, guard)"""
    da, db = arr_dims(a), arr_dims(b)
    n = max(len(da), len(db))
    pa = (ONE,) * (n - len(da)) + tuple(da)
    pb = (ONE,) * (n - len(db)) + tuple(db)
    vs, ia, ib = [], [], []
    for x, y in zip(pa, pb):
        if x is ONE and y is not ONE:
            v = fresh(y)
            ia.append(ZERO)
            ib.append(v)
        elif y is ONE and x is not ONE:
            v = fresh(x)
            ia.append(v)
            ib.append(ZERO)
        else:
            v = fresh(x)
            ia.append(v)
            ib.append(v)
        vs.append(v)
    ia, ib = ia[n - len(da):], ib[n - len(db):]
    ga, gb = arr_guard(a, *ia), arr_guard(b, *ib)
    # a selected axis combined with a plain one: align by rank
    for k, v in enumerate(vs):
        for g, other, iy, gx in ((ga, b, ib, gb), (gb, a, ia, ga)):
            dk = k - (n - len(arr_dims(other)))
            if g is not TRUE and gx is TRUE and dk >= 0 and v in g.deps and not (g.deps & (frozenset(vs) - {v})):
                od = arr_dims(other)[dk]
                if iy[dk] is v and od is not RANGE[v]:
                    iy[dk] = rank_of(v, g)
    return vs, tuple(ia), tuple(ib), and_(ga, gb)


def emap2(it, st, f, a, b, dtype=None):
    """elementwise f over arrays/scalars; a, b array terms or scalars"""
    def one(x, y):
        xa = arr_dims(x) is not None
        ya = arr_dims(y) is not None
        if xa and ya:
            vs, ix, iy, g = align(x, y)
            e = f(vg.cell(x, *ix), vg.cell(y, *iy))
        elif xa:
            vs = [fresh(d) for d in arr_dims(x)]
            g = arr_guard(x, *vs)
            e = f(vg.cell(x, *vs), y)
        elif ya:
            vs = [fresh(d) for d in arr_dims(y)]
            g = arr_guard(y, *vs)
            e = f(x, vg.cell(y, *vs))
        else:
            return f(x, y)
        if g is not TRUE:
            e = simplify_under(e, g)
        return make_arr(vs, (g, e), (dtype or elem_dtype(e),))
    # array values may be conditional
    def go(x, y):
        if x.op == 'ite' and any(arr_dims(l) is not None for l in leaves(x)):
            return vg._mapl(x, lambda l: go(l, y))
        if y.op == 'ite' and any(arr_dims(l) is not None for l in leaves(y)):
            return vg._mapl(y, lambda l: go(x, l))
        return one(x, y)
    return go(a, b)


def emap1(f, a, dtype=None):
    def one(x):
        vs = [fresh(d) for d in arr_dims(x)]
        g = arr_guard(x, *vs)
        e = f(vg.cell(x, *vs))
        if g is not TRUE:
            e = simplify_under(e, g)
        return make_arr(vs, (g, e), (dtype or elem_dtype(e),))
    return vg._mapl(a, one)


def nan_wrap(f):
    def g(a, b):
        return lift(('nanw', f), lambda x, y: NAN if x is NAN or y is NAN else f(x, y), (tonum(a), tonum(b)))
    return g


def num_add(a, b):
    return add(a, b)


SCALAR = {
    'Add': nan_wrap(add), 'Sub': nan_wrap(sub), 'Mult': nan_wrap(mul), 'Div': nan_wrap(div), 'Pow': nan_wrap(power),
    'FloorDiv': nan_wrap(fdiv), 'Mod': nan_wrap(mod),
}


def _bitop(op, a, b):
    if is_boolean(a) and is_boolean(b):
        x, y = lift('truthb', vg._truth, (a,)), lift('truthb', vg._truth, (b,))
        if op == 'BitAnd':
            return and_(x, y)
        if op == 'BitOr':
            return or_(x, y)
        return not_(iff(x, y))
    ia, ib = iconst(a), iconst(b)
    if ia is not None and ib is not None:
        return num({'BitAnd': ia & ib, 'BitOr': ia | ib, 'BitXor': ia ^ ib}[op])
    return mk('unk', 'bit operation', (a, b))


def scalar_binop(op, a, b):
    if op in SCALAR:
        if op == 'Div' and b is ZERO:
            return lift('div0', lambda x: mk('div0', x), (a,))
        return SCALAR[op](a, b)
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        return _bitop(op, a, b)
    ia, ib = iconst(a), iconst(b)
    if op in ('LShift', 'RShift') and ia is not None and ib is not None:
        return num(ia << ib if op == 'LShift' else ia >> ib)
    if op == 'LShift' and ib is not None:
        return mul(a, num(1 << ib))
    return mk('unk', 'operator ' + op, (a, b))


SORT_RULES['div0'] = lambda t: 'num'


def is_arrval(it, st, v):
    return it.kind(st, v) in ('arr', 'ser')


def binop(it, st, op, a, b):
    a, b = it.simp(st, a), it.simp(st, b)
    if a.op == 'ite' and not is_plain(it, st, a):
        return it.each(st, a, lambda l, s: binop(it, s, op, l, b))
    if b.op == 'ite' and not is_plain(it, st, b):
        return it.each(st, b, lambda l, s: binop(it, s, op, a, l))
    ka, kb = it.kind(st, a), it.kind(st, b)
    if ka in ('arr', 'ser') or kb in ('arr', 'ser'):
        label = None
        if a.op == 'ser' or b.op == 'ser':
            label = ser_shape((a, b))
            if label is None:
                return it.unk('alignment of series')
        x = it.arr(st, a) if ka in ('arr', 'ser', 'list', 'tuple') else a
        y = it.arr(st, b) if kb in ('arr', 'ser', 'list', 'tuple') else b
        if op == 'MatMult':
            return matmul(it, st, x, y)
        if op == 'Add' and (arr_dtype_leaf(x) == 'str' or arr_dtype_leaf(y) == 'str' or is_c(x) or is_c(y)):
            r = emap2(it, st, lambda p, q: scat(p, q), x, y, 'str')
        else:
            r = emap2(it, st, lambda p, q: scalar_binop(op, p, q), x, y)
        if label is not None:
            return ser(r, *label)
        return it.new_arr(st, r)
    if ka == 'frame' or kb == 'frame':
        return it.unk('frame arithmetic')
    if ka == 'set' or kb == 'set' or ka in ('bmeth',):
        x, y = set_val(it, st, a), set_val(it, st, b)
        f = {'Sub': set_diff, 'BitAnd': set_inter, 'BitOr': set_union,
             'BitXor': lambda p, q: set_union(set_diff(p, q), set_diff(q, p))}.get(op)
        if f:
            return it.new_set(st, f(x, y))
        return it.unk('set operator')
    if ka == 'dict' and kb == 'dict' and op == 'BitOr':
        return it.new_dict(st, it.dict_merge(dict_val(it, st, a), dict_val(it, st, b)))
    if ka == 'str' or kb == 'str' or a.op == 'scat' or b.op == 'scat':
        if op == 'Add':
            return scat(a, b)
        if op == 'Mult':
            x, n = (a, b) if ka == 'str' else (b, a)
            k = iconst(n)
            if k is not None:
                return scat(*([x] * max(0, k))) if k > 0 else const('')
            return it.unk('string repetition')
        if op == 'Mod' and is_c(a):
            return format_percent(it, st, a, b)
        return it.unk('string operator')
    if ka in ('list', 'tuple') or kb in ('list', 'tuple'):
        if op == 'Add':
            s = concat(it.seq(st, a), it.seq(st, b))
            if ka == 'tuple' and kb == 'tuple' and s.op == 'seq' and all(p.op == 'el' for p in s.args):
                return tup(*[p.args[0] for p in s.args])
            return it.new_list(st, s) if ka != 'tuple' else lift('lst', lambda q: mk('lst', q), (s,))
        if op == 'Mult':
            x, n = (a, b) if ka in ('list', 'tuple') else (b, a)
            s = it.seq(st, x)
            k = iconst(n)
            if k is not None and k <= 8:
                r = seq(*([s] * max(0, k))) if k > 0 else NIL
            elif s.op == 'seq' and len(s.args) == 1 and s.args[0].op == 'el':
                v = fresh(n)
                r = make_flat([v], (s,))
            else:
                v = fresh(n)
                r = make_flat([v], (s,))
            return it.new_list(st, r)
        return it.unk('list operator')
    if op == 'BitAnd' and ka is None:
        pass
    if a.op == 'ref' or b.op == 'ref':
        m = {'Add': '__add__', 'Sub': '__sub__'}.get(op)
        if a.op == 'ref' and st.heap[a].cls is not None and m and st.heap[a].cls.lookup(m):
            return it.call_func(st.heap[a].cls.lookup(m), [a, b], {}, st)
        return it.unk('operator on objects')
    return scalar_binop(op, a, b)


def is_plain(it, st, v):
    """every alternative is a number or boolean"""
    for l in leaves(v):
        if l is TRUE or l is FALSE or l is NAN or l is INF or is_numeric(l):
            continue
        return False
    return True


def arr_dtype_leaf(x):
    for l in leaves(x):
        return arr_dtype(l)


def unop(it, st, op, v):
    if v.op == 'ite' and not is_plain(it, st, v):
        return it.each(st, v, lambda l, s: unop(it, s, op, l))
    k = it.kind(st, v)
    if k in ('arr', 'ser'):
        a = it.arr(st, v)
        if op == 'Invert':
            r = emap1(lambda x: not_(vg.truth(x)) if is_boolean(x) else sub(neg(x), ONE), a)
        elif op == 'USub':
            r = emap1(lambda x: neg(tonum(x)), a)
        else:
            r = a
        return ser(r, *v.args[1:3]) if v.op == 'ser' else it.new_arr(st, r)
    if op == 'USub':
        return neg_(v)
    if op == 'UAdd':
        return tonum(v)
    if op == 'Invert':
        if is_boolean(v):
            # ~True is -2 in Python, but on numpy booleans it is the negation
            return not_(vg.truth(v))
        return sub(neg(v), ONE)
    return it.unk('operator ' + op)


def neg_(v):
    return lift('neg_', lambda x: x if x is NAN else neg(x), (tonum(v),))


def inplace(it, st, op, old, rhs):
    k = it.kind(st, old)
    if old.op == 'ref':
        if it.preempt is not None:
            from .extcalls import shared_change
            shared_change(it, st, old)
        c = st.heap[old]
        if c.kind == 'list' and op == 'Add':
            it.setf(st, old, 'seq', concat(c.f['seq'], it.seq(st, rhs)))
            return old
        if c.kind == 'list' and op == 'Mult':
            r = binop(it, st, op, old, rhs)
            it.setf(st, old, 'seq', st.heap[r].f['seq'])
            return old
        if c.kind == 'set':
            r = binop(it, st, op, old, rhs)
            it.setf(st, old, 's', st.heap[r].f['s'])
            return old
        if c.kind == 'dict' and op == 'BitOr':
            it.setf(st, old, 'd', it.dict_merge(c.f['d'], dict_val(it, st, rhs)))
            return old
        if c.kind in ('arr', 'view'):
            y = it.arr(st, rhs) if it.kind(st, rhs) in ('arr', 'ser', 'list', 'tuple') else rhs
            cur = it.arr(st, old)
            new = emap2(it, st, lambda p, q: scalar_binop(op, p, q), cur, y)
            store(it, st, old, lambda ix: TRUE, lambda ix, o: vg.cell(new, *ix))
            return old
    return binop(it, st, op, old, rhs)


# ================================================================ comparisons
def compare(it, st, op, a, b):
    if op in ('Is', 'IsNot'):
        r = identity(it, st, a, b)
        return r if op == 'Is' else not_(r)
    if op in ('In', 'NotIn'):
        r = contains_(it, st, b, a)
        return r if op == 'In' else not_(r)
    a, b = it.simp(st, a), it.simp(st, b)
    if a.op == 'ite' and not is_plain(it, st, a):
        return it.each(st, a, lambda l, s: compare(it, s, op, l, b))
    if b.op == 'ite' and not is_plain(it, st, b):
        return it.each(st, b, lambda l, s: compare(it, s, op, a, l))
    ka, kb = it.kind(st, a), it.kind(st, b)
    if ka in ('arr', 'ser') or kb in ('arr', 'ser'):
        label = None
        if a.op == 'ser' or b.op == 'ser':
            label = ser_shape((a, b))
            if label is None:
                return it.unk('alignment of series')
        x = it.arr(st, a) if ka in ('arr', 'ser', 'list', 'tuple') else a
        y = it.arr(st, b) if kb in ('arr', 'ser', 'list', 'tuple') else b
        r = emap2(it, st, lambda p, q: scalar_cmp(op, p, q), x, y, 'bool')
        return ser(r, *label) if label is not None else it.new_arr(st, r)
    if op in ('Eq', 'NotEq'):
        r = equal(it, st, a, b)
        return r if op == 'Eq' else not_(r)
    if ka == 'set' and kb == 'set':
        x, y = set_val(it, st, a), set_val(it, st, b)
        if op in ('LtE', 'Lt'):
            return subset(x, y)
        return subset(y, x)
    return scalar_cmp(op, a, b)


def subset(x, y):
    v = fresh(None, 'x', None)
    d = and_(smember(v, x), not_(smember(v, y)))
    return not_(make_ex([v], (d,)))


def scalar_cmp(op, a, b):
    if op == 'Eq':
        return lift('sceq', _sceq, (a, b))
    if op == 'NotEq':
        return not_(lift('sceq', _sceq, (a, b)))
    a, b = tonum(a), tonum(b)

    def f(x, y):
        if x is NAN or y is NAN:
            return FALSE
        if op == 'Lt':
            return vg._lt(x, y)
        if op == 'Gt':
            return vg._lt(y, x)
        if op == 'LtE':
            return not_(vg._lt(y, x))
        return not_(vg._lt(x, y))
    return lift(('cmp', op), f, (a, b))


def _sceq(x, y):
    if x is NAN or y is NAN:
        return FALSE
    if (x is TRUE or x is FALSE) and is_numeric(y):
        return eq(tonum(x), y)
    if (y is TRUE or y is FALSE) and is_numeric(x):
        return eq(x, tonum(y))
    return vg._eq(x, y)


def identity(it, st, a, b):
    a, b = it.simp(st, a), it.simp(st, b)

    def one(x, y):
        if x is y:
            return TRUE
        if x.op == 'ref' or y.op == 'ref':
            return FALSE
        if x is NONE or y is NONE:
            z = y if x is NONE else x
            if z.op == 'unk':
                return batom(mk('eq', *sorted((x, y), key=lambda q: q.id)))
            if isinstance(sort_of(z), (tuple, str)) and sort_of(z) != 'maybe':
                return FALSE
        return vg._eq(x, y)
    return lift('ident', one, (a, b))


def equal(it, st, a, b):
    """value equality of two (non conditional) values"""
    ka, kb = it.kind(st, a), it.kind(st, b)
    if ka == 'none' or kb == 'none':
        return identity(it, st, a, b)
    if a.op == 'ref' and b.op == 'ref' and a is b:
        return TRUE
    if ka == 'inst' and st.heap[a].cls is not None:
        m = st.heap[a].cls.lookup('__eq__')
        if m is not None:
            return it.truth(st, it.call_func(m, [a, b], {}, st))
        return FALSE
    if ka == 'set' and kb == 'set':
        return seteq(set_val(it, st, a), set_val(it, st, b))
    if {ka, kb} <= {'list'} or {ka, kb} <= {'tuple', 'list'} and ka == kb:
        return seq_eq(it, st, it.seq(st, a), it.seq(st, b))
    if ka in ('list', 'tuple', 'set', 'dict') and kb in ('list', 'tuple', 'set', 'dict', 'str', 'num') and ka != kb:
        if (a.op == 'lst' or b.op == 'lst') and {ka, kb} == {'list', 'tuple'}:
            return seq_eq(it, st, it.seq(st, a), it.seq(st, b))
        return FALSE
    x, y = it.deep(st, a), it.deep(st, b)
    return scalar_cmp('Eq', x, y)


def seteq(x, y):
    def one(p, q):
        if p is q:
            return TRUE
        if p.op == 'setc' or q.op == 'setc':
            # canonical: exists an element in exactly one of them
            pe = p.op == 'setc' and p.args[2][0] is FALSE
            qe = q.op == 'setc' and q.args[2][0] is FALSE
            if pe or qe:
                return not_(ne(card(q if pe else p), ZERO))
            cp, cq = vg.candidates(p), vg.candidates(q)
            if cp is not None and cq is not None:
                return and_(*[or_(not_(smember(e, p)), smember(e, q)) for e in cp],
                            *[or_(not_(smember(e, q)), smember(e, p)) for e in cq])
            v = fresh(None, 'x', None)
            d = not_(iff(smember(v, p), smember(v, q)))
            return not_(make_ex([v], (d,)))
        return batom(mk('eq', *sorted((p, q), key=lambda z: z.id)))
    return lift('seteq', one, (x, y))


def seq_eq(it, st, s, t):
    s, t = it.freeze(st, s, -1), it.freeze(st, t, -1)

    def one(p, q):
        if p is q:
            return TRUE
        if all(x.op == 'el' for x in p.args + q.args):
            if len(p.args) != len(q.args):
                return FALSE
            return and_(*[eq_frozen(x.args[0], y.args[0]) for x, y in zip(p.args, q.args)])
        n, m = slen(p), slen(q)
        if is_num(n) and is_num(m) and n is not m:
            return FALSE
        if p.op == 'seq' and len(p.args) == 1 and p.args[0].op == 'spl' and len(q.args) == 1 and q.args[0].op == 'spl':
            return batom(mk('eq', *sorted((p.args[0].args[0], q.args[0].args[0]), key=lambda z: z.id)))
        return batom(mk('eq', *sorted((p, q), key=lambda z: z.id)))
    return lift('seq_eq', one, (s, t))


def eq_frozen(x, y):
    if x.op in ('setc',) or y.op in ('setc',) or sort_of(x) == 'set':
        return seteq(x, y)
    return eq(x, y)


def _eq_sets(a, b):
    if (a.op == 'setc' or sort_of(a) == 'set') and (b.op == 'setc' or sort_of(b) == 'set') and \
            (a.op == 'setc' or b.op == 'setc'):
        if a is b:
            return TRUE
        return seteq(a, b)
    return None


EQ_RULES.append(_eq_sets)


def contains_(it, st, box, x):
    box = it.simp(st, box)
    if box.op == 'ite':
        return it.each(st, box, lambda l, s: contains_(it, s, l, x))
    if box.op == 'bmeth' and box.args[1] in ('edges', 'nodes') and is_ref(st, box.args[0], 'graph'):
        return smember(it.deep(st, x), st.heap[box.args[0]].f[box.args[1]])
    k = it.kind(st, box)
    if k == 'dict':
        return dget(dict_val(it, st, box), it.deep(st, x))[0]
    if k == 'set':
        return smember(it.deep(st, x), set_val(it, st, box))
    if k == 'graph':
        return smember(it.deep(st, x), st.heap[box].f['nodes'])
    if k == 'acc' or box.op == 'acc':
        return acc_contains(it, st, box, x)
    if k == 'str' or box.op == 'scat':
        if is_c(box) and is_c(x):
            return const(x.args[1] in box.args[1])
        return batom(mk('substr', x, box))
    if k == 'arr':
        a = it.arr(st, box)
        vs = [fresh(d) for d in arr_dims(a)]
        return make_ex(vs, (and_(arr_guard(a, *vs), scalar_cmp('Eq', vg.cell(a, *vs), x)),))
    s = it.seq(st, box)
    s = it.freeze(st, s, -1)
    xf = it.deep(st, x)

    def mem(q):
        # members compare by value; sets/lists need structural equality
        r = FALSE
        simple = True
        for p in q.args:
            if p.op == 'el' and (p.args[0].op in ('setc', 'lst', 'arr') or sort_of(p.args[0]) == 'set'):
                simple = False
        if simple:
            return member(xf, q)
        for p in q.args:
            if p.op == 'el':
                r = or_(r, eq_frozen(xf, p.args[0]))
            else:
                r = or_(r, member(xf, mk('seq', p)))
        return r
    return vg._mapl(s, mem)


def set_val(it, st, v):
    v = it.simp(st, v)
    if v.op == 'ite':
        return vg._mapl(v, lambda l: set_val(it, st, l))
    if v.op == 'ref':
        c = st.heap[v]
        if c.kind == 'set':
            return it.simp(st, c.f['s'])
    if v.op == 'setc' or sort_of(v) == 'set':
        return v
    if v.op == 'acc' and v.args[0] in ('gnodes', 'gedges'):
        return st.heap[v.args[1]].f['nodes' if v.args[0] == 'gnodes' else 'edges']
    s = it.freeze(st, it.seq(st, v), -1)
    return set_of_seq(s)


def dict_val(it, st, v):
    v = it.simp(st, v)
    if v.op == 'ite':
        return vg._mapl(v, lambda l: dict_val(it, st, l))
    if v.op == 'ref' and st.heap[v].kind == 'dict':
        return it.simp(st, st.heap[v].f['d'])
    return v


# ================================================================ sequences
def seq_slice(s, lo=None, hi=None, step=None):
    s = as_seq(s)

    def one(q):
        n = slen(q)
        a, b = lo, hi
        ac = ZERO if is_none(a) else a
        bc = n if is_none(b) else b
        stp = 1 if is_none(step) else iconst(step)
        if stp == -1 and is_none(lo) and is_none(hi):
            return seq_reverse(q)
        if all(p.op == 'el' for p in q.args) and iconst(ac) is not None and (is_none(b) or iconst(bc) is not None) and stp:
            xs = list(q.args)[slice(iconst(ac), None if is_none(b) else iconst(bc), stp)]
            return mk('seq', *xs)
        if stp != 1:
            if stp and stp > 1 and (is_none(lo) or iconst(ac) is not None) and is_none(hi) and iconst(ac) >= 0:
                m = fdiv(add(sub(n, ac), num(stp - 1)), num(stp))
                w = fresh(m)
                return make_flat([w], (vg.lst(sat(q, add(ac, mul(num(stp), w)))),))
            return mk('seq', mk('spl', mk('unk', 'stepped slice', (q,))))
        if iconst(ac) is not None and iconst(ac) < 0:
            ac = max_(add(n, ac), ZERO)
        if iconst(bc) is not None and iconst(bc) < 0:
            bc = add(n, bc)
        if ac is ZERO and bc is n:
            return q
        # drop concrete elements at the front
        if iconst(ac) is not None:
            k = iconst(ac)
            rest = list(q.args)
            while k > 0 and rest and rest[0].op == 'el':
                rest.pop(0)
                k -= 1
            if k == 0:
                t = mk('seq', *rest)
                if is_none(hi):
                    return t
                if iconst(hi) is not None and iconst(hi) < 0:
                    return cut_tail(t, -iconst(hi))
                return take(t, sub(bc, ac))
        if ac is ZERO:
            if not is_none(hi) and iconst(hi) is not None and iconst(hi) < 0:
                return cut_tail(q, -iconst(hi))
            return take(q, bc)
        return take(drop(q, ac), sub(bc, ac)) if not is_none(hi) else drop(q, ac)
    return vg._mapl(s, one)


def max_(a, b):
    return ite(lt(a, b), b, a)


def min_(a, b):
    return ite(lt(b, a), b, a)


def unit_seq(q):
    return all(p.op in ('el', 'spl') or vg._unit(p.args[2][0]) for p in q.args)


def cut_tail(q, k):
    ps = list(q.args)
    while k > 0 and ps and ps[-1].op == 'el':
        ps.pop()
        k -= 1
    if k == 0:
        return mk('seq', *ps)
    t = mk('seq', *ps)
    return take(t, sub(slen(t), num(k)))


def take(q, n):
    """first n elements (n >= 0)"""
    if q.op == 'ite':
        return vg._mapl(q, lambda l: take(l, n))
    tot = slen(q)
    if n is tot:
        return q
    out = []
    off = ZERO
    if iconst(n) is not None and iconst(n) <= 0:
        return NIL
    for p in q.args:
        if p.op == 'el':
            out.append(ite(lt(off, n), vg.lst(p.args[0]), NIL))
            off = add(off, ONE)
            continue
        ln = vg._piece_len(p)
        left = sub(n, off)
        c = lt(left, ln)       # fewer than ln wanted
        c0 = pos(left)
        m = ite(c, ite(c0, left, ZERO), ln)
        if m is ln:
            out.append(mk('seq', p))
        elif p.op == 'spl' or vg._unit(p.args[2][0]):
            w = fresh(m)
            body = at(p.args[0], w) if p.op == 'spl' else None
            if body is not None:
                out.append(make_flat([w], (vg.lst(body),)))
            else:
                out.append(vg._mapl(m, lambda mm: _retake(p, mm)))
        else:
            out.append(mk('seq', mk('spl', mk('taken', mk('seq', p), m))))
        off = add(off, ln)
    return seq(*out) if out else NIL


def _retake(p, m):
    w = fresh(m)
    return make_flat([w], (inst(p, [w])[0],))


def drop(q, n):
    """without the first n elements"""
    if n is ZERO:
        return q
    if q.op == 'ite':
        return vg._mapl(q, lambda l: drop(l, n))
    if iconst(n) is not None and iconst(n) > 0 and q.args and q.args[0].op == 'el':
        return drop(mk('seq', *q.args[1:]), sub(n, ONE))
    if unit_seq(q):
        m = sub(slen(q), n)
        w = fresh(m)
        return make_flat([w], (vg.lst(sat(q, add(w, n))),))
    return mk('seq', mk('spl', mk('dropped', q, n)))


def seq_reverse(q):
    if all(p.op == 'el' for p in q.args):
        return mk('seq', *reversed(q.args))
    if len(q.args) == 1 and unit_seq(q):
        n = slen(q)
        w = fresh(n)
        return make_flat([w], (vg.lst(sat(q, sub(sub(n, ONE), w))),))
    out = []
    for p in reversed(q.args):
        out.append(seq_reverse(mk('seq', p)) if p.op != 'el' and (p.op == 'spl' or vg._unit(p.args[2][0]))
                   else mk('seq', p) if p.op == 'el' else mk('seq', mk('spl', mk('reversed', mk('seq', p)))))
    return seq(*out)


def seq_store(s, i, val):
    s = as_seq(s)

    def one(q):
        k = iconst(i)
        if k is not None and k < 0:
            ps = list(q.args)
            if all(p.op == 'el' for p in ps[k:]) and len(ps) >= -k:
                ps[k] = el(val)
                return mk('seq', *ps)
        elif k is not None and all(p.op == 'el' for p in q.args[:k + 1]) and k < len(q.args):
            ps = list(q.args)
            ps[k] = el(val)
            return mk('seq', *ps)
        ii = add(slen(q), i) if k is not None and k < 0 else i
        n = slen(q)
        if len(q.args) == 1 and q.args[0].op in ('spl', 'flat') and unit_seq(q):
            v = fresh(n)
            return make_flat([v], (vg.lst(ite(eq(v, ii), val, sat(q, v))),))
        if all(p.op == 'el' for p in q.args):
            return vg.lst(*[ite(eq(num(j), ii), val, p.args[0]) for j, p in enumerate(q.args)])
        if unit_seq(q):
            v = fresh(n)
            return make_flat([v], (vg.lst(ite(eq(v, ii), val, sat(q, v))),))
        return mk('seq', mk('spl', mk('unk', 'list store', (q,))))
    return vg._mapl(s, one)


def seq_remove_at(s, i):
    """without position i"""
    s = as_seq(s)

    def one(q, i_):
        k = iconst(i_)
        ps = list(q.args)
        if k is not None and k >= 0 and all(p.op == 'el' for p in ps[:k + 1]) and k < len(ps):
            del ps[k]
            return mk('seq', *ps)
        if k is not None and k < 0 and len(ps) >= -k and all(p.op == 'el' for p in ps[k:]):
            del ps[k]
            return mk('seq', *ps)
        if k is not None and k < 0:
            i_ = add(slen(q), i_)
        out, off = [], ZERO
        for p in ps:
            if p.op == 'el':
                out.append(ite(eq(off, i_), NIL, vg.lst(p.args[0])))
                off = add(off, ONE)
            else:
                n = vg._piece_len(p)
                if p.op == 'flat' and not vg._unit(p.args[2][0]):
                    return mk('seq', mk('spl', mk('delat', q, i_)))
                v = fresh(n)
                out.append(make_flat([v], (ite(eq(add(off, v), i_), NIL, vg.lst(vg._piece_at(p, v))),)))
                off = add(off, n)
        return seq(*out) if out else NIL
    return lift('seq_remove_at', one, (s, i))


def seq_remove_val(it, st, s, x):
    """without the first occurrence of x"""
    s = as_seq(s)

    def one(q, x_):
        out = []
        found = FALSE
        for p in q.args:
            if p.op == 'el':
                c = and_(not_(found), eq(p.args[0], x_))
                out.append(ite(c, NIL, vg.lst(p.args[0])))
                found = or_(found, eq(p.args[0], x_))
            else:
                if p.op == 'flat' and not unit_or_filter(p):
                    out.append(mk('seq', mk('spl', mk('remval', mk('seq', p), x_))))
                    continue
                n = p.args[1][0] if p.op == 'flat' else length_of(p.args[0])
                v = fresh(n)
                b = inst(p, [v])[0] if p.op == 'flat' else vg.lst(at(p.args[0], v))
                val = vg._mapl(b, lambda l: l.args[0].args[0] if l.args else NONE)
                g = vg._mapl(b, lambda l: const(len(l.args) == 1))
                # elements are distinct, or only the first occurrence goes
                e = and_(g, eq(val, x_))
                if solve_for(v, e) is not None or distinct_piece(p):
                    hit = e
                else:
                    w = fresh(v)
                    hit = and_(e, not_(make_ex([w], (subst(e, {v: w}),))))
                out.append(make_flat([v], (ite(and_(not_(found), hit), NIL, b),)))
                found = or_(found, make_ex([v], (e,)))
        return seq(*out) if out else NIL
    return lift('seq_remove_val', one, (s, x))


def distinct_piece(p):
    if p.op == 'spl':
        return p.args[0] in DISTINCT or p.args[0].op in ('enum', 'dkeys')
    return False


def unit_or_filter(p):
    b = p.args[2][0]
    return all(x.op == 'seq' and len(x.args) <= 1 and all(q.op == 'el' for q in x.args) for x in leaves(b))


def unpack(it, st, v, k, n):
    v = it.simp(st, v)
    if v.op == 'ite':
        return it.each(st, v, lambda l, s: unpack(it, s, l, k, n))
    if v.op == 'tup':
        return v.args[k] if k < len(v.args) else it.unk('unpack')
    if v.op == 'var' or v.op == 'sym' and sort_of(v) is None:
        return pair_get(v, k)
    kd = it.kind(st, v)
    if kd == 'arr':
        return getitem(it, st, v, num(k))
    if kd == 'list' or kd == 'tuple':
        return sat(it.seq(st, v), num(k))
    if kd is None:
        return pair_get(v, k)
    return sat(it.seq(st, v), num(k))


# ================================================================ subscripts
def norm_index(i, n):
    """position of a (possibly negative constant) index"""
    k = iconst(i)
    if k is not None and k < 0:
        return add(n, i)
    return tonum(i)


def slice_parts(s, n):
    """(start, length, step) of slice term s over n elements"""
    lo, hi, step = s.args
    stp = 1 if is_none(step) else iconst(step)
    if stp is None or stp == 0:
        return None
    if stp < 0:
        if is_none(lo) and is_none(hi) and stp == -1:
            return sub(n, ONE), n, num(-1)
        return None
    a = ZERO if is_none(lo) else norm_index(lo, n)
    if is_none(hi):
        b = n
    else:
        b = norm_index(hi, n)
        if iconst(hi) is None or iconst(hi) >= 0:
            lo_ok = vg._extreme(sub(n, b), 1) if n.op != 'ite' and b.op != 'ite' else None
            if b is not n and not (lo_ok is not None and lo_ok >= 0):
                # bound above by the length where it may exceed it
                k = iconst(hi)
                if k is not None and iconst(n) is not None:
                    b = num(min(k, iconst(n)))
                elif (lo_ok is None) and not trusted_le(b, n):
                    b = ite(lt(n, b), n, b)
    ln = sub(b, a)
    if a.op != 'ite' and b.op != 'ite':
        l0 = vg._extreme(ln, 1)
        if l0 is None or l0 < 0:
            if iconst(ln) is not None:
                ln = ZERO if iconst(ln) < 0 else ln
            # otherwise assume start <= stop (arrays long enough)
    if stp != 1:
        ln = fdiv(add(ln, num(stp - 1)), num(stp))
    return a, ln, num(stp)


TRUSTED_LE = set()


def trusted_le(b, n):
    return (b, n) in TRUSTED_LE


def getitem(it, st, b, ix):
    b = it.simp(st, b)
    if b.op == 'ite':
        return it.each(st, b, lambda l, s: getitem(it, s, l, ix))
    if ix.op == 'ite' and not is_plain(it, st, ix):
        return it.each(st, ix, lambda l, s: getitem(it, s, b, l))
    if b.op in ('ext', 'mod'):
        return b
    if b.op == 'acc':
        return acc_get(it, st, b, ix)
    k = it.kind(st, b)
    if k == 'ser':
        return ser_get(it, st, b, ix)
    if k == 'arr':
        return arr_get(it, st, b, ix)
    if k == 'frame':
        return frame_get(it, st, b, ix)
    if k == 'cols':
        c = it.freeze(st, b.args[0], -1)
        if ix.op == 'slice':
            return mk('cols', it.simp(st, seq_slice(c, *ix.args)))
        if it.kind(st, ix) in ('arr', 'list', 'ser'):
            return mk('cols', as_seq(it.arr(st, getitem(it, st, it.new_arr(st, seq_to_arr1(c, 'obj')), ix))))
        return it.simp(st, sat(c, ix))
    if k == 'dict':
        key = it.deep(st, ix)
        c, v = dget(dict_val(it, st, b), key)
        c = it.simp(st, c)
        if b.op == 'ref' and 'default' in st.heap[b].f and c is not TRUE:
            def missing(q):
                x = it.call(q.heap[b].f['default'], [], {}, q)
                setitem(it, q, b, ix, x)
                return x
            return it.branch(st, c, lambda q: it.simp(q, v), missing)
        if b.op == 'ref' and 'zero' in st.heap[b].f:
            return it.simp(st, ite(c, v, ZERO)) if c is not FALSE else ZERO
        if c is FALSE:
            it.raise_if(st, TRUE, 'KeyError')
        if c is not TRUE:
            it.raise_if(st, not_(c), 'KeyError')
        v = it.simp(st, v)
        if b.op != 'ref' or not any(l.op == 'ref' for l in leaves(v)):
            return v
        return v
    if b.op == 'tup' and iconst(ix) is not None:
        n = iconst(ix)
        if -len(b.args) <= n < len(b.args):
            return b.args[n]
        it.raise_if(st, TRUE, 'IndexError')
    if k == 'str':
        if is_c(b) and iconst(ix) is not None:
            try:
                return const(b.args[1][iconst(ix)])
            except IndexError:
                it.raise_if(st, TRUE, 'IndexError')
        if is_c(b) and ix.op == 'slice' and all(is_none(x) or iconst(x) is not None for x in ix.args):
            return const(b.args[1][slice(*[None if is_none(x) else iconst(x) for x in ix.args])])
        if it.kind(st, ix) in ('str', 'tuple', 'list'):
            it.raise_if(st, TRUE, 'TypeError')
        return lift('strsub', lambda s_, i_: mk('strsub', s_, i_), (b, ix))
    if k in ('list', 'tuple', 'queue'):
        s = it.seq(st, b)
        if ix.op == 'slice':
            r = seq_slice(s, *ix.args)
            if b.op == 'tup' and r.op == 'seq' and all(p.op == 'el' for p in r.args):
                return tup(*[p.args[0] for p in r.args])
            return it.new_list(st, r)
        s = it.simp(st, s)
        if s is NIL:
            it.raise_if(st, TRUE, 'IndexError')
        return it.simp(st, sat(s, tonum(ix)))
    if k == 'bmeth' and b.args[1] in ('nodes', 'edges', 'adj') and is_ref(st, b.args[0], 'graph'):
        return acc_get(it, st, mk('acc', 'g' + b.args[1], b.args[0]), ix)
    if k == 'bmeth' and b.args[1] in ('loc', 'iloc', 'at', 'iat'):
        return acc_get(it, st, mk('acc', b.args[1], b.args[0]), ix)
    if k == 'graph':
        return mk('acc', 'gsucc', b, it.deep(st, ix))
    if b.op == 'unk':
        return mk('unk', 'item of unknown', (b, ix))
    if ix.op == 'slice':
        if b.op == 'at' and (b.args[0].op == 'enum' and b.args[0].args[0] in PAIRSETS or b.args[0].op == 'acc' and b.args[0].args[0] == 'gedges'):
            return getitem(it, st, tup(pair_get(b, 0), pair_get(b, 1)), ix)
        return it.unk('slice of ' + str(k))
    n = iconst(ix)
    if n is not None or sort_of(ix) == 'int':
        return lift('mkat', lambda a_, i_: vg.AT_HOOK(a_, i_) or mk('at', a_, i_), (b, ix))
    s = sort_of(b)
    return lift('item', lambda a_, i_: mk('item', a_, i_), (b, ix))


def setitem(it, st, b, ix, v):
    b = it.simp(st, b)
    if b.op == 'ite':
        it.each(st, b, lambda l, s: setitem(it, s, l, ix, v) or NONE)
        return
    if b.op == 'acc':
        return acc_set(it, st, b, ix, v)
    if b.op == 'ref':
        if it.preempt is not None:
            from .extcalls import shared_change
            shared_change(it, st, b)
        c = st.heap[b]
        if c.kind == 'list':
            if ix.op == 'slice':
                parts = [p for p in ix.args]
                if all(is_none(p) for p in parts):
                    it.setf(st, b, 'seq', it.seq(st, v))
                else:
                    s = c.f['seq']
                    if not is_none(ix.args[2]):
                        it.setf(st, b, 'seq', mk('seq', mk('spl', it.unk('slice store'))))
                        return
                    a = seq_slice(s, None, ix.args[0]) if not is_none(ix.args[0]) else NIL
                    z = seq_slice(s, ix.args[1], None) if not is_none(ix.args[1]) else NIL
                    it.setf(st, b, 'seq', seq(a, it.seq(st, v), z))
                return
            it.setf(st, b, 'seq', it.simp(st, lift(('seqstore', v), lambda s_, i_: seq_store(s_, i_, v), (c.f['seq'], tonum(ix)))))
            return
        if c.kind == 'dict':
            it.setf(st, b, 'd', dput(it.simp(st, c.f['d']), it.deep(st, ix), v))
            return
        if c.kind in ('arr', 'view'):
            arr_set(it, st, b, ix, v)
            return
        if c.kind == 'frame':
            frame_setcol(it, st, b, ix, v)
            return
    if b.op == 'ser' and len(b.args) > 3:
        frame_mutated(it, st, b.args[3])
    it.unk('store into ' + str(it.kind(st, b)))
    it.event(st, 'lost-store', target=b)


def delitem(it, st, b, ix):
    if b.op == 'ref':
        c = st.heap[b]
        if c.kind == 'list':
            if ix.op == 'slice':
                if all(is_none(p) for p in ix.args):
                    it.setf(st, b, 'seq', NIL)
                    return
                a = seq_slice(c.f['seq'], None, ix.args[0]) if not is_none(ix.args[0]) else NIL
                z = seq_slice(c.f['seq'], ix.args[1], None) if not is_none(ix.args[1]) else NIL
                it.setf(st, b, 'seq', concat(a, z))
                return
            it.setf(st, b, 'seq', it.simp(st, seq_remove_at(c.f['seq'], tonum(ix))))
            return
        if c.kind == 'dict':
            k = it.deep(st, ix)
            c_, _ = dget(c.f['d'], k)
            it.raise_if(st, not_(c_), 'KeyError')
            it.setf(st, b, 'd', ddel(st.heap[b].f['d'], k))
            return
        if c.kind == 'frame':
            frame_delcol(it, st, b, ix)
            return
    it.unk('del item')


# ---------------------------------------------------------------- arrays
def expand_index(ix, rank):
    items = list(ix.args) if ix.op == 'tup' else [ix]
    n = sum(1 for x in items if not (x is NONE or is_ell(x)))
    out = []
    seen = False
    for x in items:
        if is_ell(x):
            out += [mk('slice', NONE, NONE, NONE)] * (rank - n)
            seen = True
        else:
            out.append(x)
    if not seen:
        out += [mk('slice', NONE, NONE, NONE)] * (rank - n)
    return out


def is_ell(x):
    return x.op == 'c' and x.args[0] == 'ellipsis'


def is_bool_arr(it, st, v):
    if it.kind(st, v) not in ('arr', 'ser', 'list'):
        return False
    a = it.arr(st, v)
    return all(arr_dtype(l) == 'bool' for l in leaves(a) if arr_dims(l) is not None) and a.op != 'unk'


def arr_get(it, st, b, ix):
    a = it.arr(st, b)
    if a.op == 'ite':
        return vg._mapl(a, lambda l: l) if False else it.branch(
            st, batom(a.args[0]), lambda s: arr_get(it, s, b, ix), lambda s: arr_get(it, s, b, ix))
    if a.op == 'unk' or arr_dims(a) is None:
        return mk('unk', 'item of unknown', (a,))
    ds = arr_dims(a)
    items = expand_index(ix, len(ds)) if not (ix.op != 'tup' and is_bool_arr(it, st, ix)) else [ix]
    # whole-array boolean mask
    if len(items) == 1 and is_bool_arr(it, st, items[0]):
        m = it.arr(st, items[0])
        return it.new_arr(st, select_mask(a, m))
    if all(x.op == 'slice' or x is NONE or it.kind(st, x) in ('num', 'bool', None) and not it.is_arrlike(st, x)
           for x in items):
        spec, k = [], 0
        for x in items:
            if x is NONE:
                spec.append(('new',))
            elif x.op == 'slice':
                p = slice_parts(x, ds[k])
                if p is None:
                    return it.unk('array slice')
                spec.append(('sl',) + p)
                k += 1
            else:
                spec.append(('int', norm_index(tonum(x), ds[k])))
                k += 1
        if all(s[0] == 'int' for s in spec):
            ii = tuple(s[1] for s in spec)
            g = arr_guard(a, *ii)
            if a.op == 'arr' and a.args[2][0] is not TRUE and len(ii) == 1:
                # position in a selected array: the ix-th selected element
                return sat(arr_to_seq(a), ii[0])
            return it.simp(st, vg.cell(a, *ii))
        if a.op == 'arr' and a.args[2][0] is not TRUE and len(ds) == 1:
            # slice of a selected array
            s = seq_slice(arr_to_seq(a), *items[0].args)
            return it.new_arr(st, seq_to_arr1(s))
        if a.op == 'arr' and a.args[2][0] is not TRUE:
            vs, (g, _) = open_binder(a)
            for kk, sp in enumerate(spec):
                plain = sp[0] == 'sl' and sp[1] is ZERO and sp[2] is ds[kk]
                others = frozenset(vs) - {vs[kk]}
                if not plain and vs[kk] in g.deps and not (g.deps & others):
                    # the k-th selected row
                    if sp[0] == 'int':
                        src = mk('at', arr_to_seq(make_arr([vs[kk]], (g, vs[kk]), ('int',))), sp[1])
                        SORT[src] = 'int'
                        LOWER[src] = 0
                        s0 = sat(arr_to_seq(make_arr([vs[kk]], (g, vs[kk]), ('int',))), sp[1])
                        spec[kk] = ('int', s0)
                        a2 = make_arr(vs, (TRUE, vg.cell(a, *vs)), (arr_dtype(a),))
                        return it.new_arr(st, slice_view(ds, spec).read(a2)) if not all(s[0] == 'int' for s in spec) \
                            else vg.cell(a2, *[s[1] for s in spec])
                    return it.unk('slice of selected rows')
        vm = slice_view(ds, spec)
        return view_or_copy(it, st, b, vm)
    return it.new_arr(st, fancy(it, st, a, items))


def const_mask(m):
    """the selected positions of a mask known element by element"""
    m = compact(m)
    if m.op == 'ite' or arr_dims(m) is None or len(arr_dims(m)) != 1 or arr_guard(m, fresh(arr_dims(m)[0])) is not TRUE:
        return None
    n = iconst(arr_dims(m)[0])
    if n is None or n > 64:
        return None
    on = []
    for j in range(n):
        c = vg.truth(vg.cell(m, num(j)))
        if c is TRUE:
            on.append(num(j))
        elif c is not FALSE:
            return None
    return on


def compact(x):
    """a selection along the first axis whose selected positions are all known, as a dense array"""
    ds = arr_dims(x)
    if x.op != 'arr' or not ds or x.args[2][0] is TRUE:
        return x
    n = iconst(ds[0])
    if n is None or n > 64:
        return x
    rest = [fresh(d) for d in ds[1:]]
    on = []
    for j in range(n):
        g = arr_guard(x, num(j), *rest)
        if g is TRUE:
            on.append(num(j))
        elif g is not FALSE:
            return x
    t = seq_to_arr1(as_seq(vg.lst(*on)), 'int')
    if not on or len(arr_dims(t)) != 1:
        return x
    v = fresh(num(len(on)))
    return make_arr([v] + rest, (TRUE, vg.cell(x, vg.cell(t, v), *rest)), (arr_dtype(x),))


def select_mask(a, m):
    def one(x, y):
        k = len(arr_dims(y))
        ds = arr_dims(x)
        vs = [fresh(d) for d in ds]
        g = and_(arr_guard(x, *vs), arr_guard(y, *vs[:k]), vg.truth(vg.cell(y, *vs[:k])))
        e = simplify_under(vg.cell(x, *vs), g)
        return compact(make_arr(vs, (g, e), (arr_dtype(x),)))
    if m.op == 'ite':
        return vg._mapl(m, lambda l: select_mask(a, l))
    return vg._mapl(a, lambda x: one(x, m))


def fancy(it, st, a, items):
    """copying index: ints, slices, integer arrays and boolean masks"""
    ds = arr_dims(a)
    comp = []
    k = 0
    for x in items:
        if x is NONE:
            comp.append(('new',))
            continue
        if x.op == 'slice':
            comp.append(('sl',) + slice_parts(x, ds[k]))
            k += 1
        elif it.kind(st, x) in ('arr', 'ser', 'list', 'tuple'):
            m = it.arr(st, x)
            if arr_dims(m) is None:
                return it.unk('index array')
            if arr_dtype(m) == 'bool':
                on = const_mask(m)
                if on is not None:
                    comp.append(('arr', seq_to_arr1(as_seq(vg.lst(*on)), 'int')))
                    k += 1
                    continue
                comp.append(('mask', m))
                k += len(arr_dims(m))
            else:
                comp.append(('arr', m))
                k += 1
        else:
            comp.append(('int', norm_index(tonum(x), ds[k])))
            k += 1
    arrs = [c for c in comp if c[0] == 'arr']
    # variables of the broadcast index arrays
    bvs, bguard = [], TRUE
    if arrs:
        rank = max(len(arr_dims(c[1])) for c in arrs)
        dims = []
        for j in range(rank):
            d = ONE
            for c in arrs:
                dd = arr_dims(c[1])
                jj = j - (rank - len(dd))
                if jj >= 0 and dd[jj] is not ONE:
                    d = dd[jj]
            dims.append(d)
        bvs = [fresh(d) for d in dims]
    out, src, guard = [], [], TRUE
    placed = False
    split = False
    k = 0
    first_arr = next((j for j, c in enumerate(comp) if c[0] == 'arr'), None)
    last_arr = max([j for j, c in enumerate(comp) if c[0] in ('arr', 'int')], default=None) if arrs else None
    if arrs and any(comp[j][0] == 'sl' for j in range(first_arr, (last_arr or first_arr) + 1)):
        split = True
        out += bvs
        placed = True
    for c in comp:
        if c[0] == 'new':
            out.append(fresh(ONE))
        elif c[0] == 'int':
            src.append(c[1])
            k += 1
        elif c[0] == 'sl':
            v = fresh(c[2])
            out.append(v)
            src.append(add(c[1], mul(c[3], v)))
            k += 1
        elif c[0] == 'mask':
            m = c[1]
            ws = [fresh(ds[k + j]) for j in range(len(arr_dims(m)))]
            g = and_(arr_guard(m, *ws), vg.truth(vg.cell(m, *ws)))
            guard = and_(guard, g)
            out += ws
            src += ws
            k += len(ws)
        else:
            m = c[1]
            dd = arr_dims(m)
            ii = []
            for j, d in enumerate(dd):
                v = bvs[len(bvs) - len(dd) + j]
                ii.append(ZERO if d is ONE and RANGE[v] is not ONE else v)
            guard = and_(guard, arr_guard(m, *ii))
            if not placed:
                out += bvs
                placed = True
            e = simplify_under(vg.cell(m, *ii), arr_guard(m, *ii)) if arr_guard(m, *ii) is not TRUE else vg.cell(m, *ii)
            if iconst(e) is not None and iconst(e) < 0:
                e = add(ds[k], e)
            src.append(e)
            k += 1
    g = and_(guard, arr_guard(a, *src))
    e = vg.cell(a, *src)
    if g is not TRUE:
        e = simplify_under(e, g)
    return make_arr(out, (g, e), (arr_dtype(a),))


def arr_set(it, st, b, ix, v):
    a = it.arr(st, b)
    if a.op == 'ite':
        it.branch(st, batom(a.args[0]), lambda s: arr_set(it, s, b, ix, v) or NONE,
                  lambda s: arr_set(it, s, b, ix, v) or NONE)
        return
    ds = arr_dims(a)
    if ds is None:
        it.unk('store into unknown array')
        it.event(st, 'lost-store', what='array')
        return
    rhs = it.arr(st, v) if it.kind(st, v) in ('arr', 'ser', 'list', 'tuple') else it.deep(st, v)
    if rhs.op == 'ite' and any(arr_dims(l) is not None for l in leaves(rhs)):
        it.branch(st, batom(rhs.args[0]), lambda s: arr_set(it, s, b, ix, it.simp(s, rhs)) or NONE,
                  lambda s: arr_set(it, s, b, ix, it.simp(s, rhs)) or NONE)
        return
    if not (ix.op != 'tup' and is_bool_arr(it, st, ix)):
        items = expand_index(ix, len(ds))
    else:
        items = [ix]
    if len(items) == 1 and is_bool_arr(it, st, items[0]):
        m = it.arr(st, items[0])
        k = len(arr_dims(m))

        def cnd(jx):
            return and_(arr_guard(m, *jx[:k]), vg.truth(vg.cell(m, *jx[:k])))
        if arr_dims(rhs) is None:
            store(it, st, b, cnd, lambda jx, old: rhs)
        elif len(arr_dims(rhs)) == len(ds) and rhs.op == 'arr' and rhs.args[2][0] is not TRUE:
            store(it, st, b, cnd, lambda jx, old: vg.cell(rhs, *jx))
        elif len(ds) == 1:
            def rankval(jx, old):
                w = fresh(jx[0])
                return vg.cell(rhs, make_sum([w], (ite(cnd((w,)), ONE, ZERO),)))
            store(it, st, b, cnd, rankval)
        else:
            it.unk('masked store')
            store(it, st, b, cnd, lambda jx, old: mk('unk', 'masked store'))
        return
    comp = []
    for k, x in enumerate(items):
        if x.op == 'slice':
            p = slice_parts(x, ds[k])
            if p is None:
                it.unk('array slice')
                it.event(st, 'lost-store', what='array')
                return
            comp.append(('sl',) + p)
        elif it.kind(st, x) in ('arr', 'ser', 'list', 'tuple'):
            m = it.arr(st, x)
            comp.append(('mask' if arr_dtype(m) == 'bool' else 'arr', m))
        elif x is NONE:
            it.unk('newaxis store')
            it.event(st, 'lost-store', what='array')
            return
        else:
            comp.append(('int', norm_index(tonum(x), ds[k])))
    basic = all(c[0] in ('int', 'sl') for c in comp)
    if basic:
        vm = slice_view(ds, comp)

        def cnd(jx):
            return vm.inv(jx)[0]

        def val(jx, old):
            if arr_dims(rhs) is None:
                return rhs
            return bcast_cell(rhs, vm.inv(jx)[1], [c[2] for c in comp if c[0] == 'sl'])
        store(it, st, b, cnd, val)
        return
    narr = [c for c in comp if c[0] == 'arr']
    if len(narr) >= 1 and all(c[0] in ('arr', 'int') for c in comp) and all(len(arr_dims(c[1])) == 1 for c in narr):
        # paired index arrays: a[i[k], j[k]] = rhs[k]
        def solve(jx):
            n = arr_dims(narr[0][1])[0]
            w = fresh(n)
            c = TRUE
            for x, cc, dd in zip(jx, comp, ds):
                if cc[0] == 'int':
                    c = and_(c, eq(x, cc[1]))
                else:
                    e = vg.cell(cc[1], w)
                    c = and_(c, eq(x, norm_index(e, dd) if e.op == 'wrap' else e), arr_guard(cc[1], w))
            return w, c

        def cnd(jx):
            w, c = solve(jx)
            return make_ex([w], (c,))

        def val(jx, old):
            if arr_dims(rhs) is None:
                return rhs
            w, c = solve(jx)
            r = solve_for(w, c)
            d = arr_dims(rhs)
            if r is None:
                r = (flat_solve(w, comp, jx, it, st, ds), TRUE)
                if r[0] is None:
                    if len(d) != 1 or d[0] is ONE or any(not vg.is_numeric(l) for l in leaves(vg.cell(rhs, w))):
                        return it.unk('indexed store')
                    # the last of the positions with this index
                    later, lc = solve(jx)
                    return make_sum([w], (ite(and_(c, not_(make_ex([later], (and_(lc, lt(w, later)),)))), tonum(vg.cell(rhs, w)), ZERO),))
            t = r[0]
            if len(d) == 1:
                return vg.cell(rhs, t if d[0] is not ONE else ZERO)
            return it.unk('indexed store')
        store(it, st, b, cnd, val)
        return
    if len(narr) == 1 and all(c[0] in ('arr', 'sl') for c in comp) and len(arr_dims(narr[0][1])) == 1 or \
            sum(1 for c in comp if c[0] == 'mask') == 1 and all(c[0] in ('mask', 'sl', 'int') for c in comp):
        def parts(jx):
            c, pos_ = TRUE, []
            for x, cc in zip(jx, comp):
                if cc[0] == 'int':
                    c = and_(c, eq(x, cc[1]))
                elif cc[0] == 'sl':
                    d = sub(x, cc[1])
                    c = and_(c, vg.in_range(d, cc[2]))
                    pos_.append(d)
                elif cc[0] == 'mask':
                    c = and_(c, vg.truth(vg.cell(cc[1], x)))
                    pos_.append(x)
                else:
                    n = arr_dims(cc[1])[0]
                    w = fresh(n)
                    e = eq(x, vg.cell(cc[1], w))
                    r = solve_for(w, e)
                    c = and_(c, make_ex([w], (e,)))
                    pos_.append(r[0] if r else None)
            return c, pos_

        def val(jx, old):
            if arr_dims(rhs) is None:
                return rhs
            c, pos_ = parts(jx)
            if any(p is None for p in pos_):
                return it.unk('indexed store')
            return bcast_cell(rhs, pos_, [None] * len(pos_))
        store(it, st, b, lambda jx: parts(jx)[0], val)
        return
    if all(c[0] in ('arr', 'sl', 'int') for c in comp) and len(comp) <= len(ds) and \
            all(arr_dims(c[1]) is not None and arr_guard(c[1], *[fresh(d) for d in arr_dims(c[1])]) is TRUE for c in narr):
        # several index arrays, broadcast against each other, mixed with slices and numbers
        comp += [('sl', ZERO, d, ONE) for d in ds[len(comp):]]
        adv = [k for k, c in enumerate(comp) if c[0] != 'sl']
        rank = max(len(arr_dims(c[1])) for c in narr)
        bd = [ONE] * rank
        for c in narr:
            d = arr_dims(c[1])
            for q, x in enumerate(d):
                if x is not ONE:
                    bd[rank - len(d) + q] = x
        together = adv == list(range(adv[0], adv[-1] + 1))

        def parts2(jx):
            ws = [fresh(d) for d in bd]
            c, sl = TRUE, {}
            for k, (x, cc) in enumerate(zip(jx, comp)):
                if cc[0] == 'int':
                    c = and_(c, eq(x, cc[1]))
                elif cc[0] == 'sl':
                    if cc[3] is not ONE:
                        d = sub(x, cc[1])
                        r = fdiv(d, cc[3])
                        c = and_(c, eq(mul(r, cc[3]), d), vg.in_range(r, cc[2]))
                        sl[k] = r
                    else:
                        sl[k] = sub(x, cc[1])
                        c = and_(c, vg.in_range(sl[k], cc[2]))
                else:
                    d = arr_dims(cc[1])
                    e = vg.cell(cc[1], *[ZERO if y is ONE else w for w, y in zip(ws[rank - len(d):], d)])
                    c = and_(c, eq(x, norm_index(e, ds[k]) if e.op == 'wrap' else e))
            pos_ = []
            for k in range(len(comp)):
                if k == (adv[0] if together else 0):
                    pos_ += ws
                if comp[k][0] == 'sl':
                    pos_.append(sl[k])
            return ws, c, pos_

        def cnd3(jx):
            ws, c, _ = parts2(jx)
            for w in ws:
                c = make_ex([w], (c,))
            return c

        def val3(jx, old):
            if arr_dims(rhs) is None:
                return rhs
            ws, c, pos_ = parts2(jx)
            for w in ws:
                if RANGE[w] is ONE:
                    pos_ = [subst(z, {w: ZERO}) for z in pos_]
                    c = subst(c, {w: ZERO})
                    continue
                r = solve_for(w, c)
                if r is None:
                    return it.unk('indexed store')
                pos_ = [subst(z, {w: r[0]}) for z in pos_]
                c = r[1]
            return bcast_cell(rhs, pos_, None)
        store(it, st, b, cnd3, val3)
        return
    it.unk('indexed store')
    store(it, st, b, lambda jx: TRUE, lambda jx, old: mk('unk', 'indexed store', tuple(jx)))


def flat_solve(w, comp, jx, it, st, ds):
    """index of the diagonal-like pattern d[k] = k*n + k % n"""
    if len(comp) != 1:
        return None
    e = eq(jx[0], vg.cell(comp[0][1], w))
    return None


def bcast_cell(a, ix, dims):
    d = arr_dims(a)
    ix = list(ix)[len(ix) - len(d):] if len(ix) >= len(d) else [ZERO] * (len(d) - len(ix)) + list(ix)
    return vg.cell(a, *[ZERO if n is ONE else i for i, n in zip(ix, d)])


def matmul(it, st, x, y):
    dx, dy = arr_dims(x), arr_dims(y)
    if dx is None or dy is None:
        return it.unk('matmul')
    vx, vy = [fresh(d) for d in dx], [fresh(d) for d in dy]
    k = vx[-1]
    if len(dy) == 1:
        iy = [k]
        out = vx[:-1]
    else:
        iy = vy[:-2] + [k] + vy[-1:]
        out = vx[:-1] + [vy[-1]]
        if len(dx) == 1:
            out = [vy[-1]]
    e = make_sum([k], (mul(tonum(vg.cell(x, *vx)), tonum(vg.cell(y, *iy))),))
    if not out:
        return e
    g = TRUE
    if x.op == 'arr' and x.args[2][0] is not TRUE:
        g = arr_guard(x, *vx)
        if k in g.deps:
            return it.unk('matmul of selection')
    return it.new_arr(st, make_arr(out, (g, e), (elem_dtype(e),)))


# ================================================================ data frames
def is_frame(it, st, v):
    return it.kind(st, v) == 'frame'


def fparts(it, st, v):
    if v.op == 'ref':
        f = st.heap[v].f
        return f['cols'], f['n'], f['idx']
    if v.op == 'frame':
        return v.args
    return mk('unk', 'frame'), mk('unk', 'frame'), NONE


def mkframe(it, st, cols, n, idx=NONE):
    return it.alloc(st, 'frame', {'cols': cols, 'n': n, 'idx': idx})


def index_arr(idx, n):
    """the row labels as an array"""
    if idx is not NONE:
        return idx
    w = fresh(n)
    return make_arr([w], (TRUE, w), ('int',))


def index_rows(idx, n, start, ln):
    """row labels of the rows start .. start+ln"""
    if idx is NONE and start is ZERO:
        return NONE
    return arr_rows(index_arr(idx, n), start, ln)


def index_mask(idx, n, m):
    return select_mask(index_arr(idx, n), m)


def col_len(a):
    """number of positions (selected or not) of a column"""
    ds = arr_dims(leaves(a)[0])
    return ds[0] if ds else None


def ser(a, label, idx=NONE, of=None):
    """a series; `of`: the frame whose cells it shares"""
    return mk('ser', a, label, idx, of) if of is not None and of.op == 'ref' else mk('ser', a, label, idx)


def shared_arr(it, st, a, of):
    """an array that may share the cells of a frame"""
    r = it.new_arr(st, a)
    if of is not None and of.op == 'ref':
        st.heap[r].view = ('frame', of)
    return r


def aligned(a, b):
    """whether two series have the same row labels"""
    return a.args[2] is b.args[2] and col_len(a.args[0]) is col_len(b.args[0]) and col_len(a.args[0]) is not None


def ser_shape(vs):
    """(label, row labels) of the result of an operation on values, some of which are series; None if they do not align"""
    ss = [v for v in vs if v.op == 'ser']
    if any(not aligned(x, ss[0]) for x in ss[1:]):
        return None
    return ss[0].args[1], ss[0].args[2]


def frame_mutated(it, st, ref, shared=None):
    """a store into a frame, or into something that may share its cells"""
    c = st.heap.get(ref)
    if c is not None and c.view is not None and (c.view[0] == 'input' or c.view[0] == 'part' and shared):
        it.event(st, 'input-mutation', target=c.view[1])
    if shared and (c is None or c.view is None or c.view[0] == 'part' or shared == 'shared cells'):
        if shared == 'shared cells' or c is not None and c.view is not None:
            it.event(st, 'lost-store', what=shared)


def same_cells(it, st, r, of):
    """frame r shares the cells of the frame `of`"""
    c = st.heap[of] if of.op == 'ref' else None
    if c is not None and c.view is not None and c.view[0] in ('input', 'part'):
        st.heap[r].view = ('part', c.view[1])
    return r


def labels_of(cols):
    return seq_map(cols, lambda p: pair_get(p, 0))


def fcol(it, st, v, label):
    """(condition, column array) for a column label"""
    cols, n, idx = fparts(it, st, v)
    c, k = index_of(labels_of(cols), label)
    c = it.simp(st, c)
    k = it.simp(st, k)
    if c is FALSE:
        return FALSE, None
    return c, col_at(it, st, cols, k)


def col_at(it, st, cols, k):
    p = it.simp(st, sat(cols, k))
    return it.simp(st, lift('colarr', lambda q: q.args[1] if q.op == 'tup' else mk('at', q, ONE), (p,)))


def frame_of(it, st, x):
    """frame built from an opaque table value"""
    x = it.deep(st, x)
    h = mk('header', x)
    DISTINCT.add(h)
    m = length_of(h)
    n = mk('nrows', x)
    SORT[n] = 'int'
    LOWER[n] = 0
    k = fresh(m)
    r = fresh(n)
    e = mk('dcell', x, r, k)
    cols = make_flat([k], (vg.lst(tup(at(h, k), make_arr([r], (TRUE, e), ('any',)))),))
    return mkframe(it, st, cols, n)


SORT_RULES['nrows'] = lambda t: 'int'
INT_OPS.add('nrows')


def frame_records(it, st, f):
    """the rows of a frame as dictionaries"""
    cols, n, idx = fparts(it, st, f)

    def one(c):
        r = fresh(n)
        d = vg.dct(seq_map(c, lambda p: tup(pair_get(p, 0), vg.cell(pair_get(p, 1), r))))
        return make_flat([r], (vg.lst(d),))
    return vg._mapl(cols, one)


def frame_of_records(it, st, rows):
    """frame of a sequence of dictionaries with the same keys, or None"""
    n = slen(rows)
    if is_num(n) and n.args[0] == 0:
        return mkframe(it, st, NIL, ZERO)
    r = fresh(n)
    row = dict_val(it, st, sat(rows, r))
    if row.op == 'ite':
        keys = [seq_map(ditems(l), lambda p: pair_get(p, 0)) for l in leaves(row)]
        if any(k is not keys[0] for k in keys):
            return None
        keys = keys[0]
    else:
        keys = seq_map(ditems(row), lambda p: pair_get(p, 0))
    if r in keys.deps or keys.op != 'seq':
        return None

    def column(k):
        rr = fresh(n)
        c, x = dget(dict_val(it, st, sat(rows, rr)), k)
        return c, make_arr([rr], (TRUE, x), (elem_dtype(x),))
    bad = []

    def pair(k):
        c, x = column(k)
        if c is not TRUE:
            bad.append(c)
        return tup(k, x)
    cols = seq_map(keys, pair)
    return None if bad else mkframe(it, st, cols, n)


def frame_to_numpy(it, st, v):
    cols, n, idx = fparts(it, st, v)

    def one(c):
        m = slen(c)
        k = fresh(m)
        col = col_at(it, st, c, k)
        a0 = leaves(col)[0]
        if arr_dims(a0) is None:
            return mk('unk', 'frame values', (c,))
        r = fresh(arr_dims(a0)[0])

        def cellr(x):
            return vg.cell(x, r)
        e = lift(('fcell', r), cellr, (col,))
        g = lift(('fguard', r), lambda x: arr_guard(x, r), (col,))
        if k in g.deps:
            return mk('unk', 'frame values', (c,))
        return make_arr([r, k], (g, e), (elem_dtype(e),))
    return vg._mapl(it.simp(st, cols), one)


def rows_map(it, st, v, f, n=None):
    """frame with f applied to every column array"""
    cols, n0, idx = fparts(it, st, v)
    c2 = seq_map(cols, lambda p: tup(pair_get(p, 0), f(pair_get(p, 1))))
    return mkframe(it, st, c2, n0 if n is None else n, idx)


def arr_rows(a, start, ln):
    """rows start .. start+ln of a 1-d array"""
    def one(x):
        if x.op == 'arr' and x.args[2][0] is not TRUE:
            s = arr_to_seq(x)
            if start is ZERO:
                return seq_to_arr1(take(s, ln))
            return seq_to_arr1(take(drop(s, start), ln))
        v = fresh(ln)
        return make_arr([v], (TRUE, vg.cell(x, add(start, v))), (arr_dtype(x),))
    return vg._mapl(a, one)


def rows_slice(it, st, v, s):
    cols, n, idx = fparts(it, st, v)
    p = slice_parts(s, n)
    if p is None:
        return it.unk('row slice')
    a, ln, step = p
    lc = iconst(ln)
    if lc is None:
        e = vg._extreme(ln, 1) if ln.op != 'ite' else None
        if e is None:
            pass
    if step is not ONE:
        return it.unk('row slice')
    if a is ZERO and ln is n:
        return same_cells(it, st, mkframe(it, st, cols, n, idx), v)
    c2 = seq_map(cols, lambda p_: tup(pair_get(p_, 0), arr_rows(pair_get(p_, 1), a, ln)))
    return same_cells(it, st, mkframe(it, st, c2, ln, index_rows(idx, n, a, ln)), v)


def rows_mask(it, st, v, m):
    m = it.arr(st, m) if m.op != 'arr' else m
    cols, n, idx = fparts(it, st, v)
    r = rows_map(it, st, v, lambda a: select_mask(a, m))
    it.setf(st, r, 'idx', index_mask(idx, n, m))
    return r


def cols_pick(it, st, v, labels):
    """frame with the columns of a sequence of labels"""
    cols, n, idx = fparts(it, st, v)
    lab = labels_of(cols)
    it.raise_if(st, seq_any(labels, lambda l: not_(index_of(lab, l)[0])), 'KeyError')

    def pick(l):
        c, k = index_of(lab, l)
        return tup(l, col_at(it, st, cols, it.simp(st, k)))
    return mkframe(it, st, seq_map(labels, pick), n, idx)


def frame_get(it, st, b, ix):
    k = it.kind(st, ix)
    if ix.op == 'slice':
        return rows_slice(it, st, b, ix)
    if k in ('arr', 'ser', 'list', 'tuple', 'cols'):
        a = it.arr(st, ix) if k in ('arr', 'ser') else None
        if a is not None and arr_dtype_leaf(a) == 'bool':
            return rows_mask(it, st, b, a)
        s = it.freeze(st, it.seq(st, ix), -1)
        if a is None:
            es = it.seq_elem_kinds(st, s)
            if es == {'bool'}:
                return rows_mask(it, st, b, seq_to_arr1(s, 'bool'))
        return cols_pick(it, st, b, s)
    c, a = fcol(it, st, b, it.deep(st, ix))
    it.raise_if(st, not_(c), 'KeyError')
    if a is None:
        return it.unk('missing column')
    return ser(a, it.deep(st, ix), fparts(it, st, b)[2], b)


def frame_setcol(it, st, ref, label, v):
    frame_mutated(it, st, ref)
    cols, n, idx = fparts(it, st, ref)
    if label.op in ('slice',) or it.kind(st, label) in ('list', 'arr', 'ser'):
        it.unk('frame block store')
        it.setf(st, ref, 'cols', mk('seq', mk('spl', mk('unk', 'frame block store'))))
        return
    it.setf(st, ref, 'cols', put_col(it, st, cols, n, it.deep(st, label), v, idx))


def as_column(it, st, v, n, idx=NONE):
    if v.op == 'ser' and not aligned(v, ser(make_arr([fresh(n)], (TRUE, ZERO), ('int',)), NONE, idx)):
        v = it.unk('alignment of a column')
    if it.kind(st, v) in ('arr', 'ser', 'list', 'tuple'):
        return it.arr(st, v)
    x = it.deep(st, v)
    w = fresh(n)
    return make_arr([w], (TRUE, x), (elem_dtype(x),))


def put_col(it, st, cols, n, label, v, idx=NONE):
    a = as_column(it, st, v, n, idx)
    c, k = index_of(labels_of(cols), label)
    c, k = it.simp(st, c), it.simp(st, k)
    if c is FALSE:
        return concat(cols, vg.lst(tup(label, a)))
    if c is TRUE:
        return lift(('seqstore', label, a), lambda s_, i_: seq_store(s_, i_, tup(label, a)), (cols, k))
    return ite(c, lift(('seqstore', label, a), lambda s_, i_: seq_store(s_, i_, tup(label, a)), (cols, k)),
               concat(cols, vg.lst(tup(label, a))))


def frame_delcol(it, st, ref, label):
    frame_mutated(it, st, ref)
    cols, n, idx = fparts(it, st, ref)
    c, k = index_of(labels_of(cols), it.deep(st, label))
    it.setf(st, ref, 'cols', seq_remove_at(cols, it.simp(st, k)))


def ser_get(it, st, b, ix, by_label=None):
    a, label, idx = b.args[:3]
    n = arr_dims(leaves(a)[0])
    if n is None:
        return it.unk('series item')
    whole = index_arr(idx, n[0])
    if ix.op == 'slice':
        if by_label and not all(is_none(x) for x in ix.args):
            return it.unk('slice by row labels')
        r = arr_get(it, st, it.new_arr(st, a), ix)
        i = NONE if idx is NONE and is_none(ix.args[0]) and is_none(ix.args[2]) else \
            it.arr(st, arr_get(it, st, it.new_arr(st, whole), ix))
        return ser(it.arr(st, r), label, i)
    if it.kind(st, ix) in ('arr', 'ser', 'list') and is_bool_arr(it, st, ix):
        m = it.arr(st, ix)
        if ix.op == 'ser' and not aligned(ix, b):
            return it.unk('alignment of a mask')
        return ser(select_mask(a, m), label, select_mask(whole, m))
    if it.kind(st, ix) in ('arr', 'ser', 'list'):
        if idx is not NONE and by_label is not False:
            return it.unk('rows by label')
        return ser(fancy(it, st, a, [ix]), label, fancy(it, st, whole, [ix]))
    if idx is not NONE and by_label is not False:
        return it.unk('row label')
    # label based: the default labels are the positions
    return lift('sercell', lambda x, i: vg.cell(x, i), (a, norm_index(tonum(ix), n[0])))


def row_position(it, st, v, r, by_label):
    cols, n, idx = fparts(it, st, v)
    if by_label:
        if idx is NONE:
            return tonum(r)
        return it.unk('row label')
    return norm_index(tonum(r), n)


def acc_get(it, st, acc, ix):
    what, b = acc.args[0], acc.args[1]
    if what in ('iloc', 'iat', 'loc', 'at') and b.op == 'ser':
        return ser_get(it, st, b, ix, what in ('loc', 'at'))
    if what in ('at', 'loc', 'iloc', 'iat') and b.op == 'rowser':
        return rowser_get(it, st, b, ix, what in ('iloc', 'iat'))
    if what in ('iloc', 'iat', 'loc', 'at'):
        by_label = what in ('loc', 'at')
        items = list(ix.args) if ix.op == 'tup' else [ix]
        r = items[0]
        v = b
        cols, n, idx = fparts(it, st, b)
        if len(items) > 1:
            c = items[1]
            if c.op == 'slice':
                if all(is_none(x) for x in c.args):
                    pass
                elif by_label:
                    return it.unk('label slice')
                else:
                    v = mkframe(it, st, it.simp(st, seq_slice(cols, *c.args)), n, idx)
            elif it.kind(st, c) in ('list', 'arr', 'ser', 'tuple') and not is_c(c):
                s = it.freeze(st, it.seq(st, c), -1)
                if by_label:
                    v = cols_pick(it, st, b, s)
                elif is_bool_arr(it, st, c):
                    return it.unk('column mask')
                else:
                    v = mkframe(it, st, seq_map(s, lambda k: sat(cols, k)), n, idx)
            else:
                if by_label:
                    cc, a = fcol(it, st, b, it.deep(st, c))
                    if cc is FALSE:
                        it.raise_if(st, TRUE, 'KeyError')
                    lab = it.deep(st, c)
                else:
                    a = col_at(it, st, cols, tonum(c) if not (iconst(c) is not None and iconst(c) < 0) else c)
                    lab = pair_get(sat(cols, c), 0)
                col = ser(a, lab, idx, b)
                if r.op == 'slice':
                    if all(is_none(x) for x in r.args):
                        return col
                    if by_label:
                        return it.unk('label row slice')
                    p = slice_parts(r, n)
                    if p is None or p[2] is not ONE:
                        return it.unk('row slice')
                    return ser(arr_rows(a, p[0], p[1]), lab, index_rows(idx, n, p[0], p[1]))
                if it.kind(st, r) in ('arr', 'ser', 'list'):
                    return ser_get(it, st, col, r, by_label)
                pos_ = row_position(it, st, b, r, by_label)
                return lift('sercell', lambda x, i: vg.cell(x, i), (a, pos_))
        if r.op == 'slice':
            if by_label and not all(is_none(x) for x in r.args):
                return it.unk('label row slice')
            return rows_slice(it, st, v, r)
        if it.kind(st, r) in ('arr', 'ser', 'list'):
            if is_bool_arr(it, st, r):
                return rows_mask(it, st, v, it.arr(st, r))
            if by_label and idx is not NONE:
                return it.unk('rows by label')
            idxs = it.arr(st, r)
            f = rows_map(it, st, v, lambda a: fancy(it, st, a, [r]), shape_of(idxs)[0])
            it.setf(st, f, 'idx', fancy(it, st, index_arr(idx, n), [r]))
            return f
        pos_ = row_position(it, st, v, r, by_label)
        return mk('rowser', it.deep(st, v), pos_)
    if what == 'gnodes':
        return mk('acc', 'gnode', b, it.deep(st, ix))
    if what == 'gnode':
        name = sconst(ix)
        d = st.heap[b].f.get('a:' + str(name))
        if d is None:
            it.raise_if(st, TRUE, 'KeyError')
        c, v = dget(d, acc.args[2])
        c = it.simp(st, c)
        if c is not TRUE:
            it.raise_if(st, not_(c), 'KeyError')
        return it.simp(st, v)
    if what == 'gpred' or what == 'gsucc':
        return mk('acc', 'gedge', b)
    if what in ('gadj',):
        return mk('acc', 'gsucc', b, it.deep(st, ix))
    return it.unk('accessor ' + what)


def rowser_get(it, st, b, ix, positional=False):
    f, pos_ = b.args
    if f.op != 'frame':
        return mk('fcell', f, ix, pos_)
    if it.kind(st, ix) in ('list', 'arr', 'cols', 'tuple'):
        s = it.freeze(st, it.seq(st, ix), -1)
        return it.new_list(st, seq_map(s, lambda l: rowser_get(it, st, b, l, positional)))
    if positional:
        a = col_at(it, st, f.args[0], tonum(ix))
    else:
        c, a = fcol(it, st, f, it.deep(st, ix))
        if c is FALSE:
            it.raise_if(st, TRUE, 'KeyError')
    return lift('sercell', lambda x, i: vg.cell(x, i), (a, pos_))


def acc_contains(it, st, box, x):
    what, b = box.args[0], box.args[1]
    f = st.heap[b].f
    x = it.deep(st, x)
    if what == 'gnodes':
        return smember(x, f['nodes'])
    if what == 'gedges':
        return smember(x, f['edges'])
    if what in ('gsucc',):
        return smember(tup(box.args[2], x), f['edges'])
    if what in ('gpred',):
        return smember(tup(x, box.args[2]), f['edges'])
    return truth(it.unk('membership'))


def acc_set(it, st, acc, ix, v):
    what, b = acc.args[0], acc.args[1]
    if what == 'gnode':
        name = sconst(ix)
        key = 'a:' + str(name)
        it.setf(st, b, key, dput(st.heap[b].f.get(key, dct(NIL)), acc.args[2], v))
        return
    if what in ('iloc', 'iat', 'loc', 'at') and b.op != 'ref':
        if b.op == 'ser' and len(b.args) > 3:
            frame_mutated(it, st, b.args[3])
        it.event(st, 'lost-store', target=b)
        it.unk('store through accessor')
        return
    if what in ('iloc', 'iat', 'loc', 'at'):
        frame_mutated(it, st, b, 'cells of a part of a frame')
        by_label = what in ('loc', 'at')
        cols, n, idx = fparts(it, st, b)
        items = list(ix.args) if ix.op == 'tup' else [ix]
        r = items[0]
        if len(items) == 1:
            c = mk('slice', NONE, NONE, NONE)
        else:
            c = items[1]
        # columns concerned
        if r.op == 'slice':
            if all(is_none(x) for x in r.args):
                rc = None
            else:
                p = slice_parts(r, n) if not by_label else None
                if p is None or p[2] is not ONE:
                    it.unk('row slice store')
                    it.setf(st, b, 'cols', mk('seq', mk('spl', mk('unk', 'row store'))))
                    return
                rc = lambda w: vg.in_range(sub(w, p[0]), p[1])
                roff = p[0]
        elif it.kind(st, r) in ('arr', 'ser', 'list'):
            m = it.arr(st, r)
            if arr_dtype_leaf(m) == 'bool':
                rc = lambda w: vg.truth(vg.cell(m, w))
            else:
                it.unk('row list store')
                rc = lambda w: truth(mk('unk', 'row list store'))
            roff = ZERO
        else:
            pos_ = row_position(it, st, b, r, by_label)
            rc = lambda w: eq(w, pos_)
            roff = pos_
        full = r.op == 'slice'

        def newcol(arr_, val):
            def one(a):
                d = arr_dims(a)
                if d is None:
                    return mk('unk', 'column store')
                w = fresh(d[0])
                x = vg.cell(val, sub(w, roff) if rc is not None else w) if arr_dims(val) is not None else val
                e = x if rc is None else ite(rc(w), x, vg.cell(a, w))
                return make_arr([w], (arr_guard(a, w), e), (elem_dtype(e),))
            return vg._mapl(arr_, one)
        if v.op == 'ser' and not (rc is None and aligned(v, ser(make_arr([fresh(n)], (TRUE, ZERO), ('int',)), NONE, idx))):
            v = it.unk('alignment of a stored column')
        rhs = it.arr(st, v) if it.kind(st, v) in ('arr', 'ser', 'list', 'tuple') else it.deep(st, v)
        if it.kind(st, v) == 'frame':
            it.unk('frame store')
            it.setf(st, b, 'cols', mk('seq', mk('spl', mk('unk', 'frame store'))))
            return
        if c.op == 'slice' or it.kind(st, c) in ('list', 'arr', 'tuple', 'cols'):
            if arr_dims(rhs) is not None and not (not full and len(arr_dims(rhs)) == 1):
                it.unk('block store')
                it.setf(st, b, 'cols', mk('seq', mk('spl', mk('unk', 'block store'))))
                return
            if c.op == 'slice':
                if all(is_none(x) for x in c.args):
                    hit = lambda l, k: TRUE
                    order = lambda l, k: k
                elif by_label:
                    it.unk('label slice')
                    return
                else:
                    p = slice_parts(c, slen(cols))
                    hit = lambda l, k: vg.in_range(sub(k, p[0]), p[1])
                    order = lambda l, k: sub(k, p[0])
            else:
                s = it.freeze(st, it.seq(st, c), -1)
                hit = lambda l, k: member(l, s)
                order = lambda l, k: index_of(s, l)[1]
            m = slen(cols)
            ps = []
            off = ZERO
            for p_ in as_seq(cols).args:
                if p_.op == 'el':
                    l, a = pair_get(p_.args[0], 0), pair_get(p_.args[0], 1)
                    h = it.simp(st, hit(l, off))
                    val = rhs if arr_dims(rhs) is None else vg.cell(rhs, order(l, off))
                    ps.append(vg.lst(tup(l, ite(h, newcol(a, val), a))))
                    off = add(off, ONE)
                else:
                    ln = vg._piece_len(p_)
                    w = fresh(ln)
                    x = vg._piece_at(p_, w)
                    l, a = pair_get(x, 0), pair_get(x, 1)
                    h = it.simp(st, hit(l, add(off, w)))
                    val = rhs if arr_dims(rhs) is None else vg.cell(rhs, order(l, add(off, w)))
                    ps.append(make_flat([w], (vg.lst(tup(l, ite(h, newcol(a, val) if h is not FALSE else a, a))),)))
                    off = add(off, ln)
            it.setf(st, b, 'cols', seq(*ps))
            return
        if by_label:
            lab = it.deep(st, c)
            cc, k = index_of(labels_of(cols), lab)
            k = it.simp(st, k)
            if it.simp(st, cc) is FALSE:
                it.setf(st, b, 'cols', put_col(it, st, cols, n, lab, v, idx))
                return
        else:
            k = tonum(c)
            lab = pair_get(sat(cols, k), 0)
        if iconst(k) is None and cols.op == 'seq' and all(p_.op == 'el' for p_ in cols.args):
            ps = []
            for j, p_ in enumerate(cols.args):
                l, a = pair_get(p_.args[0], 0), pair_get(p_.args[0], 1)
                h = it.simp(st, eq(k, num(j)))
                ps.append(tup(l, a if h is FALSE else ite(h, newcol(a, rhs), a)))
            it.setf(st, b, 'cols', vg.lst(*ps))
            return
        old = col_at(it, st, cols, k)
        nc = newcol(old, rhs)
        it.setf(st, b, 'cols', it.simp(st, lift(('seqstore', lab, nc), lambda s_, i_: seq_store(s_, i_, tup(lab, nc)), (cols, k))))
        return
    it.unk('store through ' + what)


# ---------------------------------------------------------------- series
def ser_shift(a, k, fill=NAN):
    def one(x):
        if x.op == 'arr' and x.args[2][0] is not TRUE:
            return mk('unk', 'shift of selection')
        n = arr_dims(x)[0]
        v = fresh(n)
        src = sub(v, num(k))
        ok = le(ZERO, src) if k > 0 else lt(src, n)
        e = ite(ok, vg.cell(x, src), fill)
        return make_arr([v], (TRUE, e), (elem_dtype(e),))
    return vg._mapl(a, one)


def ser_diff(a, k=1):
    def one(x):
        if x.op == 'arr' and x.args[2][0] is not TRUE:
            return mk('unk', 'diff of selection')
        n = arr_dims(x)[0]
        v = fresh(n)
        src = sub(v, num(k))
        ok = le(ZERO, src) if k > 0 else lt(src, n)
        e = ite(ok, SCALAR['Sub'](vg.cell(x, v), vg.cell(x, src)), NAN)
        return make_arr([v], (TRUE, e), ('num',))
    return vg._mapl(a, one)


def fillna(a, val):
    return emap1(lambda e: vg._mapl(e, lambda l: val if l is NAN or l is NONE else l), a)


def isnan_term(x):
    def one(t):
        if t is NAN:
            return TRUE
        if t.op in ('n', 'poly') or t.op == 'sym' or t is TRUE or t is FALSE:
            if t.op == 'poly':
                ks = [a for c, m in t.args[0] for a, e in m]
                r = FALSE
                for a in ks:
                    r = or_(r, one(a))
                return r
            return FALSE
        if t.op in ('cell', 'dcell', 'at') and not any(d.op == 'mu' for d in t.deps):
            return FALSE
        if any(d.op == 'mu' for d in t.deps) and (t.op in ('mu', 'cell')):
            return batom(mk('isnan', t))
        if t.op in ('draw', 'fn', 'sum', 'prod', 'mod', 'fdiv', 'wrap', 'int'):
            return FALSE
        if t.op == 'fix' or t.op == 'cell':
            return batom(mk('isnan', t))
        return FALSE
    return lift('isnan', one, (x,))


REBUILD['isnan'] = isnan_term


# ================================================================ graphs
def new_graph(it, st):
    return it.alloc(st, 'graph', {'nodes': set_of(lambda x: FALSE), 'edges': set_of(lambda x: FALSE)})


PAIRSETS = set()          # sets whose elements are edges


def graph_edges_seq(it, st, v):
    f = st.heap[v].f
    E = set_simplify(it.simp(st, f['edges']), it.facts(st))
    PAIRSETS.update(leaves(E))
    return enum(E)


def edge_pair(it, st, e):
    e = it.deep(st, e)
    return pair_get(e, 0), pair_get(e, 1)


def graph_method(it, st, v, name, args, kwargs):
    f = st.heap[v].f
    A = [it.deep(st, a) for a in args]
    if name == 'add_node':
        it.setf(st, v, 'nodes', set_add(f['nodes'], A[0]))
        for k, x in kwargs.items():
            key = 'a:' + k
            it.setf(st, v, key, dput(st.heap[v].f.get(key, dct(NIL)), A[0], x))
        return NONE
    if name == 'add_nodes_from':
        it.setf(st, v, 'nodes', set_union(f['nodes'], set_of_seq(it.freeze(st, it.seq(st, args[0]), -1))))
        return NONE
    if name in ('add_edge', 'remove_edge'):
        e = tup(A[0], A[1])
        if name == 'add_edge':
            it.setf(st, v, 'edges', set_add(f['edges'], e))
            it.setf(st, v, 'nodes', set_add(set_add(f['nodes'], A[0]), A[1]))
        else:
            c = smember(e, it.simp(st, f['edges']))
            it.raise_if(st, not_(c), 'NetworkXError')
            it.setf(st, v, 'edges', set_del(st.heap[v].f['edges'], e))
        return NONE
    if name in ('add_edges_from', 'remove_edges_from'):
        s = it.freeze(st, it.seq(st, args[0]), -1)
        s = seq_map(s, lambda e: e if isinstance(sort_of(e), tuple) and sort_of(e)[0] == 'pair' and len(sort_of(e)) == 3
                    else tup(pair_get(e, 0), pair_get(e, 1)))
        es = set_of_seq(s)
        if name == 'add_edges_from':
            it.setf(st, v, 'edges', set_union(f['edges'], es))
            ends = seq(seq_map(s, lambda e: pair_get(e, 0)), seq_map(s, lambda e: pair_get(e, 1)))
            it.setf(st, v, 'nodes', set_union(f['nodes'], set_of_seq(ends)))
        else:
            it.setf(st, v, 'edges', set_diff(f['edges'], es))
        return NONE
    if name == 'remove_node':
        c = smember(A[0], it.simp(st, f['nodes']))
        it.raise_if(st, not_(c), 'NetworkXError')
        it.setf(st, v, 'nodes', set_del(f['nodes'], A[0]))
        it.setf(st, v, 'edges', set_filter(f['edges'], lambda e: and_(ne(pair_get(e, 0), A[0]), ne(pair_get(e, 1), A[0]))))
        for k in list(f):
            if k.startswith('a:'):
                it.setf(st, v, k, ddel(f[k], A[0]))
        return NONE
    if name == 'remove_nodes_from':
        s = set_of_seq(it.freeze(st, it.seq(st, args[0]), -1))
        it.setf(st, v, 'nodes', set_diff(f['nodes'], s))
        it.setf(st, v, 'edges', set_filter(f['edges'], lambda e: and_(not_(smember(pair_get(e, 0), s)),
                                                                     not_(smember(pair_get(e, 1), s)))))
        return NONE
    if name == 'clear':
        it.setf(st, v, 'nodes', set_of(lambda x: FALSE))
        it.setf(st, v, 'edges', set_of(lambda x: FALSE))
        return NONE
    if name == 'clear_edges':
        it.setf(st, v, 'edges', set_of(lambda x: FALSE))
        return NONE
    if name == 'has_edge':
        return smember(tup(A[0], A[1]), it.simp(st, f['edges']))
    if name in ('has_node', '__contains__'):
        return smember(A[0], it.simp(st, f['nodes']))
    if name == 'has_predecessor':
        return smember(tup(A[1], A[0]), f['edges'])
    if name == 'has_successor':
        return smember(tup(A[0], A[1]), f['edges'])
    if name in ('predecessors', 'pred_iter'):
        return it.new_list(st, enum(pred_set(it.simp(st, f['edges']), A[0])))
    if name in ('successors', 'neighbors'):
        return it.new_list(st, enum(succ_set(it.simp(st, f['edges']), A[0])))
    if name == 'in_edges':
        if A:
            n = A[0]
            return it.new_list(st, seq_map(enum(pred_set(it.simp(st, f['edges']), n)), lambda p: tup(p, n)))
        return it.new_list(st, graph_edges_seq(it, st, v))
    if name == 'out_edges':
        if A:
            n = A[0]
            return it.new_list(st, seq_map(enum(succ_set(it.simp(st, f['edges']), n)), lambda p: tup(n, p)))
        return it.new_list(st, graph_edges_seq(it, st, v))
    if name == 'edges':
        return it.new_list(st, graph_edges_seq(it, st, v))
    if name == 'nodes':
        return it.new_list(st, enum(f['nodes']))
    if name == 'in_degree':
        return card(pred_set(it.simp(st, f['edges']), A[0])) if A else it.unk('in_degree')
    if name == 'out_degree':
        return card(succ_set(it.simp(st, f['edges']), A[0])) if A else it.unk('out_degree')
    if name == 'number_of_edges':
        return card(f['edges'])
    if name in ('number_of_nodes', 'order', '__len__'):
        return card(f['nodes'])
    if name in ('copy', 'to_directed'):
        return it.alloc(st, 'graph', dict(f))
    if name == 'reverse':
        g = it.alloc(st, 'graph', dict(f))
        it.setf(st, g, 'edges', set_of(lambda x: smember(tup(pair_get(x, 1), pair_get(x, 0)), f['edges'])))
        return g
    return it.unk('graph method ' + name, v)


def pred_set(E, n):
    return vg._mapl(E, lambda e: set_of(lambda x: smember(tup(x, n), e)))


def succ_set(E, n):
    return vg._mapl(E, lambda e: set_of(lambda x: smember(tup(n, x), e)))


# ================================================================ attributes
NO_LEN = ()


def none_left(n):
    """a length that may come out negative (slices are not cut off at zero) counts as empty"""
    lo = vg._extreme(n, 1) if n.op != 'ite' else None
    return eq(n, ZERO) if lo is not None and lo >= 0 else not_(lt(ZERO, n))


def attr(it, st, v, name):
    k = it.kind(st, v)
    if k == 'arr' or k == 'ser':
        a = it.arr(st, v)
        la = [l for l in leaves(a)]
        if all(arr_dims(l) is not None for l in la):
            if name == 'shape':
                return vg._mapl(a, lambda l: mk('tup', *shape_of(l)))
            if name == 'size':
                return vg._mapl(a, lambda l: arr_size(l))
            if name == 'ndim':
                return num(len(arr_dims(la[0])))
            if name == 'T':
                if len(arr_dims(la[0])) == 1:
                    return v
                ds = arr_dims(la[0])
                return view_or_copy(it, st, v, perm_view(ds, list(range(len(ds)))[::-1]))
            if name == 'values' or name == 'array':
                return shared_arr(it, st, a, v.args[3] if len(v.args) > 3 else None) if v.op == 'ser' else it.new_arr(st, a)
            if name == 'dtype':
                return mk('dtype', arr_dtype(la[0]))
            if name == 'empty':
                return vg._mapl(a, lambda l: none_left(arr_size(l)))
            if name == 'flat':
                return it.new_arr(st, reshape_to(it, st, a, [num(-1)]))
            if name == 'name' and v.op == 'ser':
                return v.args[1]
            if name in ('iloc', 'loc', 'at', 'iat') and v.op == 'ser':
                return mk('acc', name, v)
            if name == 'nbytes' or name == 'itemsize':
                return it.unk('attribute ' + name)
    if k == 'frame':
        cols, n, idx = fparts(it, st, v)
        if name in ('iloc', 'loc', 'at', 'iat'):
            return mk('acc', name, v)
        if name == 'columns':
            return mk('cols', labels_of(cols))
        if name == 'empty':
            return or_(none_left(row_count(it, st, v)), eq(slen(cols), ZERO))
        if name == 'values':
            return shared_arr(it, st, frame_to_numpy(it, st, v), v)
        if name == 'shape':
            return mk('tup', row_count(it, st, v), slen(cols))
        if name == 'size':
            return mul(row_count(it, st, v), slen(cols))
        if name == 'index':
            return it.new_arr(st, index_arr(idx, n))
        if name == 'T':
            return it.unk('frame transpose')
        if name in ('ndim',):
            return num(2)
        if name == 'dtypes':
            return it.unk('dtypes')
        if name not in FRAME_METHODS:
            c, a = fcol(it, st, v, const(name))
            if c is not FALSE:
                return ser(a, const(name), idx, v)
    if k == 'cols':
        if name in ('values', 'array'):
            return it.new_arr(st, seq_to_arr1(v.args[0], 'obj'))
        if name == 'empty':
            return eq(slen(v.args[0]), ZERO)
        if name == 'size':
            return slen(v.args[0])
    if k == 'graph':
        if name in ('nodes', 'edges', 'adj', 'pred', 'succ', '_node', '_adj', '_pred', '_succ'):
            return {'nodes': mk('acc', 'gnodes', v), 'edges': mk('acc', 'gedges', v), 'adj': mk('acc', 'gadj', v),
                    'pred': mk('acc', 'gpredall', v), 'succ': mk('acc', 'gadj', v), '_node': mk('acc', 'gnodes', v),
                    '_adj': mk('acc', 'gadj', v), '_pred': mk('acc', 'gpredall', v), '_succ': mk('acc', 'gadj', v)}[name]
    if v.op == 'rowser' and name in ('at', 'loc', 'iloc', 'iat'):
        return mk('acc', name, v)
    if v.op == 'rowser' and name in ('values',):
        return rowser_values(it, st, v)
    if v.op == 'exc' and name == 'args':
        return mk('tup', *v.args[1])
    if v.op in ('func', 'clo', 'bound', 'cls') and name in ('__name__', '__qualname__', '__doc__'):
        return mk('c', 's', v.args[0] if isinstance(v.args[0], str) else '?')
    if name == '__class__':
        return mk('typeof', v) if v.op != 'ref' else mk('cls', st.heap[v].cls.name) if st.heap[v].cls else mk('ext', 'builtins.' + k)
    if v.op == 'unk':
        return mk('unk', 'attribute of unknown', (v,))
    if k == 'dict' and False:
        pass
    if k == 'num' and name in ('real',):
        return v
    if k == 'none':
        it.raise_if(st, TRUE, 'AttributeError')
    return mk('bmeth', v, name)


FRAME_METHODS = {'shift', 'diff', 'fillna', 'astype', 'copy', 'assign', 'where', 'dropna', 'to_numpy', 'to_records', 'append',
                 'infer_objects', 'to_json', 'reset_index', 'drop', 'rename', 'iterrows', 'itertuples', 'items', 'iteritems',
                 'to_dict', 'get', 'query', 'head', 'tail', 'apply', 'sort_values', 'sort_index', 'set_index', 'isin', 'equals',
                 'insert', 'pop', 'keys', 'sum', 'mean', 'any', 'all', 'to_csv', 'info', 'describe', 'eq', 'ne', 'isna', 'isnull',
                 'notna', 'join', 'merge', 'concat', 'reindex', 'groupby', 'stack', 'unique', 'drop_duplicates', 'round', 'mask',
                 'to_list', 'tolist', 'convert_dtypes', 'ffill', 'bfill', 'add', 'sub', 'mul', 'div', 'count', 'max', 'min',
                 'sample', 'squeeze', 'transpose', 'applymap', 'update', 'filter', 'select_dtypes', 'pivot', 'map', 'replace'}


def set_attr(it, st, v, name, x):
    k = it.kind(st, v)
    if k == 'frame' and v.op == 'ref':
        if name == 'columns':
            frame_mutated(it, st, v)
            cols, n, idx = fparts(it, st, v)
            new = it.freeze(st, it.seq(st, x), -1)
            it.setf(st, v, 'cols', relabel(it, st, cols, new))
            return
        if name == 'index':
            frame_mutated(it, st, v)
            it.setf(st, v, 'idx', it.arr(st, x))
            return
        if name == 'name':
            return
        frame_setcol(it, st, v, const(name), x)
        return
    if k == 'arr' and name == 'shape' and v.op == 'ref' and st.heap[v].kind == 'arr':
        it.setf(st, v, 'a', reshape_to(it, st, it.arr(st, v), [p.args[0] for p in it.seq(st, x).args]))
        return
    if k == 'arr' and name == 'flat' and v.op == 'ref':
        a = it.arr(st, v)
        if a.op != 'ite' and arr_dims(a) is not None:
            from . import calls
            arr_set(it, st, calls.reshape(it, st, v, [num(-1)]), mk('slice', NONE, NONE, NONE), x)
            return
    it.unk('attribute store ' + name)
    it.event(st, 'lost-store', what=name)


def relabel(it, st, cols, new):
    """the columns with new labels, by position"""
    def one(c, nw):
        out = []
        off = ZERO
        for p in c.args:
            if p.op == 'el':
                out.append(vg.lst(tup(sat(nw, off), pair_get(p.args[0], 1))))
                off = add(off, ONE)
            else:
                n = vg._piece_len(p)
                w = fresh(n)
                out.append(make_flat([w], (vg.lst(tup(it.simp(st, sat(nw, add(off, w))), pair_get(vg._piece_at(p, w), 1))),)))
                off = add(off, n)
        return seq(*out) if out else NIL
    return lift('relabel', one, (cols, new))


def row_count(it, st, v):
    return vg._mapl(row_count0(it, st, v), at_least_none)


def at_least_none(n):
    lo = vg._extreme(n, 1)
    return n if lo is None or lo >= 0 else ite(lt(ZERO, n), n, ZERO)


def row_count0(it, st, v):
    cols, n, idx = fparts(it, st, v)
    if cols.op == 'seq' and cols.args:
        p = cols.args[0]
        a = pair_get(p.args[0], 1) if p.op == 'el' else None
        if a is not None and a.op == 'arr':
            return arr_len0(a)
        if p.op == 'flat' and vg._unit(p.args[2][0]):
            w = fresh(p.args[1][0])
            x = vg._piece_at(p, w)
            a = pair_get(x, 1)
            if a.op == 'arr' and a.args[2][0] is not TRUE:
                l = arr_len0(a)
                if w not in l.deps:
                    return l
    return n


def arr_size(a):
    vs = [fresh(d) for d in arr_dims(a)]
    g = arr_guard(a, *vs)
    if g is TRUE:
        r = ONE
        for d in arr_dims(a):
            r = mul(r, d)
        return r
    return make_sum(vs, (ite(g, ONE, ZERO),))


def rowser_values(it, st, v):
    f, pos_ = v.args
    if f.op != 'frame':
        return mk('unk', 'row values')
    cols = f.args[0]

    def one(c):
        m = slen(c)
        k = fresh(m)
        col = col_at(it, st, c, k)
        e = lift('sercell', lambda x, i: vg.cell(x, i), (col, pos_))
        return make_arr([k], (TRUE, e), (elem_dtype(e),))
    return it.new_arr(st, vg._mapl(cols, one))


def ext_attr(it, st, dotted):
    c = {'numpy.nan': NAN, 'numpy.NaN': NAN, 'numpy.NAN': NAN, 'numpy.inf': INF, 'numpy.Inf': INF, 'math.inf': INF,
         'math.nan': NAN, 'numpy.newaxis': NONE}.get(dotted)
    if c is not None:
        return c
    if dotted in ('math.pi', 'numpy.pi'):
        return sym('pi', 'num')
    if dotted in ('math.e', 'numpy.e'):
        return sym('e', 'num')
    return mk('ext', dotted)


from .calls import reshape_to, format_percent      # noqa: E402
from .extcalls import call_method, call_ext        # noqa: E402
