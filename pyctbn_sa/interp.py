"""Builds the gated value graph of a function of the analysed program.

Structured abstract interpretation over the syntax tree: joins merge values by
their conditions, calls into the analysed program are resolved and summarised
in place, library calls go through models, loops are summarised once (with
symbols for the loop-carried locations) and closed into binders.
"""
import ast
from .vg import *
from . import vg
from .loader import Cls, Func, Module


class Dead(Exception):
    """no execution continues"""


class Unsupported(Exception):
    pass


class Cell(object):
    __slots__ = ('kind', 'f', 'cls', 'view')

    def __init__(self, kind, f, cls=None, view=None):
        self.kind, self.f, self.cls, self.view = kind, f, cls, view

    def put(self, k, v):
        f = dict(self.f)
        f[k] = v
        return Cell(self.kind, f, self.cls, self.view)

    def __repr__(self):
        return '%s%s' % (self.cls.name if self.cls else self.kind, {k: v for k, v in self.f.items()})


UNB = mk('unbound')
NODATA = dct(vg.NIL)        # no node has the attribute


class State(object):
    __slots__ = ('cond', 'heap', 'env', 'val', 'draws')

    def __init__(self):
        self.cond, self.heap, self.env, self.val, self.draws = TRUE, {}, [{}], NONE, {}

    def fork(self, c=None):
        s = State()
        s.cond = self.cond if c is None else and_(self.cond, c)
        s.heap = dict(self.heap)
        s.env = [dict(e) for e in self.env]
        s.val = self.val
        s.draws = dict(self.draws)
        return s

    def become(self, o):
        self.cond, self.heap, self.env, self.val, self.draws = o.cond, o.heap, o.env, o.val, o.draws

    @property
    def dead(self):
        return self.cond is FALSE


def merge(a, b):
    if a is None or a.cond is FALSE:
        return b
    if b is None or b.cond is FALSE:
        return a
    tot = or_(a.cond, b.cond)
    d = simplify_under(a.cond, tot) if tot is not TRUE else a.cond
    s = State()
    s.cond = tot

    def m(x, y):
        if x is y:
            return x
        if x is None or x is UNB:
            return y
        if y is None or y is UNB:
            return x
        return ite(d, x, y)
    s.env = []
    for ea, eb in zip(a.env, b.env):
        if ea is eb or ea == eb:
            s.env.append(ea)
        else:
            e = {}
            for k in list(ea) + [k for k in eb if k not in ea]:
                e[k] = m(ea.get(k), eb.get(k))
            s.env.append(e)
    h = dict(a.heap)
    for k, cb in b.heap.items():
        ca = h.get(k)
        if ca is None:
            h[k] = cb
        elif ca is not cb:
            f = {}
            for q in list(ca.f) + [q for q in cb.f if q not in ca.f]:
                dflt = NODATA if ca.kind == 'graph' else None
                f[q] = m(ca.f.get(q, dflt), cb.f.get(q, dflt))
            h[k] = Cell(ca.kind, f, ca.cls, ca.view)
    s.heap = h
    s.val = m(a.val, b.val)
    s.draws = dict(a.draws)
    for k, v in b.draws.items():
        s.draws[k] = max(v, s.draws.get(k, 0))
    return s


class Flows(object):
    __slots__ = ('nxt', 'ret', 'brk', 'cont', 'exc')

    def __init__(self, nxt=None):
        self.nxt, self.ret, self.brk, self.cont, self.exc = nxt, None, None, None, []


class Loop(object):
    """transfer function of a loop that was not closed"""


def is_c(t, kind='s'):
    return t.op == 'c' and t.args[0] == kind


def exc_term(name, *args):
    return mk('exc', name, tuple(args))


EXC_PARENTS = {
    'ValueError': ['Exception'], 'KeyError': ['LookupError', 'Exception'], 'IndexError': ['LookupError', 'Exception'],
    'RuntimeError': ['Exception'], 'TypeError': ['Exception'], 'AttributeError': ['Exception'],
    'ZeroDivisionError': ['ArithmeticError', 'Exception'], 'StopIteration': ['Exception'],
    'NotImplementedError': ['RuntimeError', 'Exception'], 'LookupError': ['Exception'],
    'FileNotFoundError': ['OSError', 'Exception'], 'OSError': ['Exception'], 'AssertionError': ['Exception'],
    'Exception': [], 'ArithmeticError': ['Exception'], 'Empty': ['Exception'],
}

_CLO = []          # closures: (node, module, env, name)


class Interp(object):
    def __init__(self, prog, stubs=None, spec_names=None):
        self.prog = prog
        self.stubs = stubs or {}
        self.unroll = 0
        self.bound_rest = False
        self.nref = 0
        self.events = []
        self.schedule, self.started, self.preempt, self.preempted = None, 0, None, 0
        self.loops = []
        self.loopvars = []
        self.stack = []
        self.pending = []
        self.watch = set()
        self.funcs_seen = {}
        self.calls_seen = {}
        self.assumed = []
        self.depth = 0
        self.nloop = 0
        self.specs = spec_names or {}
        self.cur = None
        self.unmodelled = {}
        self.truncate_facts = {}

    # ------------------------------------------------------------ utilities
    def alloc(self, st, kind, f, cls=None, view=None):
        self.nref += 1
        r = mk('ref', self.nref)
        st.heap[r] = Cell(kind, f, cls, view)
        return r

    def new_list(self, st, s=NIL):
        return self.alloc(st, 'list', {'seq': s})

    def new_arr(self, st, a):
        return self.alloc(st, 'arr', {'a': a})

    def new_set(self, st, s):
        return self.alloc(st, 'set', {'s': s})

    def new_dict(self, st, d=None):
        return self.alloc(st, 'dict', {'d': d if d is not None else dct(NIL)})

    def unk(self, what, *args):
        self.unmodelled[what] = self.unmodelled.get(what, 0) + 1
        return mk('unk', what, tuple(a for a in args if isinstance(a, T)))

    def event(self, st, kind, **kw):
        kw.update(kind=kind, cond=st.cond, line=getattr(self.cur, 'lineno', 0),
                  func=self.stack[-1].qual if self.stack else '?', loops=tuple(self.loopvars),
                  where='%s:%d' % (self.stack[-1].module.rel if self.stack else '?', getattr(self.cur, 'lineno', 0)),
                  callers=tuple(f.qual for f in self.stack))
        self.events.append(kw)

    def cell(self, st, ref):
        return st.heap[ref]

    def setf(self, st, ref, field, val):
        st.heap[ref] = st.heap[ref].put(field, val)

    def facts(self, st):
        k = ('lits', st.cond)
        r = vg._memo.get(k)
        if r is None:
            r = literals(st.cond)
            vg._memo[k] = r
        return r

    def simp(self, st, t):
        """t under the path condition"""
        if t.op != 'ite' or st.cond is TRUE:
            return t
        t = simplify(t, self.facts(st))
        if t.op == 'ite':
            t = simplify_under(t, st.cond)
        return t

    def assume(self, st, c):
        st.cond = and_(st.cond, c)

    def raise_if(self, st, c, name, *args):
        c = self.simp(st, c)
        if c is FALSE:
            return
        s = st.fork(c)
        s.val = exc_term(name, *args)
        if s.cond is not FALSE:
            self.event(s, 'raise', exc=name, implicit=True)
            self.pending.append(s)
        st.cond = and_(st.cond, not_(c))
        if st.cond is FALSE:
            raise Dead()

    def branch(self, st, c, f, g):
        """run f or g depending on c, merging the states; returns the merged value"""
        c = self.simp(st, c)
        if c is TRUE:
            return f(st)
        if c is FALSE:
            return g(st)
        a, b = st.fork(c), st.fork(not_(c))
        ra = rb = None
        for s, fn_, which in ((a, f, 0), (b, g, 1)):
            if s.cond is FALSE:
                continue
            try:
                s.val = fn_(s)
                if which == 0:
                    ra = s
                else:
                    rb = s
            except Dead:
                pass
        m = merge(ra, rb)
        if m is None:
            st.cond = FALSE
            raise Dead()
        v = m.val
        keep = st.val
        st.become(m)
        st.val = keep
        return v

    def each(self, st, v, f):
        """apply f(leaf, state) to every alternative of v"""
        v = self.simp(st, v)
        if v.op != 'ite':
            return f(v, st)
        if v.args[1] in (TRUE, FALSE) and v.args[2] in (TRUE, FALSE):
            return f(v, st)
        a = batom(v.args[0])
        return self.branch(st, a, lambda s: self.each(s, v.args[1], f), lambda s: self.each(s, v.args[2], f))

    def kind(self, st, v):
        op = v.op
        if op == 'ref':
            k = st.heap[v].kind
            return 'arr' if k == 'view' else k
        if op == 'ite':
            ks = {self.kind(st, l) for l in leaves(v)}
            if len(ks) == 1:
                return ks.pop()
            if ks <= {'num', 'bool'}:
                return 'num'
            ks.discard('none')
            return ks.pop() if len(ks) == 1 else None
        if op == 'arr':
            return 'arr'
        if op in ('lst', 'seq'):
            return 'list'
        if op == 'tup':
            return 'tuple'
        if op in ('setc',):
            return 'set'
        if op in ('dct', 'dput', 'ddel'):
            return 'dict'
        if op in ('frame', 'ser', 'graphv', 'obj', 'func', 'cls', 'ext', 'mod', 'clo', 'bound', 'bmeth', 'exc', 'iter',
                  'unk', 'cols'):
            return op
        if v is TRUE or v is FALSE:
            return 'bool'
        if v is NONE:
            return 'none'
        if op == 'c' and v.args[0] == 's' or op in ('scat', 'str'):
            return 'str'
        s = sort_of(v)
        if s in ('int', 'num'):
            return 'num'
        if isinstance(s, tuple):
            return {'list': 'list', 'arr': 'arr', 'dict': 'dict', 'obj': 'objsym', 'pair': 'tuple'}.get(s[0], s[0])
        if s is not None:
            return s
        if is_numeric(v):
            return 'num'
        return None

    # ------------------------------------------------------------ freezing
    def freeze(self, st, v, since=0, seen=()):
        """value with the references allocated after `since` replaced by immutable values"""
        refs = {}
        views = {}
        cols = []

        def find(t, memo):
            if t.id in memo:
                return
            memo.add(t.id)
            if t.op == 'ser' and len(t.args) > 3:
                cols.append(t)
                for k in t.args[:3]:
                    find(k, memo)
                return
            if t.op == 'ref' and t.args[0] > since:
                refs[t] = True
            elif t.op == 'acc' and t.args[0] in ('gnodes', 'gedges') and isinstance(t.args[1], T) and \
                    t.args[1].op == 'ref' and t.args[1].args[0] > since:
                views[t] = True
                return
            for k in vg._kids(t.args, []):
                find(k, memo)
        find(v, set())
        for t in cols:
            v = replace_term(v, t, mk('ser', *t.args[:3]))
        for t in views:
            v = replace_term(v, t, self.freeze(st, st.heap[t.args[1]].f['nodes' if t.args[0] == 'gnodes' else 'edges'],
                                               since, seen))
        if not refs:
            return v
        for r in list(refs):
            if r in seen:
                v = replace_term(v, r, mk('unk', 'cyclic value'))
                continue
            v = replace_term(v, r, self.freeze_ref(st, r, since, seen + (r,)))
        return v

    def freeze_ref(self, st, r, since, seen):
        c = st.heap[r]
        fz = lambda t: self.freeze(st, t, since, seen)
        if c.kind == 'list' or c.kind == 'queue':
            return lift('lst', lambda s: mk('lst', s), (fz(c.f['seq']),))
        if c.kind == 'dict':
            return fz(c.f['d'])
        if c.kind == 'set':
            return fz(c.f['s'])
        if c.kind in ('arr', 'view'):
            return fz(self.arr(st, r))
        if c.kind == 'inst':
            return mk('obj', c.cls.name, tuple((k, fz(x)) for k, x in sorted(c.f.items())))
        if c.kind == 'frame':
            return mk('frame', fz(c.f['cols']), fz(c.f['n']), fz(c.f['idx']))
        if c.kind == 'graph':
            return mk('graphv', tuple((k, fz(x)) for k, x in sorted(c.f.items())))
        return mk('misc', c.kind, tuple((k, fz(x)) for k, x in sorted(c.f.items())))

    def deep(self, st, v):
        return self.freeze(st, v, -1)

    def thaw(self, st, v):
        """fresh cell with the contents of an immutable value"""
        if v.op == 'lst':
            return self.new_list(st, v.args[0])
        if v.op in ('dct', 'dput', 'ddel'):
            return self.new_dict(st, v)
        if v.op == 'setc':
            return self.new_set(st, v)
        if v.op == 'arr':
            return self.new_arr(st, v)
        if v.op == 'obj':
            return self.alloc(st, 'inst', {k: x for k, x in v.args[1]}, self.prog.classes.get(v.args[0]))
        if v.op == 'frame':
            return self.alloc(st, 'frame', {'cols': v.args[0], 'n': v.args[1], 'idx': v.args[2]})
        if v.op == 'graphv':
            return self.alloc(st, 'graph', {k: x for k, x in v.args[0]})
        return v

    # ------------------------------------------------------------ readers
    def seq(self, st, v):
        """the elements of an iterable as a sequence term"""
        v = self.simp(st, v)
        if v.op == 'ite':
            return vg._mapl(v, lambda l: self.seq(st, l))
        if v.op == 'ref':
            c = st.heap[v]
            if c.kind in ('list', 'queue'):
                return self.simp(st, c.f['seq'])
            if c.kind == 'dict':
                return seq_map(ditems(c.f['d']), lambda p: pair_get(p, 0))
            if c.kind == 'set':
                return enum(set_simplify(self.simp(st, c.f['s']), self.facts(st)))
            if c.kind in ('arr', 'view'):
                return as_seq(self.arr(st, v))
            if c.kind == 'frame':
                return seq_map(c.f['cols'], lambda p: pair_get(p, 0))
            if c.kind == 'graph':
                return enum(c.f['nodes'])
        if v.op in ('dct', 'dput', 'ddel'):
            return seq_map(ditems(v), lambda p: pair_get(p, 0))
        if v.op == 'setc' or sort_of(v) == 'set':
            return enum(v)
        if v.op == 'ser':
            return as_seq(v.args[0])
        if v.op == 'acc' and v.args[0] in ('gnodes', 'gedges') and v.args[1].op == 'ref':
            from . import models
            E = self.simp(st, st.heap[v.args[1]].f['nodes' if v.args[0] == 'gnodes' else 'edges'])
            if v.args[0] == 'gedges' and E.op == 'ite':
                return as_seq(v)
            if v.args[0] == 'gedges':
                models.PAIRSETS.update(leaves(E))
            return enum(E)
        if v.op == 'iter':
            if len(v.args) > 1:
                return seq_map(v.args[0], lambda x: self.freeze(st, self.wrap_elem(st, v.args[1], x), -1))
            return v.args[0]
        if v.op == 'frame':
            return seq_map(v.args[0], lambda p: pair_get(p, 0))
        k = self.kind(st, v)
        if k == 'dict':
            return seq_map(ditems(v), lambda p: pair_get(p, 0))
        if v.op == 'c' and v.args[0] == 's':
            return lst(*[const(ch) for ch in v.args[1]])
        return as_seq(v)

    def arr(self, st, v):
        """array term of an array-like value"""
        v = self.simp(st, v)
        if v.op == 'ite':
            return vg._mapl(v, lambda l: self.arr(st, l))
        if v.op == 'ref':
            c = st.heap[v]
            if c.kind == 'arr':
                return self.simp(st, c.f['a'])
            if c.kind == 'view':
                base, vm = c.view
                return vm.read(self.arr(st, base))
            if c.kind == 'list':
                return self.list_to_arr(st, c.f['seq'])
            if c.kind == 'frame':
                from . import models
                return models.frame_to_numpy(self, st, v)
        if v.op == 'ser':
            return v.args[0]
        if v.op == 'arr':
            return v
        if v.op in ('tup', 'lst', 'seq'):
            return self.list_to_arr(st, as_seq(v))
        s = sort_of(v)
        if isinstance(s, tuple) and s[0] == 'arr':
            return v
        if isinstance(s, tuple) and s[0] == 'list':
            return self.list_to_arr(st, as_seq(v))
        return v

    def seq_parts(self, st, v):
        """the elements of a tuple or list of known length"""
        v = self.simp(st, v)
        if v.op == 'tup':
            return list(v.args)
        s = self.seq(st, v)
        if s.op == 'seq' and all(p.op == 'el' for p in s.args):
            return [p.args[0] for p in s.args]
        return [mk('star', s)]

    def is_arrlike(self, st, v):
        k = self.kind(st, v)
        return k in ('arr', 'ser')

    def list_to_arr(self, st, s):
        """array from a (possibly nested) sequence"""
        s = self.simp(st, s)
        if s.op == 'ite':
            return vg._mapl(s, lambda l: self.list_to_arr(st, l))
        # element representation
        elems = self.seq_elem_kinds(st, s)
        if not any(k in ('list', 'tuple', 'arr', 'ser') for k in elems):
            return seq_to_arr1(s)
        # nested: stack rows of equal length
        def conv(x):
            return self.arr(st, x)
        s2 = seq_map(s, conv)
        n = slen(s2)
        v = fresh(n)
        row = sat(s2, v)
        rows = leaves(row)
        if any(arr_dims(r) is None for r in rows):
            return mk('unk', 'ragged array', (s,))
        dims = arr_dims(rows[0])
        if any(len(arr_dims(r)) != len(dims) for r in rows) or any(v in d.deps for d in dims):
            return seq_to_arr1(s, 'obj')
        ws = [fresh(d) for d in dims]
        el_ = lift(('rowcell', tuple(ws)), lambda r: vg.cell(r, *ws), (row,))
        g = lift(('rowguard', tuple(ws)), lambda r: arr_guard(r, *ws), (row,))
        return make_arr([v] + ws, (g, el_), (elem_dtype(el_),))

    def seq_elem_kinds(self, st, s):
        out = set()
        for leaf in leaves(s):
            if leaf.op != 'seq':
                continue
            for p in leaf.args:
                if p.op == 'el':
                    out.add(self.kind(st, p.args[0]))
                elif p.op == 'spl':
                    es = sort_of(p.args[0])
                    v = fresh(length_of(p.args[0]))
                    out.add(self.kind(st, at(p.args[0], v)))
                else:
                    (v,), (b,) = open_binder(p)
                    out |= self.seq_elem_kinds(st, b)
        return out

    # ------------------------------------------------------------ truth
    def truth(self, st, v):
        v = self.simp(st, v)
        if v.op == 'ite' and not (v.args[1] in (TRUE, FALSE) and v.args[2] in (TRUE, FALSE)):
            return vg._mapl(v, lambda l: self.truth(st, l))
        if v.op == 'ref':
            c = st.heap[v]
            if c.kind == 'list' or c.kind == 'queue' and c.f.get('as') is const('deque'):
                return ne(slen(c.f['seq']), ZERO)
            if c.kind == 'dict':
                return ne(slen(ditems(c.f['d'])), ZERO)
            if c.kind == 'set':
                return ne(card(c.f['s']), ZERO)
            if c.kind in ('arr', 'view'):
                a = self.arr(st, v)
                ds = arr_dims(a)
                if ds is not None and all(d is ONE for d in ds):
                    return truth(vg.cell(a, *[ZERO] * len(ds)))
                return truth(mk('unk', 'truth of an array', (a,)))
            if c.kind == 'inst' and c.cls is not None:
                for nm in ('__bool__', '__len__'):
                    m = c.cls.lookup(nm)
                    if m is not None:
                        return truth(self.call_func(m, [v], {}, st))
            return TRUE
        if v.op == 'setc' or sort_of(v) == 'set':
            return ne(card(v), ZERO)
        if v.op in ('dct', 'dput', 'ddel'):
            return ne(slen(ditems(v)), ZERO)
        if v.op == 'graphv' or v.op == 'frame':
            return TRUE
        return truth(v)

    # ------------------------------------------------------------ blocks
    def run_block(self, stmts, st):
        """Flows of a statement list"""
        fl = Flows(st)
        for s in stmts:
            if fl.nxt is None or fl.nxt.cond is FALSE:
                fl.nxt = None
                break
            r = self.run_stmt(s, fl.nxt)
            fl.nxt = r.nxt
            fl.ret = merge(fl.ret, r.ret)
            fl.brk = merge(fl.brk, r.brk)
            fl.cont = merge(fl.cont, r.cont)
            fl.exc += r.exc
        return fl

    def run_stmt(self, s, st):
        prev, self.cur = self.cur, s
        outer, self.pending = self.pending, []
        try:
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                self.unk('statement ' + type(s).__name__)
                fl = Flows(st)
            else:
                try:
                    fl = m(s, st)
                    if fl is None:
                        fl = Flows(st)
                except Dead:
                    fl = Flows(None)
            fl.exc = self.pending + fl.exc
            if fl.nxt is not None and fl.nxt.cond is FALSE:
                fl.nxt = None
            return fl
        finally:
            self.pending = outer
            self.cur = prev

    def s_Expr(self, s, st):
        v = self.eval(s.value, st)
        if v is not None and v.op == 'unk':
            self.event(st, 'lost-store', what=str(v.args[0]))

    def s_Pass(self, s, st):
        return Flows(st)

    def s_Import(self, s, st):
        for a in s.names:
            dotted = a.name if a.asname else a.name.split('.')[0]
            st.env[-1][a.asname or a.name.split('.')[0]] = mk('mod', dotted) if dotted in self.prog.modules else mk('ext', dotted)

    def s_ImportFrom(self, s, st):
        m = self.stack[-1].module
        base = self.prog._base(m, s)
        for a in s.names:
            if base in self.prog.modules:
                r = self.prog.resolve(self.prog.modules[base], a.name)
                st.env[-1][a.asname or a.name] = self.binding(r, st)
            else:
                st.env[-1][a.asname or a.name] = mk('ext', base + '.' + a.name)

    def s_Global(self, s, st):
        self.event(st, 'global', names=tuple(s.names))

    s_Nonlocal = s_Global

    def s_FunctionDef(self, s, st):
        st.env[-1][s.name] = self.closure(s, st)

    def closure(self, node, st, name=None):
        _CLO.append((node, self.stack[-1].module if self.stack else None, [dict(e) for e in st.env[-1:]],
                     self.stack[-1] if self.stack else None))
        return mk('clo', len(_CLO) - 1)

    def s_Return(self, s, st):
        st.val = self.eval(s.value, st) if s.value is not None else NONE
        fl = Flows(None)
        fl.ret = st
        return fl

    def s_Break(self, s, st):
        fl = Flows(None)
        fl.brk = st
        return fl

    def s_Continue(self, s, st):
        fl = Flows(None)
        fl.cont = st
        return fl

    def s_Raise(self, s, st):
        name, args = 'Exception', ()
        if s.exc is not None:
            v = self.eval(s.exc, st)
            if v.op == 'exc':
                name, args = v.args
            elif v.op == 'ext':
                name = v.args[0].split('.')[-1]
            elif v.op == 'cls':
                name = v.args[0]
            elif v.op == 'ref':
                name = st.heap[v].cls.name if st.heap[v].cls else 'Exception'
            else:
                name = '?'
        elif self.handling:
            name = self.handling[-1]
        st.val = exc_term(name, *args)
        self.event(st, 'raise', exc=name, implicit=False)
        fl = Flows(None)
        fl.exc = [st]
        return fl

    handling = []

    def s_Assert(self, s, st):
        c = self.truth(st, self.eval(s.test, st))
        self.raise_if(st, not_(c), 'AssertionError')

    def s_If(self, s, st):
        c = self.simp(st, self.truth(st, self.eval(s.test, st)))
        if c is TRUE:
            return self.run_block(s.body, st)
        if c is FALSE:
            return self.run_block(s.orelse, st)
        a, b = st.fork(c), st.fork(not_(c))
        fa = self.run_block(s.body, a) if a.cond is not FALSE else Flows(None)
        fb = self.run_block(s.orelse, b) if b.cond is not FALSE else Flows(None)
        return self.join(fa, fb)

    def join(self, fa, fb):
        f = Flows(merge(fa.nxt, fb.nxt))
        f.ret = merge(fa.ret, fb.ret)
        f.brk = merge(fa.brk, fb.brk)
        f.cont = merge(fa.cont, fb.cont)
        f.exc = fa.exc + fb.exc
        return f

    def s_With(self, s, st):
        if len(s.items) > 1:
            inner = ast.copy_location(ast.With(items=s.items[1:], body=s.body), s)
            return self.s_With(ast.copy_location(ast.With(items=s.items[:1], body=[inner]), s), st)
        for item in s.items:
            c = item.context_expr
            if isinstance(c, ast.Call) and ast.unparse(c.func).split('.')[-1] == 'suppress' and not c.keywords:
                t = ast.Tuple(elts=list(c.args), ctx=ast.Load())
                h = ast.ExceptHandler(type=t, name=None, body=[ast.Pass()])
                tr = ast.Try(body=s.body, handlers=[h] if c.args else [], orelse=[], finalbody=[])
                return self.s_Try(ast.fix_missing_locations(ast.copy_location(tr, s)), st)
            v = self.eval(c, st)
            kind = st.heap[v].kind if v.op == 'ref' else None
            if kind == 'inst':
                return self.with_object(v, item, s, st)
            if kind == 'pool':
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, v, st)
                fl = self.run_block(s.body, st)
                for q in [fl.nxt, fl.ret, fl.brk, fl.cont] + list(fl.exc):
                    if q is not None and v in q.heap:
                        self.setf(q, v, 'ended', TRUE)
                return fl
            if v.op == 'unk':
                self.event(st, 'lost-store', what='context manager ' + ast.unparse(c)[:40])
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, st)
        return self.run_block(s.body, st)

    def s_ClassDef(self, s, st):
        st.env[-1][s.name] = self.unk('class defined in a function')

    def with_object(self, v, item, s, st):
        """a context manager of the program: entered, and left on every way out (an exception it swallows is not modelled)"""
        r = self.call(self.getattr(v, '__enter__', st), [], {}, st)
        if item.optional_vars is not None:
            self.assign(item.optional_vars, r, st)
        fl = self.run_block(s.body, st)
        for k in ('nxt', 'ret', 'brk', 'cont'):
            q = getattr(fl, k)
            if q is not None:
                keep = q.val
                self.call(self.getattr(v, '__exit__', q), [NONE, NONE, NONE], {}, q)
                q.val = keep
        for q in fl.exc:
            keep = q.val
            r = self.call(self.getattr(v, '__exit__', q), [mk('opq', 'exception type', keep), keep, mk('opq', 'traceback')], {}, q)
            if r is not NONE and r is not FALSE:
                self.event(q, 'lost-store', what='context manager that may swallow an exception')
            q.val = keep
        return fl

    def s_Try(self, s, st):
        fl = self.run_block(s.body, st)
        rest = []
        out = Flows(None)
        if s.orelse and fl.nxt is not None:
            r = self.run_block(s.orelse, fl.nxt)
            fl.nxt = r.nxt
            fl.ret, fl.brk, fl.cont = merge(fl.ret, r.ret), merge(fl.brk, r.brk), merge(fl.cont, r.cont)
            rest += r.exc
        for e in fl.exc:
            name = e.val.args[0] if e.val.op == 'exc' else '?'
            done = False
            for h in s.handlers:
                if self.exc_match(h.type, name, e):
                    s2 = e
                    if h.name:
                        s2.env[-1][h.name] = e.val
                    self.handling = self.handling + [name]
                    r = self.run_block(h.body, s2)
                    self.handling = self.handling[:-1]
                    self.event(s2, 'except', exc=name)
                    fl.nxt = merge(fl.nxt, r.nxt)
                    fl.ret, fl.brk, fl.cont = merge(fl.ret, r.ret), merge(fl.brk, r.brk), merge(fl.cont, r.cont)
                    rest += r.exc
                    done = True
                    break
            if not done:
                rest.append(e)
        fl.exc = rest
        if s.finalbody:
            out = Flows(None)
            for k in ('nxt', 'ret', 'brk', 'cont'):
                x = getattr(fl, k)
                if x is None:
                    continue
                v = x.val
                r = self.run_block(s.finalbody, x)
                if r.nxt is not None:
                    r.nxt.val = v
                    setattr(out, k, merge(getattr(out, k), r.nxt))
                for kk in ('ret', 'brk', 'cont'):
                    setattr(out, kk, merge(getattr(out, kk), getattr(r, kk)))
                out.exc += r.exc
            for e in fl.exc:
                v = e.val
                r = self.run_block(s.finalbody, e)
                if r.nxt is not None:
                    r.nxt.val = v
                    out.exc.append(r.nxt)
                for kk in ('ret', 'brk', 'cont'):
                    setattr(out, kk, merge(getattr(out, kk), getattr(r, kk)))
                out.exc += r.exc
            return out
        return fl

    def exc_match(self, t, name, st):
        if t is None:
            return True
        names = []
        for e in (t.elts if isinstance(t, ast.Tuple) else [t]):
            names.append(ast.unparse(e).split('.')[-1])
        up = {name} | set(EXC_PARENTS.get(name, ['Exception'])) | {'BaseException'}
        return any(n in up for n in names)

    def s_Delete(self, s, st):
        from . import models
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env[-1].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                ix = self.index_expr(t.slice, st)
                self.each(st, b, lambda l, q: models.delitem(self, q, l, ix) or NONE)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st)
                if b.op == 'ref' and st.heap[b].kind == 'inst':
                    self.setf(st, b, t.attr, UNB)

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)

    def s_AugAssign(self, s, st):
        from . import models
        t = s.target
        rhs = None
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, st)
            rhs = self.eval(s.value, st)
            v = self.each(st, old, lambda l, q: models.inplace(self, q, type(s.op).__name__, l, rhs))
            st.env[-1][t.id] = v
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value, st)
            old = self.getattr(b, t.attr, st)
            rhs = self.eval(s.value, st)
            v = self.each(st, old, lambda l, q: models.inplace(self, q, type(s.op).__name__, l, rhs))
            self.setattr(b, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            ix = self.index_expr(t.slice, st)
            old = models.getitem(self, st, b, ix)
            rhs = self.eval(s.value, st)
            if old.op == 'ref' and st.heap[old].kind in ('list', 'set', 'dict', 'queue'):
                v = models.inplace(self, st, type(s.op).__name__, old, rhs)
            else:
                v = models.binop(self, st, type(s.op).__name__, old, rhs)
            models.setitem(self, st, b, ix, v)

    def assign(self, t, v, st):
        from . import models
        if isinstance(t, ast.Name):
            st.env[-1][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            stars = [k for k, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if not stars:
                for k, e in enumerate(t.elts):
                    self.assign(e, models.unpack(self, st, v, k, n), st)
            else:
                k0 = stars[0]
                s = self.seq(st, v)
                for k, e in enumerate(t.elts[:k0]):
                    self.assign(e, sat(s, num(k)), st)
                tail = len(t.elts) - k0 - 1
                for k, e in enumerate(t.elts[k0 + 1:]):
                    self.assign(e, sat(s, num(k - tail)), st)
                self.assign(t.elts[k0].value, self.new_list(st, models.seq_slice(s, num(k0), num(-tail) if tail else None)), st)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, st), t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value, st)
            ix = self.index_expr(t.slice, st)
            models.setitem(self, st, b, ix, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    # ------------------------------------------------------------ loops
    def s_For(self, s, st):
        it = self.eval(s.iter, st)

        def body(q, elem):
            self.assign(s.target, elem, q)
            return self.run_block(s.body, q)
        if it.op == 'ref' and it in st.heap and st.heap[it].kind == 'list' and self.grows_in(it, s.body, st):
            return self.for_by_index(s, it, st)
        fl = self.loop_over(st, it, body, s)
        return self.loop_else(fl, s.orelse)

    def grows_in(self, ref, body, st):
        """the body changes the length of the list it iterates over"""
        def same(e):
            f = e
            while isinstance(f, ast.Attribute):
                f = f.value
            if not isinstance(f, ast.Name):
                return False
            nev, outer = len(self.events), self.pending
            self.pending = []
            try:
                return self.simp(st, self.eval(e, st.fork())) is ref
            except Dead:
                return False
            finally:
                self.pending = outer
                del self.events[nev:]
        for n in (x for b in body for x in ast.walk(b)):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('remove', 'append', 'pop', 'insert', 'clear', 'extend'):
                if same(n.func.value):
                    return True
            elif isinstance(n, ast.Delete) and any(isinstance(t, ast.Subscript) and same(t.value) for t in n.targets):
                return True
            elif isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add) and same(n.target):
                return True
        return False

    def for_by_index(self, s, ref, st):
        """for x in l: ... where the body changes l: the position moves on, whatever the list holds by then"""
        at, box = '%%at%d' % s.lineno, '%%box%d' % s.lineno
        st.env[-1][at], st.env[-1][box] = ZERO, ref
        src = ast.parse('while X < len(Y):\n    T = Y[X]\n    X += 1').body[0]
        for n in ast.walk(src):
            if isinstance(n, ast.Name) and n.id in 'XY':
                n.id = at if n.id == 'X' else box
        src.body[0].targets = [s.target]
        src.body += s.body
        src.orelse = s.orelse
        for n in [src] + [x for b in [src.test] + src.body[:2] for x in ast.walk(b)]:
            if hasattr(n, 'lineno') and n is not s.target:
                ast.copy_location(n, s)
        return self.s_While(src, st)

    def loop_else(self, fl, orelse):
        if orelse and fl.nxt is not None:
            r = self.run_block(orelse, fl.nxt)
            r.ret, r.exc = merge(fl.ret, r.ret), fl.exc + r.exc
            r.nxt = merge(r.nxt, fl.brk)
            return r
        fl.nxt = merge(fl.nxt, fl.brk)
        fl.brk = None
        return fl

    def loop_over(self, st, it, body, node):
        """Flows with nxt = exhausted, brk = left by break"""
        it = self.simp(st, it)
        if it.op == 'ite':
            a = batom(it.args[0])
            sa, sb = st.fork(a), st.fork(not_(a))
            fa = self.loop_over(sa, it.args[1], body, node) if sa.cond is not FALSE else Flows(None)
            fb = self.loop_over(sb, it.args[2], body, node) if sb.cond is not FALSE else Flows(None)
            return self.join(fa, fb)
        wrap = None
        if it.op == 'ref' and st.heap[it].kind in ('arr', 'view'):
            a = self.simp(st, self.arr(st, it))
            if a.op == 'ite' and st.heap[it].kind == 'arr' and all(arr_dims(l) is not None for l in leaves(a)):
                c = batom(a.args[0])
                fs = []
                for q, half in ((st.fork(c), a.args[1]), (st.fork(not_(c)), a.args[2])):
                    if q.cond is not FALSE:
                        self.setf(q, it, 'a', half)
                    fs.append(self.loop_over(q, it, body, node) if q.cond is not FALSE else Flows(None))
                return self.join(*fs)
            if arr_dims(a) is not None and len(arr_dims(a)) > 1 and a.op != 'ite' and arr_guard_free(a):
                # rows are views of the array
                n = arr_dims(a)[0]
                return self.loop_pieces(st, self.range_seq(n), lambda q, i: body(q, self.row_view(q, it, i)), node)
        if it.op == 'iter' and it.args[1:]:
            wrap = it.args[1]
            return self.loop_pieces(st, it.args[0], lambda q, x: body(q, self.wrap_elem(q, wrap, x)), node)
        return self.loop_seq(st, self.seq(st, it), body, node)

    def wrap_elem(self, st, wrap, x):
        """elements of zip/enumerate over arrays: rebuild row views; wrap = tuple description"""
        if wrap.op == 'tup':
            return mk('tup', *[self.wrap_elem(st, w, x) for w in wrap.args])
        if wrap.op == 'rowof':
            return self.row_view(st, wrap.args[0], x)
        if wrap.op == 'seqof':
            return sat(wrap.args[0], x)
        if wrap.op == 'count':
            return add(x, wrap.args[0])
        return x

    def row_view(self, st, ref, i):
        from . import models
        return models.make_view(self, st, ref, models.RowView(self.arr(st, ref), (i,)))

    def range_seq(self, n):
        v = fresh(n)
        return make_flat([v], (vg.lst(v),))

    def loop_seq(self, st, s, body, node):
        s = self.simp(st, s)
        if s.op == 'ite':
            a = batom(s.args[0])
            sa, sb = st.fork(a), st.fork(not_(a))
            fa = self.loop_seq(sa, s.args[1], body, node) if sa.cond is not FALSE else Flows(None)
            fb = self.loop_seq(sb, s.args[2], body, node) if sb.cond is not FALSE else Flows(None)
            return self.join(fa, fb)
        return self.loop_pieces(st, s, body, node)

    def loop_pieces(self, st, s, body, node):
        s = self.simp(st, s)
        if s.op == 'ite':
            return self.loop_seq(st, s, body, node)
        if s.op != 'seq':
            s = as_seq(s)
        out = Flows(st)
        for p in s.args:
            if out.nxt is None or out.nxt.cond is FALSE:
                out.nxt = None
                break
            cur = out.nxt
            if p.op == 'el':
                f = body(cur, p.args[0])
            elif p.op == 'spl':
                L = p.args[0]
                n = length_of(L)
                v = fresh(n)
                f = self.sym_loop(cur, n, v, lambda q, v=v, L=L: body(q, at(L, v)), node)
            else:
                n = p.args[1][0]
                v = fresh(n)
                b = inst(p, [v])[0]
                f = self.sym_loop(cur, n, v, lambda q, b=b: self.loop_seq(q, b, body, node), node, inner=True)
            out.nxt = merge(f.nxt, f.cont)
            out.ret = merge(out.ret, f.ret)
            out.brk = merge(out.brk, f.brk)
            out.exc += f.exc
        return out

    def s_While(self, s, st):
        # concrete tests are unrolled
        out = Flows(st)
        if not (isinstance(s.test, ast.Constant) and s.test.value):
            for k in range(40):
                probe = out.nxt.fork()
                outer, self.pending = self.pending, []
                nev = len(self.events)
                try:
                    c = self.simp(probe, self.truth(probe, self.eval(s.test, probe)))
                except Dead:
                    c = None
                del self.events[nev:]
                self.pending = outer
                if c is FALSE:
                    return self.loop_else(out, s.orelse)
                if c is not TRUE:
                    break
                f = self.run_block(s.body, out.nxt)
                out.nxt = merge(f.nxt, f.cont)
                out.ret, out.brk = merge(out.ret, f.ret), merge(out.brk, f.brk)
                out.exc += f.exc
                if out.nxt is None:
                    return self.loop_else(out, s.orelse)
        if self.unroll:
            r = self.unrolled(s, out)
            if r is not None:
                return r
        st = out.nxt

        def body(q):
            outer, self.pending = self.pending, []
            try:
                try:
                    c = self.simp(q, self.truth(q, self.eval(s.test, q)))
                except Dead:
                    fl = Flows(None)
                    fl.exc = self.pending
                    return fl, None
                exc = self.pending
            finally:
                self.pending = outer
            a, b = q.fork(c), q.fork(not_(c))
            fl = self.run_block(s.body, a) if a.cond is not FALSE else Flows(None)
            fl.exc = exc + fl.exc
            return fl, (b if b.cond is not FALSE else None), c
        f = self.while_loop(st, body, s)
        out.nxt = f.nxt
        out.ret, out.brk = merge(out.ret, f.ret), merge(out.brk, f.brk)
        out.exc += f.exc
        return self.loop_else(out, s.orelse)

    def unrolled(self, s, out0):
        """a while loop that ends within self.unroll iterations on every path"""
        marks = len(self.events), len(self.loops), len(self.pending), self.nref, self.nloop
        cur = out0.nxt.fork()
        done = None
        ret, brk, excs = None, None, []
        pend = []
        for k in range(self.unroll):
            outer, self.pending = self.pending, []
            try:
                c = self.simp(cur, self.truth(cur, self.eval(s.test, cur)))
            except Dead:
                excs += self.pending
                cur = None
                break
            finally:
                mine, self.pending = self.pending, outer
            excs += mine
            a, b = cur.fork(c), cur.fork(not_(c))
            if b.cond is not FALSE:
                done = merge(done, b)
            if a.cond is FALSE:
                cur = None
                break
            f = self.run_block(s.body, a)
            cur = merge(f.nxt, f.cont)
            ret, brk = merge(ret, f.ret), merge(brk, f.brk)
            excs += f.exc
            if cur is None or cur.cond is FALSE:
                cur = None
                break
        if cur is not None and self.bound_rest:
            # longer runs are outside the analysed bound
            cur.val = exc_term('OutOfBound')
            excs.append(cur)
            cur = None
        if cur is not None:
            ne, nl, np_, self.nref, self.nloop = marks
            del self.events[ne:]
            del self.loops[nl:]
            del self.pending[np_:]
            return None
        res = Flows(done)
        res.ret, res.brk, res.exc = merge(out0.ret, ret), merge(out0.brk, brk), out0.exc + excs
        return self.loop_else(res, s.orelse)

    # --- location bookkeeping
    def locations(self, st):
        for k, v in st.env[-1].items():
            yield ('env', k), v
        for r, c in st.heap.items():
            for k, v in c.f.items():
                yield ('heap', r, k), v

    def get_loc(self, st, loc):
        if loc[0] == 'env':
            return st.env[-1].get(loc[1])
        c = st.heap.get(loc[1])
        return None if c is None else c.f.get(loc[2])

    def set_loc(self, st, loc, v):
        if loc[0] == 'env':
            st.env[-1][loc[1]] = v
        else:
            st.heap[loc[1]] = st.heap[loc[1]].put(loc[2], v)

    def mu_value(self, lid, loc, init, st, new=None):
        """(leaf symbol, value) standing for a loop-carried location"""
        name = '%s' % (loc[1] if loc[0] == 'env' else '%s.%s' % (loc[1].args[0], loc[2]))
        field = loc[2] if loc[0] == 'heap' else None
        key = (lid, name)
        cellkind = st.heap[loc[1]].kind if loc[0] == 'heap' else None
        if field == 'seq' and cellkind in ('list', 'queue'):
            m = mu(lid, name, ('list', None))
            return m, mk('seq', mk('spl', m))
        if cellkind == 'dict' and field == 'd':
            return (mu(lid, name, ('dict', None)),) * 2
        if (cellkind == 'set' and field == 's') or (cellkind == 'graph' and field in ('nodes', 'edges')):
            return (mu(lid, name, 'set'),) * 2
        if cellkind == 'graph':
            return (mu(lid, name, ('dict', None)),) * 2
        if field == 'a' and cellkind == 'arr':
            ds = arr_dims(init) if init.op != 'ite' else None
            if ds is not None:
                dt = arr_dtype(init)
                if new is not None and new.op != 'ite' and arr_dtype(new) != dt:
                    dt = 'num'
                return (mu(lid, name, ('arr', tuple(ds), dt)),) * 2
            return (mu(lid, name),) * 2
        if cellkind == 'frame':
            if field == 'n':
                return (mu(lid, name, 'int'),) * 2
            return (mu(lid, name),) * 2
        s = self.scalar_sort(init)
        if new is not None:
            s2 = self.scalar_sort(new)
            if s2 != s:
                s = 'num' if {s, s2} <= {'int', 'num'} else None
        if s == 'bool':
            m = mu(lid, name, 'bool')
            return m, batom(m)
        m = mu(lid, name, s)
        if isinstance(s, tuple) and s[0] == 'list' or s == 'set':
            return m, m
        return m, m

    def scalar_sort(self, v):
        ss = set()
        for l in leaves(v):
            if l is TRUE or l is FALSE:
                ss.add('bool')
            elif l.op == 'arr':
                ss.add(('arr', tuple(arr_dims(l)), arr_dtype(l)))
            else:
                ss.add(sort_of(l))
        if len(ss) == 1:
            return ss.pop()
        if ss <= {'int', 'num'}:
            return 'num'
        return None

    def loop_fix(self, st, run, lid):
        """run the body until the set of loop-carried locations is stable"""
        base = self.nref
        entry = dict(self.locations(st))
        M = {}
        nev, nlo, npend = len(self.events), len(self.loops), len(self.pending)
        news = {}
        for _ in range(12):
            del self.events[nev:]
            del self.loops[nlo:]
            del self.pending[npend:]
            self.nref = base
            s = st.fork()
            mus = {}
            for loc in M:
                m, v = self.mu_value(lid, loc, entry[loc], st, news.get(loc))
                mus[loc] = (m, v)
                self.set_loc(s, loc, v)
            s.draws = {}
            outs = run(s)
            changed = False
            for o in outs:
                if o is None:
                    continue
                for r, c in o.heap.items():
                    if c.kind == 'graph' and r in st.heap:
                        for k in c.f:
                            if k not in st.heap[r].f:
                                st.heap[r] = st.heap[r].put(k, NODATA)
                                entry[('heap', r, k)] = NODATA
                                M[('heap', r, k)] = changed = True
            if changed:
                continue
            for o in outs:
                if o is None:
                    continue
                for loc, v0 in entry.items():
                    v1 = self.get_loc(o, loc)
                    cur = mus[loc][1] if loc in mus else v0
                    if v1 is not None and v1 is not cur:
                        v1 = self.simp(o, v1)
                        if v1 is cur:
                            continue
                        if loc not in M:
                            M[loc] = True
                            changed = True
                            news[loc] = self.freeze(o, v1, base)
                        else:
                            nv = self.freeze(o, v1, base)
                            if loc in mus and loc in news and self.mu_value(lid, loc, entry[loc], st, nv)[0] is not mus[loc][0] and \
                                    SORT.get(mus[loc][0]) is not None:
                                news[loc] = nv
                                M[loc] = True
                                changed = True
            if not changed:
                return M, mus, entry, base
        return M, mus, entry, base

    def sym_loop(self, st, n, v, body, node, inner=False):
        self.nloop += 1
        lid = self.nloop
        nz = self.simp(st, pos(n))
        if nz is FALSE:
            return Flows(st)
        holder = {}

        def run(s):
            self.loopvars.append(v)
            try:
                f = body(s)
            finally:
                self.loopvars.pop()
            holder['f'] = f
            f.nxt = merge(f.nxt, f.cont)
            f.cont = None
            return [f.nxt, f.brk, f.ret] + f.exc
        nev = len(self.events)
        M, mus, entry, base = self.loop_fix(st, run, lid)
        f = holder['f']
        return self.close_loop(st, f, M, mus, entry, base, n, v, lid, node, nev)

    def rel(self, st, s):
        """condition of s relative to st"""
        if s is None:
            return FALSE
        return simplify_under(s.cond, st.cond) if st.cond is not TRUE else s.cond

    def close_loop(self, st, f, M, mus, entry, base, n, v, lid, node, nev, stop=None):
        muset = frozenset(m for m, _ in mus.values())
        vals = {}          # loc -> value after one full iteration
        for loc in M:
            vals[loc] = self.simp(f.nxt, self.freeze(f.nxt, self.get_loc(f.nxt, loc), base)) if f.nxt is not None else None
        # exceptional flows
        excs = []
        for e in f.exc:
            c = self.rel(st, e)
            excs.append((e, c))
        exits = [(k, getattr(f, k), self.rel(st, getattr(f, k))) for k in ('brk', 'ret') if getattr(f, k) is not None]
        exits = [x for x in exits if x[2] is not FALSE]
        prefix, final = {}, {}
        todo = dict.fromkeys(M)
        ok = True
        have_exit = bool(exits)
        if f.nxt is None and exits:
            pass
        simple = have_exit and f.nxt is not None and all(
            self.simp(f.nxt, self.get_loc(f.nxt, loc)) is mus[loc][1] for loc in M)
        env_sub = {}
        if simple or not M:
            # full iterations change nothing
            for loc in M:
                m, m0 = mus[loc]
                e0 = entry[loc]
                env_sub[m] = lift('lstw', lambda q: mk('lst', q), (e0,)) if m0.op == 'seq' else e0
                final[loc] = e0
            todo = {}
        elif f.nxt is None or have_exit and f.nxt.draws:
            return self.residual(st, f, M, mus, entry, base, n, v, lid, node, nev, excs, exits)
        progress = True
        while todo and progress:
            progress = False
            for loc in list(todo):
                val = subst(vals[loc], env_sub) if env_sub else vals[loc]
                m, m0 = mus[loc]
                others = (val.deps & muset) - {m} - frozenset(env_sub)
                if others:
                    continue
                r = self.close_one(st, loc, m, m0, val, entry[loc], n, v)
                if r is None:
                    continue
                pf, fin = r
                prefix[loc], final[loc] = pf, fin
                if m0.op == 'seq':
                    env_sub[m] = lift('lstw', lambda q: mk('lst', q), (pf,))
                else:
                    env_sub[m] = pf
                del todo[loc]
                progress = True
        for loc in list(todo):
            # a name whose last assigned value is kept by iterations that do not assign it
            m, m0 = mus[loc]
            if loc[0] == 'env' and m0 is m and all(l is m or m not in l.deps for l in leaves(vals[loc])) \
                    and not any(m in a.deps for a in atoms_of(vals[loc])) \
                    and not any(m in vals[o].deps for o in M if o != loc):
                final[loc] = mk('fix', lid, 'last', m, subst(vals[loc], env_sub), v, n, entry[loc])
                env_sub[m] = mk('fix', lid, 'before', m, v)
                del todo[loc]
        if todo:
            return self.residual(st, f, M, mus, entry, base, n, v, lid, node, nev, excs, exits)
        if not have_exit:
            return self.finish_closed(st, f, M, mus, env_sub, final, excs, base, n, v, lid, nev)
        # early exits
        conds = [(k, s_, subst(c, env_sub)) for k, s_, c in exits]
        anyc = FALSE
        for _, _, c in conds:
            anyc = or_(anyc, c)
        ex = make_ex([v], (anyc,))
        res = Flows(None)
        if f.nxt is not None:
            done = self.finish_closed(st, f, M, mus, env_sub, final, [], base, n, v, lid, nev)
            nst = done.nxt
            nst.cond = and_(nst.cond, not_(ex))
        else:
            nst = st.fork(not_(ex))
        res.nxt = nst if nst.cond is not FALSE else None
        fst = mk_first(v, anyc)
        for k, s_, c in conds:
            q = State()
            q.heap = dict(s_.heap)
            q.env = [dict(e) for e in s_.env]
            q.draws = dict(st.draws)
            # values at the first exiting iteration
            which = and_(ex, subst(c, {v: fst})) if len(conds) > 1 else ex
            q.cond = and_(st.cond, which)
            mp = dict(env_sub)
            at_ = {v: fst}
            self.map_state(q, lambda t: self.simp(q, subst(subst(self.freeze(s_, t, base), mp), at_)), base)
            q.val = subst(subst(self.freeze(s_, s_.val, base), mp), at_)
            if q.cond is not FALSE:
                setattr(res, k, merge(getattr(res, k), q))
        self.add_exc(res, st, excs, env_sub, v, base)
        return res

    def indep(self, c, anyc, v):
        return False

    def map_state(self, q, fn_, base):
        for e in q.env:
            for k in list(e):
                e[k] = fn_(e[k])
        h = {}
        for r, c in q.heap.items():
            if r.args[0] > base:
                continue
            h[r] = Cell(c.kind, {k: fn_(x) for k, x in c.f.items()}, c.cls, c.view)
        q.heap = h

    def add_exc(self, res, st, excs, env_sub, v, base):
        for e, c in excs:
            c = subst(c, env_sub)
            if v is not None:
                c = make_ex([v], (c,)) if not any(d.op == 'mu' for d in c.deps) else batom(mk('opaque', c))
            q = st.fork(c)
            if q.cond is FALSE:
                continue
            q.val = e.val if not (v is not None and v in e.val.deps) else exc_term(e.val.args[0])
            res.exc.append(q)
            if res.nxt is not None:
                res.nxt.cond = and_(res.nxt.cond, not_(c))
                if res.nxt.cond is FALSE:
                    res.nxt = None

    def finish_closed(self, st, f, M, mus, env_sub, final, excs, base, n, v, lid, nev):
        res = Flows(st.fork())
        q = res.nxt
        for loc in M:
            self.set_loc(q, loc, final[loc])
        # values of names first bound in the loop
        if f.nxt is not None:
            last = {v: sub(n, ONE)} if v is not None else {}
            for k, x in f.nxt.env[-1].items():
                if k not in st.env[-1]:
                    y = self.freeze(f.nxt, x, base)
                    y = subst(subst(y, env_sub), last)
                    q.env[-1][k] = y
            for r, c in f.nxt.heap.items():
                if c.kind == 'inst' and r in st.heap:
                    for k, x in c.f.items():
                        if k not in st.heap[r].f:
                            y = self.freeze(f.nxt, x, base)
                            q.heap[r] = q.heap[r].put(k, subst(subst(y, env_sub), last))
        # prefix forms in the events of the body
        for e in self.events[nev:]:
            for k, x in list(e.items()):
                if isinstance(x, T) and (x.deps & frozenset(env_sub)):
                    e[k] = subst(x, env_sub)
        self.add_exc(res, st, excs, env_sub, v, base)
        self.count_draws(q, st, f)
        return res

    def count_draws(self, q, st, f):
        if f.nxt is not None:
            for k, x in f.nxt.draws.items():
                q.draws[k] = q.draws.get(k, 0) + x

    def close_one(self, st, loc, m, m0, val, init, n, v):
        """(value before iteration v, value after the loop)"""
        if val is m0:
            return init, init
        cellkind = st.heap[loc[1]].kind if loc[0] == 'heap' else None
        if m not in val.deps:
            w = sub(v, ONE)
            pre = ite(pos(v), subst(val, {v: w}), init) if v in val.deps else ite(pos(v), val, init)
            fin = ite(pos(n), subst(val, {v: sub(n, ONE)}), init) if v in val.deps else ite(pos(n), val, init)
            return pre, fin
        if m0.op == 'seq':
            def rest(l):
                if l.op == 'seq' and l.args and l.args[0].op == 'spl' and l.args[0].args[0] is m:
                    r = mk('seq', *l.args[1:])
                    if m not in r.deps:
                        return r
                return None
            if all(rest(l) is not None for l in leaves(val)) and not any(m in a.deps for a in atoms_of(val)):
                b = vg._mapl(val, rest)
                w = fresh(v)
                return concat(init, make_flat([w], (subst(b, {v: w}),))), concat(init, make_flat([v], (b,)))
            return None
        s = sort_of(m)
        if s in ('int', 'num'):
            if is_numeric(init) or init.op == 'ite':
                d = sub(val, m)
                if m not in d.deps:
                    w = fresh(v)
                    return add(init, make_sum([w], (subst(d, {v: w}),))), add(init, make_sum([v], (d,)))
                q = div(val, m)
                if m not in q.deps:
                    w = fresh(v)
                    return mul(init, make_prod([w], (subst(q, {v: w}),))), mul(init, make_prod([v], (q,)))
            return None
        if s == 'bool':
            hi, lo = restrict(val, m, True), restrict(val, m, False)
            if m not in hi.deps and m not in lo.deps:
                w = fresh(v)
                if hi is TRUE:
                    return (or_(init, make_ex([w], (subst(lo, {v: w}),))), or_(init, make_ex([v], (lo,))))
                if lo is FALSE:
                    return (and_(init, not_(make_ex([w], (not_(subst(hi, {v: w})),)))),
                            and_(init, not_(make_ex([v], (not_(hi),)))))
            return None
        if s == 'set':
            x = fresh(None, 'x', None)
            c = smember(x, val)
            a = mk('memb', x, m)
            hi, lo = restrict(c, a, True), restrict(c, a, False)
            if m in hi.deps or m in lo.deps:
                return None
            w = fresh(v)
            if hi is TRUE:
                pre = make_setc([x], (or_(smember(x, init), make_ex([w], (subst(lo, {v: w}),))),))
                fin = make_setc([x], (or_(smember(x, init), make_ex([v], (lo,))),))
                return pre, fin
            if lo is FALSE:
                pre = make_setc([x], (and_(smember(x, init), not_(make_ex([w], (not_(subst(hi, {v: w})),)))),))
                fin = make_setc([x], (and_(smember(x, init), not_(make_ex([v], (not_(hi),)))),))
                return pre, fin
            return None
        if isinstance(s, tuple) and s[0] == 'dict':
            def puts(t):
                out = []
                while t.op == 'dput':
                    out.append((t.args[1], t.args[2]))
                    t = t.args[0]
                if t is not m or any(m in k.deps or m in x.deps for k, x in out):
                    return None
                return vg.lst(*[tup(k, x) for k, x in reversed(out)])
            if all(puts(l) is not None for l in leaves(val)) and not any(m in a.deps for a in atoms_of(val)):
                b = vg._mapl(val, puts)
                ks = [p.args[0].args[0] for l in leaves(b) for p in l.args]
                w = fresh(n)
                good = True
                for i, k1 in enumerate(ks):
                    for k2 in ks[i:]:
                        e = eq(k1, subst(k2, {v: w}))
                        if e is not FALSE and not (k1 is k2 and e is eq(v, w)):
                            good = False
                items = ditems(init)
                if good and items is not NIL and init.op != 'ite' and \
                        not all(dget(init, k1)[0] is FALSE for k1 in ks):
                    w = fresh(v)
                    return (vg.dupdate(init, dct(make_flat([w], (subst(b, {v: w}),)))), vg.dupdate(init, dct(make_flat([v], (b,)))))
                if not good:
                    # the same key may be stored again: keep the loop as an opaque update
                    if all(k1 is ks[0] for k1 in ks) and all(len(l.args) == 1 for l in leaves(b)):
                        r = mk('dupd', init, make_flat([v], (b,)))
                        return None if True else (r, r)
                    return None
                w = fresh(v)
                return (dct(concat(items, make_flat([w], (subst(b, {v: w}),)))), dct(concat(items, make_flat([v], (b,)))))
            return None
        if isinstance(s, tuple) and s[0] == 'arr':
            return self.close_arr(m, val, init, n, v)
        return None

    def close_arr(self, m, val, init, n, v):
        if val.op == 'ite' or arr_dims(val) is None or init.op == 'ite':
            return None
        ds = arr_dims(init)
        if tuple(arr_dims(val)) != tuple(ds) or (val.op == 'arr' and arr_guard(val, *[fresh(d) for d in ds]) is not TRUE):
            return None
        js = [fresh(d) for d in ds]
        old = vg.cell(mk_mu_cell(m), *js)
        e = same_cell(vg.cell(val, *js), m, js, old)
        bools = arr_dtype(init) == 'bool'

        def build(n_, e_, v_):
            if bools:
                a = mk('cell', m, *js)
                hi, lo = restrict(e_, a, True), restrict(e_, a, False)
                if m in hi.deps or m in lo.deps:
                    return None
                ic = vg.cell(init, *js)
                if hi is TRUE:
                    return or_(ic, make_ex([v_], (lo,)))
                if lo is FALSE:
                    return and_(ic, not_(make_ex([v_], (not_(hi),))))
                # overwritten where hi == lo
                return None
            chg = vg._mapl(e_, lambda l: const(l is not old))
            if any(m in a.deps for a in atoms_of(e_)):
                return None
            news = [l for l in leaves(e_) if l is not old]
            if any(m in l.deps for l in news) and v_ in chg.deps:
                # iteration v writes only cells with v at some place, and reads only such cells: it finds them as they were before the loop
                for p, j in enumerate(js):
                    if simplify_under(eq(j, v_), chg) is TRUE and all(own_cells(l, m, p, (v_, j)) for l in news):
                        e_ = vg._mapl(e_, lambda l: l if l is old else subst(l, {m: init}))
                        news = [l for l in leaves(e_) if l is not old]
                        break
            if all(m not in l.deps for l in news):
                val_ = simplify_under(vg._mapl(e_, lambda l: l if l is not old else NONE), chg)
                r = solve_for(v_, chg) if v_ in chg.deps else None
                ic = vg.cell(init, *js)
                if r is not None:
                    t, g = r
                    return ite(g, subst(val_, {v_: t}), ic)
                if v_ not in val_.deps:
                    return ite(make_ex([v_], (chg,)), val_, ic)
                if v_ not in chg.deps:
                    return ite(and_(chg, pos(n_)), subst(val_, {v_: sub(n_, ONE)}), ic)
                return None
            d = sub(e_, old)
            if m not in d.deps:
                return add(vg.cell(init, *js), make_sum([v_], (d,)))
            return None
        dt = arr_dtype(val)
        fin = build(n, e, v)
        if fin is None:
            return None
        w = fresh(v)
        pre = build(v, subst(e, {v: w}), w)
        if pre is None:
            return None
        return make_arr(js, (TRUE, pre), (dt,)), make_arr(js, (TRUE, fin), (dt,))

    def while_loop(self, st, body, node):
        self.nloop += 1
        lid = self.nloop
        holder = {}

        def run(s):
            r = body(s)
            f, stop = r[0], r[1]
            holder['c'] = r[2] if len(r) > 2 else FALSE
            f.nxt = merge(f.nxt, f.cont)
            f.cont = None
            holder['f'], holder['stop'] = f, stop
            return [f.nxt, f.brk, f.ret] + f.exc
        nev = len(self.events)
        M, mus, entry, base = self.loop_fix(st, run, lid)
        f, stop, c = holder['f'], holder['stop'], holder['c']
        # counting loop?
        muset = frozenset(m for m, _ in mus.values())
        if f.nxt is not None:
            for loc in M:
                m, m0 = mus[loc]
                if sort_of(m) != 'int' or m0 is not m:
                    continue
                val = self.simp(f.nxt, self.get_loc(f.nxt, loc))
                if val is not add(m, ONE):
                    continue
                # test is m < N with N free of loop-carried values
                at_ = atoms_of(c)
                if len(at_) != 1:
                    continue
                cc = None
                for a in at_:
                    k = vg._num_of(a)
                    if k is None or k[0] != 'pos':
                        continue
                    d = vg.to_poly(k[1])
                    cm = d.get(((m, Q(1)),))
                    rest = {mm: x for mm, x in d.items() if mm != ((m, Q(1)),)}
                    if cm is None or any(z in muset for mm in rest for a_, _ in mm for z in a_.deps):
                        continue
                    if cm == -1 and c is batom(a):           # N - m > 0
                        cc = vg.from_poly(rest)
                    elif cm == 1 and c is not_(batom(a)):    # m - N' > 0 false -> m <= N'
                        cc = add(neg(vg.from_poly(rest)), ONE)
                if cc is None:
                    continue
                init = entry[loc]
                if sort_of(init) != 'int':
                    continue
                n = sub(cc, init)
                v = fresh(n)
                mp = {m: add(init, v)}
                g = Flows(None)
                for k in ('nxt', 'brk', 'ret'):
                    x = getattr(f, k)
                    if x is not None:
                        y = x.fork()
                        y.cond = subst(x.cond, mp)
                        # the loop test holds inside
                        self.map_all(y, mp)
                        setattr(g, k, y)
                for x in f.exc:
                    y = x.fork()
                    y.cond = subst(x.cond, mp)
                    self.map_all(y, mp)
                    g.exc.append(y)
                for e in self.events[nev:]:
                    for kk, x in list(e.items()):
                        if isinstance(x, T):
                            e[kk] = subst(x, mp)
                    e['loops'] = (v,) + e['loops']
                M2 = {l: True for l in M if l is not loc and l != loc}
                mus2 = {l: (mm if l != loc else None) for l, mm in mus.items() if l != loc}
                st2 = st.fork()
                res = self.close_loop(st2, g, M2, mus2, entry, base, n, v, lid, node, nev)
                if res.nxt is not None:
                    self.set_loc(res.nxt, loc, ite(pos(n), cc, init))
                return res
        excs = [(e, self.rel(st, e)) for e in f.exc]
        exits = [(k, getattr(f, k), self.rel(st, getattr(f, k))) for k in ('brk', 'ret') if getattr(f, k) is not None]
        return self.residual(st, f, M, mus, entry, base, None, None, lid, node, nev, excs, exits, stop)

    def map_all(self, y, mp):
        for e in y.env:
            for k in list(e):
                e[k] = subst(e[k], mp)
        for r, c in list(y.heap.items()):
            if any(x.deps & frozenset(mp) for x in c.f.values()):
                y.heap[r] = Cell(c.kind, {k: subst(x, mp) for k, x in c.f.items()}, c.cls, c.view)
        y.val = subst(y.val, mp)

    def residual(self, st, f, M, mus, entry, base, n, v, lid, node, nev, excs, exits, stop=None):
        L = Loop()
        L.id, L.node, L.func, L.n, L.v = lid, node, (self.stack[-1] if self.stack else None), n, v
        L.stack = list(self.stack)
        L.entry, L.init = st.fork(), {loc: entry[loc] for loc in M}
        L.mu = {loc: mus[loc] for loc in M}
        L.next, L.brk, L.ret, L.exc, L.stop = f.nxt, f.brk, f.ret, f.exc, stop
        L.events = self.events[nev:]
        L.base = base
        self.loops.append(L)
        res = Flows(None)

        def after(s_, tag):
            q = st.fork()
            q.draws = {k: x + 1000 for k, x in st.draws.items()}
            sub_ = {}
            for loc in M:
                m, m0 = mus[loc]
                x = mk('fix', lid, tag, m)
                if SORT.get(m) is not None:
                    SORT[x] = SORT[m]
                val = batom(x) if m0.op == 'ite' else mk('seq', mk('spl', x)) if m0.op == 'seq' else x
                sub_[m] = x if m0.op != 'ite' else batom(x)
                self.set_loc(q, loc, val)
            L.__dict__.setdefault('sub', {})[tag] = sub_
            return q, sub_
        if stop is not None:
            q, sub_ = after(stop, 'end')
            c = subst(self.rel(st, stop), sub_)
            q.cond = and_(st.cond, c)
            if q.cond is not FALSE:
                res.nxt = q
                vg.know(c)
        elif n is not None:
            q, _ = after(None, 'end')
            res.nxt = q
        for k, s_, c in exits:
            # state at the exit: transfer applied to the loop symbols
            q = State()
            q.heap = dict(s_.heap)
            q.env = [dict(e) for e in s_.env]
            q.draws = {kk: x + 1000 for kk, x in st.draws.items()}
            _, sub_ = after(None, k)
            mp = dict(sub_)
            if v is not None:
                w = mk('sym', 'iter%d%s' % (lid, k))
                SORT[w] = 'int'
                LOWER[w] = 0
                mp[v] = w
            q.cond = and_(st.cond, and_(batom(mk('exit', lid, k)), subst(c, mp)))
            self.map_state(q, lambda t: subst(self.freeze(s_, t, base), mp), base)
            q.val = subst(self.freeze(s_, s_.val, base), mp)
            if q.cond is not FALSE:
                setattr(res, k, merge(getattr(res, k), q))
                if res.nxt is not None:
                    res.nxt.cond = and_(res.nxt.cond, not_(batom(mk('exit', lid, k))))
        for e, c in excs:
            q = st.fork(batom(mk('exit', lid, 'exc')))
            q.val = e.val
            res.exc.append(q)
            if res.nxt is not None:
                res.nxt.cond = and_(res.nxt.cond, not_(batom(mk('exit', lid, 'exc'))))
        return res

    # ------------------------------------------------------------ calls
    def call_func(self, func, args, kwargs, st, closure=None):
        """summarise a call of a function of the analysed program in place"""
        q = func.qual
        self.funcs_seen[q] = self.funcs_seen.get(q, 0) + 1
        if q in self.watch or '*' in self.watch:
            self.event(st, 'call', name=q, args=[self.deep(st, a) for a in args], kwargs=dict(kwargs), rargs=args)
        if q in self.stubs:
            r = self.stubs[q](self, st, args, kwargs)
            if r is not NotImplemented:
                return r
        if sum(1 for f in self.stack if f.qual == q and f.node is func.node) > 4 or len(self.stack) > 60:
            return self.unk('recursion ' + q, *args)
        node = func.node
        env = {}
        self.stack.append(func)
        cur = self.cur
        try:
            self.bind(node.args, args, kwargs, env, st, func, closure)
            st.env.append(env)
            if closure is not None:
                st.env[-1]['%closure'] = closure
            if isinstance(node, ast.Lambda):
                try:
                    v = self.eval(node.body, st)
                finally:
                    st.env.pop()
                return v
            gen = has_yield(node)
            if gen:
                env['%yield'] = self.new_list(st)
            base_cond = st.cond
            fl = self.run_block(node.body, st.fork())
            if fl.nxt is not None:
                fl.nxt.val = NONE
            out = merge(fl.ret, fl.nxt)
            for e in fl.exc:
                while len(e.env) >= len(st.env):
                    e.env.pop()
                self.pending.append(e)
            if out is None:
                st.cond = FALSE
                raise Dead()
            keep = st.val
            v = out.env[-1]['%yield'] if gen else out.val
            st.become(out)
            st.env.pop()
            st.val = keep
            return v
        finally:
            self.stack.pop()
            self.cur = cur

    def bind(self, a, args, kwargs, env, st, func, closure):
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        args = list(args)
        kwargs = dict(kwargs)
        rest = kwargs.pop('**', None)
        for k, nm in enumerate(names):
            if k < len(args):
                env[nm] = args[k]
            elif nm in kwargs:
                env[nm] = kwargs.pop(nm)
            elif rest is not None:
                env[nm] = self.unk('** argument')
            else:
                d = k - (len(names) - len(a.defaults))
                if d >= 0:
                    env[nm] = self.default(a.defaults[d], st, func)
                else:
                    self.raise_if(st, TRUE, 'TypeError')
        if a.vararg:
            env[a.vararg.arg] = mk('tup', *args[len(names):])
        elif len(args) > len(names):
            self.raise_if(st, TRUE, 'TypeError')
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kwargs:
                env[x.arg] = kwargs.pop(x.arg)
            elif d is not None:
                env[x.arg] = self.default(d, st, func)
            else:
                self.raise_if(st, TRUE, 'TypeError')
        if a.kwarg:
            env[a.kwarg.arg] = self.new_dict(st, dct(seq(*[el(tup(const(k), v)) for k, v in kwargs.items()])))
        elif kwargs:
            self.raise_if(st, TRUE, 'TypeError')

    def default(self, e, st, func):
        """default argument value: one object per function, shared by all calls"""
        s = st.fork()
        s.env.append({})
        v = self.eval(e, s)
        v = self.deep(s, v)
        if v.op in ('lst', 'dct', 'setc', 'arr', 'obj'):
            v = mk('sharedv', func.qual, v)
            return v.args[1]
        return v

    def call(self, fnv, args, kwargs, st):
        return self.each(st, fnv, lambda l, s: self.call_leaf(l, args, kwargs, s))

    def call_leaf(self, v, args, kwargs, st):
        from . import models
        if v.op == 'func':
            return self.call_func(self.funcs[v.args[0]], args, kwargs, st)
        if v.op == 'bound':
            return self.call_func(self.funcs[v.args[1]], [v.args[0]] + list(args), kwargs, st)
        if v.op == 'clo':
            node, module, env, owner = _CLO[v.args[0]]
            f = Func(node, module or (self.stack[-1].module if self.stack else None),
                     (owner.qual if owner else '') + '.<%s>' % getattr(node, 'name', 'lambda'))
            return self.call_func(f, args, kwargs, st, closure=v)
        if v.op == 'cls':
            return self.instantiate(self.prog.classes[v.args[0]], args, kwargs, st)
        if v.op == 'bmeth':
            return models.call_method(self, st, v.args[0], v.args[1], args, kwargs)
        if v.op == 'ext':
            return models.call_ext(self, st, v.args[0], args, kwargs)
        if v.op == 'partial':
            return self.call(v.args[0], list(v.args[1]) + list(args), kwargs, st)
        if v.op == 'ref' and st.heap[v].kind == 'inst' and st.heap[v].cls is not None:
            m = st.heap[v].cls.lookup('__call__')
            if m is not None:
                return self.call_func(m, [v] + list(args), kwargs, st)
        if v.op == 'pyfn':
            return self.pyfns[v.args[0]](self, st, args, kwargs)
        return self.unk('call of unknown value', v, *args)

    pyfns = {}
    funcs = {}

    def fterm(self, f):
        self.funcs[f.qual] = f
        return mk('func', f.qual)

    def instantiate(self, cls, args, kwargs, st):
        q = 'new ' + cls.name
        if q in self.stubs:
            r = self.stubs[q](self, st, args, kwargs)
            if r is not NotImplemented:
                return r
        if any(isinstance(b, str) and (b in EXC_PARENTS or b.endswith('Error') or b.endswith('Exception')) for c in cls.mro()
               for b in c.bases):
            EXC_PARENTS.setdefault(cls.name, ['Exception'] + [b for b in cls.bases if isinstance(b, str)])
            return exc_term(cls.name, *args)
        r = self.alloc(st, 'inst', {}, cls)
        init = cls.lookup('__init__')
        if init is not None:
            self.call_func(init, [r] + list(args), kwargs, st)
        elif any(ast.unparse(d).split('(')[0].endswith('dataclass') for d in cls.node.decorator_list):
            fields = [n.target.id for n in cls.node.body if isinstance(n, ast.AnnAssign)]
            for nm, a in zip(fields, args):
                self.setf(st, r, nm, a)
            for nm, a in kwargs.items():
                self.setf(st, r, nm, a)
            for n in cls.node.body:
                if isinstance(n, ast.AnnAssign) and n.value is not None and n.target.id not in st.heap[r].f:
                    self.setf(st, r, n.target.id, self.eval(n.value, st))
        return r

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name, st):
        return self.each(st, v, lambda l, s: self.getattr_leaf(l, name, s))

    def getattr_leaf(self, v, name, st):
        from . import models
        if v.op == 'ref' and st.heap[v].kind == 'inst':
            c = st.heap[v]
            x = c.f.get(name)
            if x is not None and x is not UNB:
                return self.simp(st, x)
            if c.cls is not None:
                return self.class_attr(c.cls, v, name, st)
            self.raise_if(st, TRUE, 'AttributeError')
        if v.op == 'obj':
            for k, x in v.args[1]:
                if k == name:
                    return x
            cls = self.prog.classes.get(v.args[0])
            if cls is not None:
                return self.class_attr(cls, v, name, st)
        if v.op == 'cls':
            cls = self.prog.classes[v.args[0]]
            m = cls.lookup(name)
            if m is not None:
                return self.fterm(m)
            a = cls.lookup_attr(name)
            if a is not None:
                return self.eval_in(a[0].module, a[1], st)
            if name == '__name__':
                return const(cls.name)
            return self.unk('class attribute', v)
        if v.op == 'mod':
            return self.binding(self.prog.resolve(self.prog.modules[v.args[0]], name), st)
        if v.op == 'ext':
            return models.ext_attr(self, st, v.args[0] + '.' + name)
        if v.op == 'super':
            owner, selfv = self.prog.classes[v.args[0]], v.args[1]
            cls = st.heap[selfv].cls if selfv.op == 'ref' else self.prog.classes.get(selfv.args[0])
            mro = cls.mro()
            after = mro[mro.index(owner) + 1:] if owner in mro else mro[1:]
            for c in after:
                if name in c.methods:
                    return mk('bound', selfv, self.fterm(c.methods[name]).args[0])
            return mk('ext', 'builtins.object.' + name)
        s = sort_of(v)
        if isinstance(s, tuple) and s[0] == 'obj':
            x = s[1](v, name)
            if x is not None:
                return x
        return models.attr(self, st, v, name)

    def class_attr(self, cls, v, name, st):
        m = cls.lookup(name)
        if m is None and name.startswith('__') and not name.endswith('__') and self.stack and self.stack[-1].cls:
            m = cls.lookup(name)
        if m is not None:
            self.funcs[m.qual] = m
            if m.prop:
                return self.call_func(m, [v], {}, st)
            if m.static:
                return mk('func', m.qual)
            if m.classm:
                return mk('bound', mk('cls', cls.name), m.qual)
            return mk('bound', v, m.qual)
        a = cls.lookup_attr(name)
        if a is not None:
            key = mk('clsattr', a[0].name, name)
            return self.eval_in(a[0].module, a[1], st)
        if name == '__class__':
            return mk('cls', cls.name)
        if name == '__dict__':
            return self.unk('__dict__')
        self.raise_if(st, TRUE, 'AttributeError')

    def eval_in(self, module, e, st):
        """value of a module- or class-level expression"""
        f = Func(ast.Module(body=[], type_ignores=[]), module, '<module %s>' % module.name)
        self.stack.append(f)
        st.env.append({})
        try:
            v = self.eval(e, st)
            return self.deep(st, v)
        finally:
            st.env.pop()
            self.stack.pop()

    def setattr(self, b, name, v, st):
        def one(l, s):
            if l.op == 'ref' and s.heap[l].kind == 'inst':
                cls = s.heap[l].cls
                if cls is not None:
                    m = cls.lookup_setter(name)
                    if m is not None:
                        self.call_func(m, [l, v], {}, s)
                        return NONE
                self.setf(s, l, name, v)
                return NONE
            from . import models
            if l.op == 'cls':
                self.event(s, 'class-write', name=l.args[0] + '.' + name)
                return NONE
            models.set_attr(self, s, l, name, v)
            return NONE
        self.each(st, b, one)

    # ------------------------------------------------------------ names
    def binding(self, r, st):
        if r is None:
            return None
        if isinstance(r, Cls):
            return mk('cls', r.name)
        if isinstance(r, Func):
            return self.fterm(r)
        if r[0] == 'ext':
            return mk('ext', r[1])
        if r[0] == 'mod':
            return mk('mod', r[1])
        if r[0] == 'expr':
            return self.eval_in(r[2], r[1], st)
        return None

    def lookup(self, name, st):
        env = st.env[-1]
        v = env.get(name)
        if v is not None and v is not UNB:
            return v
        clo = env.get('%closure')
        while clo is not None:
            cenv = _CLO[clo.args[0]][2][-1]
            if name in cenv:
                return cenv[name]
            clo = cenv.get('%closure')
        if name in self.specs:
            return self.specs[name]
        m = self.stack[-1].module if self.stack else None
        if m is not None:
            v = self.binding(self.prog.resolve(m, name), st)
            if v is not None:
                return v
        return mk('ext', 'builtins.' + name)

    # ------------------------------------------------------------ expressions
    def eval(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.unk('expression ' + type(e).__name__)
        v = m(e, st)
        return v

    def e_Constant(self, e, st):
        return const(e.value) if e.value is not Ellipsis else mk('c', 'ellipsis', '...')

    def e_Name(self, e, st):
        return self.simp(st, self.lookup(e.id, st))

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Attribute(self, e, st):
        name = e.attr
        b = self.eval(e.value, st)
        if name.startswith('__') and not name.endswith('__'):
            pass
        return self.getattr(b, name, st)

    def elts(self, es, st):
        """sequence of the evaluated elements (with * expansion)"""
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.append(self.seq(st, self.eval(x.value, st)))
            else:
                out.append(vg.lst(self.eval(x, st)))
        return seq(*out) if out else NIL

    def e_List(self, e, st):
        return self.new_list(st, self.elts(e.elts, st))

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            s = self.elts(e.elts, st)
            if s.op == 'seq' and all(p.op == 'el' for p in s.args):
                return tup(*[p.args[0] for p in s.args])
            return lift('lst', lambda q: mk('lst', q), (s,))
        return mk('tup', *[self.eval(x, st) for x in e.elts])

    def e_Set(self, e, st):
        s = self.elts(e.elts, st)
        return self.new_set(st, set_of_seq(s))

    def e_Dict(self, e, st):
        d = dct(NIL)
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.eval(v, st)
                d = self.dict_merge(d, self.dict_of(st, x))
            else:
                kk = self.eval(k, st)
                d = dput(d, kk, self.eval(v, st))
        return self.new_dict(st, d)

    def dict_of(self, st, x):
        if x.op == 'ref' and st.heap[x].kind == 'dict':
            return st.heap[x].f['d']
        return x

    def dict_merge(self, a, b):
        if a is dct(NIL):
            return b
        items = ditems(b)
        if items.op == 'seq' and all(p.op == 'el' for p in items.args):
            for p in items.args:
                a = dput(a, p.args[0].args[0], p.args[0].args[1])
            return a
        return mk('unk', 'dict merge', (a, b))

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)

        def go(k, s):
            v = self.eval(e.values[k], s)
            if k == len(e.values) - 1:
                return v
            c = self.truth(s, v)
            if isand:
                return self.branch(s, c, lambda q: go(k + 1, q), lambda q: v)
            return self.branch(s, c, lambda q: v, lambda q: go(k + 1, q))
        return go(0, st)

    def e_UnaryOp(self, e, st):
        from . import models
        v = self.eval(e.operand, st)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(st, v))
        return models.unop(self, st, type(e.op).__name__, v)

    def e_BinOp(self, e, st):
        from . import models
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return models.binop(self, st, type(e.op).__name__, a, b)

    def e_Compare(self, e, st):
        from . import models

        def go(k, left, s):
            right = self.eval(e.comparators[k], s)
            v = models.compare(self, s, type(e.ops[k]).__name__, left, right)
            if k == len(e.ops) - 1:
                return v
            c = self.truth(s, v)
            return self.branch(s, c, lambda q: go(k + 1, right, q), lambda q: FALSE)
        return go(0, self.eval(e.left, st), st)

    def e_IfExp(self, e, st):
        c = self.truth(st, self.eval(e.test, st))
        return self.branch(st, c, lambda s: self.eval(e.body, s), lambda s: self.eval(e.orelse, s))

    def e_Lambda(self, e, st):
        return self.closure(e, st)

    def e_JoinedStr(self, e, st):
        from . import models
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.eval(v.value, st)
                parts.append(models.to_str(self, st, x))
        return models.scat(*parts)

    def e_Subscript(self, e, st):
        from . import models
        b = self.eval(e.value, st)
        ix = self.index_expr(e.slice, st)
        return self.each(st, b, lambda l, s: models.getitem(self, s, l, ix))

    def index_expr(self, s, st):
        if isinstance(s, ast.Slice):
            return mk('slice', *[self.eval(x, st) if x is not None else NONE for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return mk('tup', *[self.index_expr(x, st) for x in s.elts])
        return self.eval(s, st)

    def e_Slice(self, e, st):
        return self.index_expr(e, st)

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_Yield(self, e, st):
        from . import models
        v = self.eval(e.value, st) if e.value is not None else NONE
        models.call_method(self, st, st.env[-1]['%yield'], 'append', [v], {})
        return NONE

    def e_YieldFrom(self, e, st):
        from . import models
        v = self.eval(e.value, st)
        models.call_method(self, st, st.env[-1]['%yield'], 'extend', [v], {})
        return NONE

    def comp(self, e, st, emit):
        """run the generators of a comprehension; emit(state) for every element"""
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        saved = {k: st.env[-1].get(k) for k in names}

        def gen(k, s):
            if k == len(e.generators):
                emit(s)
                return Flows(s)
            g = e.generators[k]
            it = self.eval(g.iter, s)
            if k == 0:
                for x in names:
                    s.env[-1].pop(x, None)

            def body(q, elem):
                # what an element refuses is refused by some element
                outer, self.pending = self.pending, []
                try:
                    try:
                        self.assign(g.target, elem, q)
                        fl = conds(0, q, g, k)
                    except Dead:
                        fl = Flows(None)
                    fl.exc = self.pending + fl.exc
                finally:
                    self.pending = outer
                return fl
            return self.loop_over(s, it, body, e)

        def conds(j, s, g, k):
            if j == len(g.ifs):
                return gen(k + 1, s)
            c = self.simp(s, self.truth(s, self.eval(g.ifs[j], s)))
            a, b = s.fork(c), s.fork(not_(c))
            fa = conds(j + 1, a, g, k) if a.cond is not FALSE else Flows(None)
            return self.join(fa, Flows(b if b.cond is not FALSE else None))

        def guarded(s):
            outer, self.pending = self.pending, []
            try:
                try:
                    f = gen(0, s)
                except Dead:
                    f = Flows(None)
                f.exc = self.pending + f.exc
                return f
            finally:
                self.pending = outer
        depth = len(st.env)
        f = guarded(st.fork())
        self.pending += f.exc
        if f.nxt is None:
            st.cond = FALSE
            raise Dead()
        keep = st.val
        st.become(f.nxt)
        st.val = keep
        for k, v in saved.items():
            if v is None:
                st.env[-1].pop(k, None)
            else:
                st.env[-1][k] = v

    def e_ListComp(self, e, st):
        from . import models
        out = self.new_list(st)

        def emit(s):
            outer, self.pending = self.pending, []
            try:
                v = self.eval(e.elt, s)
                models.call_method(self, s, out, 'append', [v], {})
            finally:
                outer += self.pending
                self.pending = outer
        self.comp(e, st, emit)
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st):
        l = self.e_ListComp(e, st)
        return self.new_set(st, set_of_seq(self.seq(st, l)))

    def e_DictComp(self, e, st):
        out = self.new_dict(st)

        def emit(s):
            k = self.eval(e.key, s)
            v = self.eval(e.value, s)
            self.setf(s, out, 'd', dput(s.heap[out].f['d'], k, v))
        self.comp(e, st, emit)
        return out

    def e_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return self.super_of(st)
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            c = self.eval(e.args[0], st)
            return mk('super', c.args[0], self.eval(e.args[1], st))
        f = self.eval(e.func, st)
        args = []
        star = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.seq(st, self.eval(a.value, st))
                if s.op == 'seq' and all(p.op == 'el' for p in s.args):
                    args += [p.args[0] for p in s.args]
                else:
                    args.append(mk('star', s))
            else:
                args.append(self.eval(a, st))
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                d = self.dict_of(st, v)
                items = ditems(d) if self.kind(st, v) == 'dict' else None
                if items is not None and items.op == 'seq' and all(p.op == 'el' and is_c(p.args[0].args[0]) for p in items.args):
                    for p in items.args:
                        kwargs[p.args[0].args[0].args[1]] = p.args[0].args[1]
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        prev, self.cur = self.cur, e
        try:
            return self.call(f, args, kwargs, st)
        finally:
            self.cur = prev

    def super_of(self, st):
        f = self.stack[-1]
        k = len(self.stack) - 1
        selfname = f.node.args.args[0].arg
        return mk('super', f.cls.name, st.env[-1][selfname])


def mk_first(v, c):
    """least v in range with c"""
    t = raw_close('first', [v], (c,))
    SORT[t] = 'int'
    LOWER[t] = 0
    return t


def mk_mu_cell(m):
    return m


def own_cells(t, m, p, own):
    """m occurs in t only as cells whose p-th index is one of own"""
    if m not in t.deps:
        return True
    if t is m:
        return False
    if t.op == 'cell' and t.args[0] is m:
        ix = t.args[1:] if not (len(t.args) == 2 and isinstance(t.args[1], tuple)) else t.args[1]
        return p < len(ix) and any(ix[p] is o for o in own) and all(own_cells(x, m, p, own) for x in ix)
    return all(own_cells(x, m, p, own) for x in vg._kids(t.args, []))


def same_cell(e, m, js, old):
    """cells of m read at an index that the branch conditions equate with js are the cell at js"""
    def cells(t, out, seen):
        if t.id in seen or m not in t.deps:
            return out
        seen.add(t.id)
        if t.op == 'cell' and t.args[0] is m:
            if t is not old:
                out.append(t)
        for y in vg._kids(t.args, []):
            cells(y, out, seen)
        return out

    def go(t, path):
        if t.op == 'ite':
            c = batom(t.args[0])
            return ite(c, go(t.args[1], and_(path, c)), go(t.args[2], and_(path, not_(c))))
        mp = {}
        for c in cells(t, [], set()):
            ix = c.args[1:] if not (len(c.args) == 2 and isinstance(c.args[1], tuple)) else c.args[1]
            if len(ix) == len(js) and all(x is j or simplify_under(eq(x, j), path) is TRUE for x, j in zip(ix, js)):
                mp[c] = old
        for c, r in mp.items():
            t = vg.replace_term(t, c, r)
        return t
    if not cells(e, [], set()):
        return e
    return go(e, TRUE)


def arr_guard_free(a):
    if a.op != 'arr':
        return True
    return a.args[2][0] is TRUE


def has_yield(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False
