"""Random interpretation of value-graph terms.

Two value graphs with different normal forms may still denote the same
function of the inputs.  As in Gulwani and Necula's random interpretation,
the opaque leaves (inputs, draws, uninterpreted operations) are given random
meanings and both graphs are folded over them: graphs that differ under some
meaning cannot be equal; graphs that agree under all sampled meanings are
reported as not distinguished.  The analysed program is never executed.
"""
import math
import random
from fractions import Fraction as Q
from . import vg
from .vg import T, sort_of, RANGE, open_binder, length_of, mk

UNDEF = ('undefined',)


class NoModel(Exception):
    """a term has no meaning in the evaluator"""


class TooLarge(NoModel):
    """an interpretation that takes too long to compute"""


class Reject(Exception):
    """the sampled meaning violates an assumption"""


class ArrV(object):
    __slots__ = ('dims', 'items', 'key')

    def __init__(self, dims, items):
        self.dims = tuple(dims)
        self.items = items
        self.key = ('arr', self.dims, tuple(sorted(items.items(), key=lambda p: p[0])))

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, ArrV) and self.key == o.key

    def __repr__(self):
        return 'arr%s%s' % (list(self.dims), [v for k, v in self.key[2]])

    def compact(self):
        """the rows of a selection, numbered from 0"""
        kept = sorted({k[0] for k in self.items})
        if len(kept) == self.dims[0] or 0 in self.dims[1:]:
            return self
        at = {k: i for i, k in enumerate(kept)}
        return ArrV((len(kept),) + self.dims[1:], {(at[k[0]],) + k[1:]: v for k, v in self.items.items()})

    def rows(self):
        if len(self.dims) == 1:
            return tuple(self.items[(i,)] for i in range(self.dims[0]) if (i,) in self.items)
        out = []
        for i in range(self.dims[0]):
            out.append(ArrV(self.dims[1:], {k[1:]: v for k, v in self.items.items() if k[0] == i}))
        return tuple(out)


class DictV(object):
    __slots__ = ('d', 'key')

    def __init__(self, pairs):
        self.d = {}
        for k, v in pairs:
            self.d[k] = v
        self.key = ('dict', frozenset(self.d.items()))

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, DictV) and self.key == o.key

    def __repr__(self):
        return 'dict' + repr(self.d)


def same(a, b):
    """equality of values, floats up to rounding"""
    if isinstance(a, bool) != isinstance(b, bool):
        if isinstance(a, bool) and isinstance(b, (int, float, Q)) or isinstance(b, bool) and isinstance(a, (int, float, Q)):
            return a == b
        return False
    if isinstance(a, (float, Q, int)) and isinstance(b, (float, Q, int)):
        if isinstance(a, float) or isinstance(b, float):
            a, b = float(a), float(b)
            if a != a or b != b:
                return a != a and b != b
            return a == b or abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
        return a == b
    if isinstance(a, ArrV) and isinstance(b, ArrV):
        if len(a.dims) == len(b.dims) == 1 and (len(a.items) != a.dims[0] or len(b.items) != b.dims[0]):
            return same(a.rows(), b.rows())
        if len(a.dims) == len(b.dims):
            a, b = a.compact(), b.compact()
        return a.dims == b.dims and a.items.keys() == b.items.keys() and all(same(a.items[k], b.items[k]) for k in a.items)
    if isinstance(a, ArrV) and isinstance(b, tuple) or isinstance(b, ArrV) and isinstance(a, tuple):
        a = a.rows() if isinstance(a, ArrV) else a
        b = b.rows() if isinstance(b, ArrV) else b
        return same(a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, DictV) and isinstance(b, DictV):
        return a.d.keys() == b.d.keys() and all(same(a.d[k], b.d[k]) for k in a.d)
    return a == b


def key_of(x):
    """hashable key of a value; floats to nine digits"""
    if isinstance(x, float):
        return ('%f', '%.9g' % x)
    if isinstance(x, Q) and x.denominator != 1:
        return ('%f', '%.9g' % float(x))
    if isinstance(x, tuple):
        return tuple(key_of(y) for y in x)
    if isinstance(x, ArrV):
        return ('%arr', x.dims, tuple((k, key_of(v)) for k, v in sorted(x.items.items(), key=lambda p: p[0])))
    return x


POOL = ['A', 'B', 'C', 'D', 'E', 'F', 'G']


def isnum(x):
    return isinstance(x, (int, float, Q)) and not isinstance(x, bool)


def asnum(x):
    if isinstance(x, bool):
        return Q(int(x))
    if isinstance(x, int):
        return Q(x)
    if isinstance(x, (Q, float)):
        return x
    raise NoModel('number expected: %r' % (x,))


def asint(x):
    x = asnum(x)
    if isinstance(x, float):
        if x != int(x):
            raise NoModel('int')
        return int(x)
    if x.denominator != 1:
        raise NoModel('int')
    return int(x)


def truthv(x):
    if x is None:
        return False
    if isinstance(x, bool):
        return x
    if isnum(x):
        return x != 0
    if isinstance(x, str):
        return bool(x)
    if isinstance(x, frozenset):
        return bool(x)
    if isinstance(x, DictV):
        return bool(x.d)
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0].startswith('%'):
            return True
        return bool(x)
    raise NoModel('truth')


def named_value(a, x):
    """e for an atom x == e"""
    if a.op == 'eq':
        return None if x not in a.args else a.args[1] if a.args[0] is x else a.args[0]
    if a.op in ('pos', 'memb', 'ex') or x not in a.deps:
        return None
    return vg._solve0(a, x)


class Model(object):
    MAXN = 2_000_000

    def __init__(self, seed, hints=None, size=3):
        self.rnd = random.Random(seed)
        self.herb = {}
        self.leaf_common = {}
        self.memo = {}
        self.opened = {}
        self.size = size
        self.bounds = {}
        self.hints = hints or {}
        self.big = False
        self.narrow = 0
        self.lean = .5          # how often an unknown condition is true
        self.steps = 0
        self.known = {}
        for x, L in vg.KNOWN_MEMB:
            self.known.setdefault(x, []).append(L)

    # -------------------------------------------------------- helpers
    def open(self, t):
        r = self.opened.get(t)
        if r is None:
            r = open_binder(t, 'e')
            self.opened[t] = r
        return r

    def ev(self, t, env=None):
        env = env or {}
        ks = tuple(sorted(((d.id, env[d]) for d in t.deps if d in env), key=lambda p: p[0])) if t.deps and env else ()
        key = (t.id, ks)
        r = self.memo.get(key, self)
        if r is not self:
            return r
        self.steps += 1
        if self.steps > self.MAXN:
            raise TooLarge('too large')
        r = self._ev(t, env)
        self.memo[key] = r
        return r

    def evs(self, xs, env):
        return tuple(self.evx(x, env) for x in xs)

    def evx(self, x, env):
        if isinstance(x, T):
            return self.ev(x, env)
        if isinstance(x, tuple):
            return tuple(self.evx(y, env) for y in x)
        return x

    def cond(self, c, env):
        return self.ev(c, env) is True

    def dim(self, n, env):
        k = asint(self.ev(n, env))
        if k > 400:
            raise Reject()
        return max(k, 0)

    # -------------------------------------------------------- opaque values
    def leaf(self, t, key, env):
        """value of an uninterpreted term with the evaluated key"""
        if key in self.herb:
            return self.herb[key]
        v = self.pick(t, key, env)
        self.herb[key] = v
        return v

    def pick(self, t, key, env):
        if t in self.known:
            L = self.known[t][0]
            xs = self.seqval(self.ev(L, env))
            if not xs:
                raise Reject()
            v = self.rnd.choice(xs)
            for L2 in self.known[t][1:]:
                if v not in self.seqval(self.ev(L2, env)):
                    raise Reject()
            return v
        if t in self.hints:
            return self.hints[t](self, env)
        if t.op == 'uf' and ('uf', t.args[0]) in self.hints:
            return self.hints[('uf', t.args[0])](self, env)
        if t.op == 'draw':
            v = self.drawn(t, env)
            if v is not None:
                return v
        s = sort_of(t)
        if s == 'bool':
            return self.rnd.random() < self.lean
        if s == 'int':
            lo, up = vg.lower(t), vg.upper(t)
            lo = int(lo) if lo is not None else 0
            if up is not None:
                up = asint(self.ev(up, env))
                if up <= lo:
                    raise Reject()
                return Q(self.rnd.randint(lo, min(up - 1, lo + 40)))
            if self.big and t.op in ('cell', 'at') and self.rnd.random() < .3:
                return Q(self.rnd.randint(lo, lo + self.rnd.choice((300, 70000))))
            return Q(self.rnd.randint(lo, lo + self.size))
        if s == 'num':
            lo = vg.lower(t)
            return (lo or 0) + Q(self.rnd.randint(1, 40), self.rnd.randint(1, 7))
        if s == 'str':
            return self.rnd.choice(POOL[:self.size + 1])
        if isinstance(s, tuple):
            if s[0] == 'list':
                n = self.dim(length_of(t), env)
                return self.list_value(t, key, n, env, s)
            if s[0] == 'arr':
                dims = [self.dim(d, env) for d in s[1]]
                vs = [vg.fresh(d) for d in s[1]]
                c = mk('cell', t, *vs)
                items = {}
                for ix in product(dims):
                    e = dict(env)
                    e.update({v: Q(i) for v, i in zip(vs, ix)})
                    items[ix] = self.leaf(c, ('%cell', key) + ix, e)
                return ArrV(dims, items)
            if s[0] == 'pair':
                return tuple(self.leaf(vg.mkat(t, vg.num(k)), ('%pair', key, k), env) for k in range(max(len(s) - 1, 2)))
        if s == 'set':
            return frozenset(x for x in POOL[:self.size] if self.rnd.random() < .4)
        if t.op in ('sym', 'at', 'dlook', 'mu', 'fix', 'draw', 'cell', 'fcell', 'dcell', 'var', 'attr', 'item') and not isinstance(s, tuple):
            return ('%h', self.rnd.randint(0, 3))
        return ('%h',) + (key if isinstance(key, tuple) else (key,))

    def list_value(self, t, key, n, env, s):
        v = vg.fresh(None)
        x = mk('at', t, v)
        out = []
        es = sort_of(x)
        if t in vg.DISTINCT:
            if es == 'str':
                if n > len(POOL):
                    raise Reject()
                return tuple(self.rnd.sample(POOL[:max(n, self.size + 2)], n))
            if es == 'int':
                return tuple(Q(z) for z in self.rnd.sample(range(n + 2), n))
        for i in range(n):
            for _ in range(40):
                y = self.leaf(x, ('%at', key, i, _), dict(env, **{}) | {v: Q(i)})
                if t not in vg.DISTINCT or y not in out:
                    break
            else:
                raise Reject()
            out.append(y)
        return tuple(out)

    def universe(self):
        u = self.__dict__.get('uni')
        if u is None:
            base = list(POOL[:self.size + 2])
            u = base + [(a, b) for a in base for b in base] + [Q(i) for i in range(self.size + 3)]
            self.uni = u
        return u

    def seqval(self, v):
        if isinstance(v, ArrV):
            return v.rows()
        if isinstance(v, frozenset):
            return tuple(sorted(v, key=repr))
        if isinstance(v, DictV):
            return tuple(v.d)
        if isinstance(v, str):
            return tuple(v)
        if isinstance(v, tuple) and not (v and isinstance(v[0], str) and v[0].startswith('%')):
            return v
        raise NoModel('sequence expected: %r' % (v,))

    # -------------------------------------------------------- evaluation
    def _ev(self, t, env):
        op = t.op
        f = getattr(self, 'o_' + op, None)
        if f is not None:
            return f(t, env)
        if op in ('strp', 'strm', 'strn', 'strl'):
            v = self.strop(t, env)
            if v is not None:
                return v
        if op in OPAQUE:
            return self.leaf(t, ('%' + op,) + self.evs(t.args, env), env)
        raise NoModel(op)

    def o_n(self, t, env):
        return t.args[0]

    def o_c(self, t, env):
        k, v = t.args
        if k == 'b':
            return bool(v)
        if k == 'None':
            return None
        if k == 's':
            return v
        if k == 'f':
            return float(v)
        return ('%const', k, v)

    def o_poly(self, t, env):
        r = Q(0)
        for c, m in t.args[0]:
            x = c
            for a, e in m:
                x = mulv(x, powv(asnum(self.ev(a, env)), e))
            r = addv(r, x)
        return r

    def o_var(self, t, env):
        if t in env:
            return env[t]
        return self.leaf(t, ('%var', t.id), env)

    def o_sym(self, t, env):
        return self.leaf(t, ('%sym', t.id), env)

    o_mu = o_fix = o_sym

    def o_ite(self, t, env):
        c = self.ev(t.args[0], env)
        if not isinstance(c, bool):
            c = truthv(c)
        return self.ev(t.args[1] if c else t.args[2], env)

    def o_pos(self, t, env):
        return asnum(self.ev(t.args[0], env)) > 0

    def o_eq0(self, t, env):
        return same(asnum(self.ev(t.args[0], env)), Q(0))

    def o_eq(self, t, env):
        return same(self.ev(t.args[0], env), self.ev(t.args[1], env))

    def o_truth(self, t, env):
        return truthv(self.ev(t.args[0], env))

    def o_ltx(self, t, env):
        a, b = self.evs(t.args, env)
        if isnum(a) and isnum(b):
            return a < b
        return repr(a) < repr(b)

    def o_cmpx(self, t, env):
        return self.leaf(t, ('%cmpx',) + self.evs(t.args, env), env)

    def o_iv(self, t, env):
        return Q(int(truthv(self.ev(t.args[0], env))))

    def o_mod(self, t, env):
        a, b = map(asnum, self.evs(t.args, env))
        if b == 0:
            return UNDEFN
        return a % b

    def o_fdiv(self, t, env):
        a, b = map(asnum, self.evs(t.args, env))
        if b == 0:
            return UNDEFN
        return Q(a // b)

    def o_int(self, t, env):
        a = self.ev(t.args[0], env)
        return Q(int(a)) if isnum(a) or isinstance(a, bool) else self.leaf(t, ('%int', a), env)

    def o_round(self, t, env):
        return Q(round(asnum(self.ev(t.args[0], env))))

    def o_roundn(self, t, env):
        return self.leaf(t, ('%roundn',) + self.evs(t.args, env), env)

    def o_cpow(self, t, env):
        return float(t.args[0]) ** float(t.args[1])

    def o_wrap(self, t, env):
        dt, x = t.args
        x = self.ev(x, env)
        if not isnum(x):
            raise NoModel('wrap')
        n = {'wrap8': 8, 'wrap16': 16, 'wrapu8': 8, 'wrapu16': 16}.get(dt)
        if n is None:
            # narrow floating type
            return self.leaf(t, ('%wrap', dt, x), env) if x.denominator != 1 or abs(x) > 1000 else x
        if self.narrow:
            # the width of the type against the size of the data: wide data stand for a narrow type
            n = self.narrow
        x = int(x) % (1 << n)
        if not dt.startswith('wrapu') and x >= 1 << (n - 1):
            x -= 1 << n
        return Q(x)

    def distribution(self, kind, a):
        """a family of distribution functions with its inverse: any strictly increasing family is a model"""
        d, m = kind.split('.')
        if d == 'f' and len(a) == 3:
            if a[1] <= 0 or a[2] <= 0:
                return None
            sc = a[2] / a[1]
        elif d in ('chi2', 't') and len(a) == 2:
            sc = self.leaf(vg.ZERO, ('%dist', d), {}) if ('%dist', d) in self.herb else self.herb.setdefault(
                ('%dist', d), Q(self.rnd.randint(1, 9), self.rnd.randint(5, 60)))
            sc = sc + a[1] / 8
        else:
            return None
        x = a[0]
        if m in ('ppf', 'isf'):
            p = x if m == 'ppf' else 1 - x
            return sc * p / (1 - p) if 0 < p < 1 else None
        if m in ('cdf', 'sf') and x >= 0:
            return x / (x + sc) if m == 'cdf' else sc / (x + sc)
        return None

    def o_fn(self, t, env):
        name = t.args[0]
        a = tuple(self.evx(x, env) for x in t.args[1:])
        try:
            xs = [float(x) for x in a] if all(isnum(x) for x in a) else None
            if xs is not None:
                if '.' in name:
                    r = self.distribution(name, a)
                    if r is not None:
                        return r
                if name == 'log' and xs[0] > 0:
                    return math.log(xs[0])
                if name == 'exp' and xs[0] < 300:
                    return math.exp(xs[0])
                if name in ('loggamma', 'lgamma', 'gammaln') and xs[0] > 0:
                    return math.lgamma(xs[0])
                if name == 'gamma' and 0 < xs[0] < 100:
                    return math.gamma(xs[0])
                if name == 'pow' and xs[0] > 0 and abs(xs[1]) < 200:
                    return xs[0] ** xs[1]
                if name == 'abs':
                    return abs(a[0])
                if name == 'ceil':
                    return Q(math.ceil(a[0]))
                if name == 'floor':
                    return Q(math.floor(a[0]))
                if name == 'max':
                    return max(a)
                if name == 'min':
                    return min(a)
        except (OverflowError, ValueError):
            pass
        return self.leaf(t, ('%fn', name) + a, env)

    def o_truths(self, t, env):
        return Q(sum(1 for c in t.args if self.cond(c, env)))

    def o_uf(self, t, env):
        return self.leaf(t, ('%uf', t.args[0]) + tuple(key_of(self.evx(x, env)) for x in t.args[1:]), env)

    # binders
    def bound(self, t, env):
        vs, bodies = self.open(t)
        dims = []
        e = env
        for v, n in zip(vs, t.args[1]):
            dims.append(self.dim(n, e))
        return vs, bodies, dims

    def points(self, vs, dims, env):
        for ix in product(dims):
            e = dict(env)
            for v, i in zip(vs, ix):
                e[v] = Q(i)
            yield ix, e

    def o_sum(self, t, env):
        vs, (b,), dims = self.bound(t, env)
        r = Q(0)
        for ix, e in self.points(vs, dims, env):
            r = addv(r, asnum(self.ev(b, e)))
        return r

    def o_prod(self, t, env):
        vs, (b,), dims = self.bound(t, env)
        r = Q(1)
        for ix, e in self.points(vs, dims, env):
            r = mulv(r, asnum(self.ev(b, e)))
        return r

    def anything(self, b, v, env):
        """every value that can matter to a statement about some object of any kind"""
        e = dict(env)
        for probe in (POOL[0], Q(0), (POOL[0], POOL[1])):
            e[v] = probe
            try:
                self.ev(b, e)
            except NoModel:
                pass
        out = set(POOL) | set(Q(i) for i in range(-1, 13)) | set((x, y) for x in POOL for y in POOL)

        def go(x):
            if isinstance(x, (tuple, list, frozenset)):
                if isinstance(x, tuple) and 1 < len(x) < 5 and all(isinstance(y, (str, Q)) for y in x):
                    out.add(x)
                for y in x:
                    go(y)
            elif isinstance(x, (str, Q)) and not isinstance(x, bool):
                out.add(x)
            elif isinstance(x, ArrV):
                for y in x.items.values():
                    go(y)
            elif isinstance(x, DictV):
                for y in x.d:
                    go(y)
        for x in list(self.herb.values()):
            go(x)

        def consts(t, seen):
            if t.id not in seen:
                seen.add(t.id)
                if t.op == 'c' and t.args[0] == 's':
                    out.add(t.args[1])
                for k in vg._kids(t.args, []):
                    consts(k, seen)
        consts(b, set())
        if len(out) > 400:
            raise NoModel('large universe')
        return sorted(out, key=repr)

    def o_ex(self, t, env):
        if len(t.args[1]) == 1 and t.args[1][0] is None:
            vs, (b,) = self.open(t)
            for x in self.anything(b, vs[0], env):
                if self.cond(b, {**env, vs[0]: x}):
                    return True
            return False
        if None in t.args[1]:
            raise NoModel('any object')
        vs, (b,), dims = self.bound(t, env)
        for ix, e in self.points(vs, dims, env):
            if self.cond(b, e):
                return True
        return False

    def o_flat(self, t, env):
        vs, (b,), dims = self.bound(t, env)
        out = []
        for ix, e in self.points(vs, dims, env):
            out.extend(self.seqval(self.ev(b, e)))
        return tuple(out)

    def o_arr(self, t, env):
        vs, (g, b), dims = self.bound(t, env)
        items = {}
        for ix, e in self.points(vs, dims, env):
            if self.cond(g, e):
                items[ix] = self.ev(b, e)
        return ArrV(dims, items)

    def o_first(self, t, env):
        vs, (b,), dims = self.bound(t, env)
        for ix, e in self.points(vs, dims, env):
            if self.cond(b, e):
                return Q(ix[0])
        return UNDEFN

    def o_setc(self, t, env):
        (x,), (c,) = self.open(t)
        out = set()
        cands = list(self.universe())
        numeric = []
        for a in vg.atoms_of(c):
            # members named explicitly
            e = named_value(a, x)
            if e is not None:
                if a.op != 'eq':
                    numeric.append(a)
                if x not in e.deps:
                    cands.append(self.ev(e, env))
            elif a.op == 'memb' and a.args[0] is x and x not in a.args[1].deps:
                cands.extend(self.seqval(self.ev(a.args[1], env)))
            elif a.op == 'ex':
                self.ex_cands(a, x, env, cands, numeric)
        if numeric:
            cands = [z for z in cands if isinstance(z, Q)]
        for z in cands:
            if z in out:
                continue
            if self.cond(c, {**env, x: z}):
                out.add(z)
        return frozenset(out)

    def ex_cands(self, a, x, env, cands, numeric):
        vs, (b,) = self.open(a)
        try:
            dims = [self.dim(n, env) for n in a.args[1]]
        except (NoModel, KeyError):
            return
        for at_ in vg.atoms_of(b):
            e = named_value(at_, x)
            if e is not None:
                if at_.op != 'eq':
                    numeric.append(at_)
                if x in e.deps:
                    continue
                for ix, en in self.points(vs, dims, env):
                    try:
                        cands.append(self.ev(e, en))
                    except NoModel:
                        pass

    def o_lamb(self, t, env):
        return self.leaf(t, ('%lamb', t.id, tuple((d.id, env[d]) for d in sorted(t.deps, key=lambda z: z.id) if d in env)), env)

    # sequences
    def o_seq(self, t, env):
        out = []
        for p in t.args:
            if p.op == 'el':
                out.append(self.ev(p.args[0], env))
            elif p.op == 'spl':
                out.extend(self.seqval(self.ev(p.args[0], env)))
            else:
                out.extend(self.ev(p, env))
        return tuple(out)

    def o_lst(self, t, env):
        return self.seqval(self.ev(t.args[0], env))

    def o_tup(self, t, env):
        return self.evs(t.args, env)

    def o_spl(self, t, env):
        return self.seqval(self.ev(t.args[0], env))

    def o_el(self, t, env):
        return (self.ev(t.args[0], env),)

    def o_len(self, t, env):
        L = t.args[0]
        # the length of an opaque list is what its value is built from
        s = sort_of(L)
        if L.op in LISTOPS:
            return Q(len(self.seqval(self.ev(L, env))))
        if isinstance(s, tuple) and s[0] == 'list':
            return self.leaf(t, ('%len', self.lkey(L, env)), env)
        v = self.ev(L, env)
        if isinstance(v, (ArrV, frozenset, DictV, str)) or isinstance(v, tuple) and not (
                v and isinstance(v[0], str) and v[0].startswith('%')):
            return Q(len(self.seqval(v)))
        return self.leaf(t, ('%len', v), env)

    def lkey(self, L, env):
        if L.op in ('sym', 'mu', 'fix'):
            return ('%sym', L.id)
        return (L.op,) + self.evs(L.args, env)

    def o_at(self, t, env):
        L, i = t.args
        v = self.ev(L, env)
        if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0].startswith('%'):
            return self.leaf(t, ('%at', v, self.ev(i, env)), env)
        v = self.seqval(v)
        k = asint(self.ev(i, env))
        if -len(v) <= k < len(v):
            return v[k]
        return UNDEFV

    def o_memb(self, t, env):
        x, L = t.args
        v = self.ev(L, env)
        x = self.ev(x, env)
        if isinstance(v, tuple) and v and isinstance(v[0], str) and v[0].startswith('%'):
            return self.leaf(t, ('%memb', x, v), env)
        if isinstance(v, frozenset):
            return x in v
        return any(same(x, y) for y in self.seqval(v))

    def o_idx(self, t, env):
        L, x = t.args
        v = self.seqval(self.ev(L, env))
        x = self.ev(x, env)
        for k, y in enumerate(v):
            if same(x, y):
                return Q(k)
        return UNDEFN

    def o_enum(self, t, env):
        return tuple(sorted(self.ev(t.args[0], env), key=lambda z: hash_of(z)))

    def o_card(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, frozenset):
            return Q(len(v))
        return self.leaf(t, ('%card', v), env)

    def o_count(self, t, env):
        return self.leaf(t, ('%count',) + self.evs(t.args, env), env)

    def o_shuffled(self, t, env):
        s = list(self.seqval(self.ev(t.args[0], env)))
        k = self.ev(t.args[1], env)
        random.Random(hash_of((k, len(s)))).shuffle(s)
        return tuple(s)

    def o_taken(self, t, env):
        s = self.seqval(self.ev(t.args[0], env))
        return s[:max(asint(self.ev(t.args[1], env)), 0)]

    def o_dropped(self, t, env):
        s = self.seqval(self.ev(t.args[0], env))
        return s[max(asint(self.ev(t.args[1], env)), 0):]

    def o_reversed(self, t, env):
        return tuple(reversed(self.seqval(self.ev(t.args[0], env))))

    def o_delat(self, t, env):
        s = list(self.seqval(self.ev(t.args[0], env)))
        k = asint(self.ev(t.args[1], env))
        if 0 <= k < len(s):
            del s[k]
        return tuple(s)

    def o_remval(self, t, env):
        s = list(self.seqval(self.ev(t.args[0], env)))
        x = self.ev(t.args[1], env)
        for k, y in enumerate(s):
            if same(x, y):
                del s[k]
                break
        return tuple(s)

    def o_sorted(self, t, env):
        s = self.seqval(self.ev(t.args[0], env))
        (x,), (k,) = self.open(t.args[1])
        rev = self.ev(t.args[2], env) if isinstance(t.args[2], T) else t.args[2]

        def key(z):
            v = self.ev(k, {**env, x: z})
            if isnum(v):
                return (0, v, '')
            return (1, 0, repr(v))
        return tuple(sorted(s, key=key, reverse=bool(rev)))

    def o_combos(self, t, env):
        import itertools
        s = self.seqval(self.ev(t.args[0], env))
        if len(s) > 8:
            raise NoModel('combinations')
        r = self.ev(t.args[1], env)
        f = itertools.combinations if t.op == 'combos' else itertools.permutations
        return tuple(f(s, len(s) if r is None else max(asint(r), 0)))

    o_perms = o_combos

    # arrays
    def o_cell(self, t, env):
        A = t.args[0]
        v = self.ev(A, env)
        ix = tuple(asint(self.ev(i, env)) for i in t.args[1:])
        if isinstance(v, ArrV):
            return v.items.get(ix, UNDEFV)
        if isinstance(v, tuple) and not (v and isinstance(v[0], str) and v[0].startswith('%')):
            for i in ix:
                if not isinstance(v, tuple) or not 0 <= i < len(v):
                    return UNDEFV
                v = v[i]
            return v
        return self.leaf(t, ('%cell', v) + ix, env)

    def ext(self, t, env):
        v = self.ev(t.args[0], env)
        return [asnum(x) for x in (list(v.items.values()) if isinstance(v, ArrV) else self.seqval(v))]

    def o_amax(self, t, env):
        xs = self.ext(t, env)
        return max(xs) if xs else UNDEFN

    def o_amin(self, t, env):
        xs = self.ext(t, env)
        return min(xs) if xs else UNDEFN

    def o_argmin(self, t, env):
        xs = self.ext(t, env)
        return Q(xs.index(min(xs))) if xs else UNDEFN

    def o_argmax(self, t, env):
        xs = self.ext(t, env)
        return Q(xs.index(max(xs))) if xs else UNDEFN

    # dictionaries
    def o_dct(self, t, env):
        return DictV([p for p in self.seqval(self.ev(t.args[0], env))])

    def o_dput(self, t, env):
        d = self.ev(t.args[0], env)
        if not isinstance(d, DictV):
            return ('%dput', d) + self.evs(t.args[1:], env)
        return DictV(list(d.d.items()) + [self.evs(t.args[1:], env)])

    def o_ddel(self, t, env):
        d = self.ev(t.args[0], env)
        k = self.ev(t.args[1], env)
        if not isinstance(d, DictV):
            return ('%ddel', d, k)
        return DictV([(a, b) for a, b in d.d.items() if a != k])

    def o_dlook(self, t, env):
        d, k = self.evs(t.args, env)
        if isinstance(d, DictV):
            return d.d.get(k, UNDEFV)
        if isinstance(d, tuple) and d and d[0] == '%dput':
            return d[3] if d[2] == k else self.leaf(t, ('%dlook', d[1], k), env)
        return self.leaf(t, ('%dlook', d, k), env)

    def o_dhas(self, t, env):
        d, k = self.evs(t.args, env)
        if isinstance(d, DictV):
            return k in d.d
        if isinstance(d, tuple) and d and d[0] == '%dput' and d[2] == k:
            return True
        return self.leaf(t, ('%dhas', d, k), env)

    # strings
    def o_str(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, str):
            return v
        if isinstance(v, Q) and v.denominator == 1:
            return str(v)
        return ('%str', v)

    def o_scat(self, t, env):
        ps = self.seqval(self.ev(t.args[0], env))
        out = []
        for p in ps:
            if isinstance(p, tuple) and p and p[0] == '%scat':
                qs = p[1:]
            else:
                qs = (p,)
            for q in qs:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                else:
                    out.append(q)
        if all(isinstance(p, str) for p in out):
            return ''.join(out)
        return ('%scat',) + tuple(out)

    def o_fix(self, t, env):
        if t.args[1] == 'before':
            if t.args[2] not in env:
                raise NoModel('value before an iteration')
            return env[t.args[2]]
        if t.args[1] == 'last' and len(t.args) == 7:
            lid, tag, m, body, v, n, entry = t.args
            x = self.ev(entry, env)
            for k in range(self.dim(n, env)):
                e = dict(env)
                e[v], e[m] = Q(k), x
                x = self.ev(body, e)
            return x
        return self.leaf(t, ('%fix',) + tuple(self.evx(a, env) if isinstance(a, T) and a.op != 'mu' else repr(a) for a in t.args), env)

    def o_bmeth(self, t, env):
        raise NoModel('attribute %s' % t.args[1])

    coupled = False

    def common(self, kind):
        return self.leaf_common.setdefault(kind, self.rnd.randint(1, 200) if kind == 'stdexp' else self.rnd.randint(0, 99))

    def drawn(self, t, env):
        """a possible outcome of a random draw"""
        kind, args = t.args[0], t.args[2]
        if kind == 'stdexp':
            return Q(self.common(kind) if self.coupled else self.rnd.randint(1, 200), 53)
        if kind == 'categ':
            ps = [self.ev(a, env) for a in args]
            if any(not isinstance(p, Q) or p < 0 for p in ps) or not sum(ps):
                return None
            u = Q(self.common(kind) if self.coupled else self.rnd.randint(0, 99), 100) * sum(ps)
            for j, p in enumerate(ps):
                u -= p
                if u < 0:
                    return Q(j)
            return None
        if kind == 'stdnormal':
            return Q(self.rnd.randint(-150, 150), 53)
        if kind == 'unit':
            return Q(self.rnd.randint(0, 52), 53)
        if kind == 'binomial':
            n = self.ev(args[0], env)
            p = self.ev(args[1], env)
            if not isinstance(p, Q) or not 0 <= p <= 1 or not isinstance(n, Q) or n.denominator != 1 or n < 0:
                return None
            return Q(0) if p == 0 else n if p == 1 else Q(self.rnd.randint(0, int(n)))
        if kind == 'randint':
            lo, hi = self.ev(args[0], env), self.ev(args[1], env)
            if not all(isinstance(x, Q) and x.denominator == 1 for x in (lo, hi)):
                return None
            if hi <= lo:
                raise Reject()
            return lo + self.rnd.randint(0, min(int(hi - lo) - 1, 2 ** 40))
        return None

    def o_draw(self, t, env):
        kind, k, args, loops = t.args
        return self.leaf(t, ('%draw', kind, self.evx(k, env), self.evx(args, env), self.evx(loops, env)), env)

    def o_obj(self, t, env):
        return ('%obj', t.args[0]) + tuple((k, self.ev(x, env)) for k, x in t.args[1])

    def o_pair2(self, t, env):
        return self.evs(t.args, env)

    def strop(self, t, env):
        """a method of str on known strings; None if it is not one or an operand is not plain"""
        if len(t.args) != 3 or not isinstance(t.args[2], tuple) or not isinstance(t.args[0], str) or not hasattr(str, t.args[0]):
            return None
        v = self.ev(t.args[1], env)
        xs = [self.ev(x, env) for x in t.args[2]]
        xs = [int(x) if isinstance(x, Q) and x.denominator == 1 else x for x in xs]
        if not isinstance(v, str) or v[:1] == '%' or any(not isinstance(x, (str, int)) for x in xs):
            return None
        try:
            r = getattr(v, t.args[0])(*xs)
        except (TypeError, ValueError):
            return None
        if isinstance(r, bool) or isinstance(r, str):
            return r
        if isinstance(r, int):
            return Q(r)
        if isinstance(r, (list, tuple)):
            return tuple(r)
        return None

    def o_unk(self, t, env):
        raise NoModel('unk')


LISTOPS = {'enum', 'shuffled', 'taken', 'dropped', 'reversed', 'delat', 'remval', 'sorted', 'combos', 'perms', 'seq', 'lst'}

OPAQUE = {'frame', 'ser', 'graphv', 'func', 'cls', 'ext', 'mod', 'exc', 'bound', 'misc', 'fcell', 'dcell', 'acc', 'opq',
          'dkeys', 'header', 'nrows', 'strm', 'strp', 'strl', 'strn', 'substr', 'strsub', 'parseint', 'parsefloat',
          'isnan', 'isinst', 'typeof', 'file', 'loads', 'index', 'cols', 'rowser', 'records', 'tojson', 'todict',
          'catindex', 'idxslice', 'regex', 'findall', 'nodelink', 'item', 'mcall', 'div0', 'exit', 'dtype',
          'hasattr', 'rng', 'repeat', 'slice', 'unbound', 'ref', 'opaque', 'rank', 'attr', 'raised', 'A', 'rowv', 'bmeth'}


class _Undef(object):
    def __repr__(self):
        return '?'


UNDEFV = ('%undef',)
UNDEFN = Q(-977)


def hash_of(z):
    import hashlib
    return hashlib.md5(repr(z).encode()).hexdigest()


def product(dims):
    if not dims:
        yield ()
        return
    for i in range(dims[0]):
        for r in product(dims[1:]):
            yield (i,) + r


def addv(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return float(a) + float(b)
    return a + b


def mulv(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return float(a) * float(b)
    return a * b


def powv(a, e):
    if e.denominator == 1:
        if a == 0 and e < 0:
            return float('nan')
        return a ** int(e)
    if a < 0:
        return float('nan')
    if a == 0 and e < 0:
        return float('nan')
    return float(a) ** float(e)


def compare(pairs, assumptions=(), trials=60, seed=1, size=3, hints=None, coupled=False):
    """pairs: [(label, got, want)].  Returns (verdict, detail): 'differ' with a witness, 'agree', or 'unknown'."""
    good = large = 0
    last = None
    seen = [set() for _ in pairs]
    big = any(mentions(t, 'wrap') for _, g, w in pairs for t in (g, w))
    for k in range(trials * 6):
        m = Model(seed * 7919 + k, hints, size)
        m.big = big and k % 2 == 1
        m.narrow = {2: 3, 6: 2}.get(k % 8, 0) if big else 0
        m.lean = (.5, .9, .15, .97)[k // 2 % 4]
        m.coupled = coupled
        try:
            if not all(m.cond(a, {}) for a in assumptions):
                continue
            ok = True
            for n, (lab, g, w) in enumerate(pairs):
                y = m.ev(w)
                try:
                    x = m.ev(g)
                except NoModel as e:
                    if not (m.narrow and '%undef' in str(e)) or has_undef(y):
                        raise
                    x = UNDEFV
                if m.narrow and has_undef(x) and not has_undef(y):
                    return 'differ', {'term': lab, 'got': 'not defined: a value does not fit its type', 'want': show(y),
                                      'under': {repr(kk)[:120]: show(v) for kk, v in list(named(m))[:24]}}
                seen[n].add(repr(x)[:2000])
                if has_undef(x) or has_undef(y):
                    ok = False
                    continue
                if not same(x, y):
                    return 'differ', {'term': lab, 'got': show(x), 'want': show(y),
                                      'under': {repr(kk)[:120]: show(v) for kk, v in list(named(m))[:24]}}
            if ok:
                good += 1
        except Reject:
            continue
        except TooLarge as e:
            large += 1
            if large > 4:
                return 'unknown', str(e)
        except NoModel as e:
            return 'unknown', str(e)
        except (OverflowError, ZeroDivisionError, RecursionError) as e:
            last = repr(e)
            continue
        if good >= trials:
            break
    if good == 0:
        return 'unknown', 'no admissible interpretation found ' + str(last or '')
    return 'agree', '%d interpretations with %d different values' % (good, min(map(len, seen)))


def mentions(t, op, seen=None):
    seen = set() if seen is None else seen
    if t.id in seen:
        return False
    seen.add(t.id)
    return t.op == op or any(mentions(k, op, seen) for k in vg._kids(t.args, []))


def named(m):
    byid = {}
    for t in vg._tab.values():
        if t.op == 'sym':
            byid[t.id] = t
    for k, v in m.herb.items():
        if k[0] == '%sym' and k[1] in byid:
            yield byid[k[1]].args[0], v


def has_undef(x):
    if isinstance(x, tuple):
        if x == UNDEFV:
            return True
        return any(has_undef(y) for y in x)
    if isinstance(x, ArrV):
        return any(has_undef(y) for y in x.items.values())
    if isinstance(x, DictV):
        return any(has_undef(y) for kv in x.d.items() for y in kv)
    return False


def show(x):
    if isinstance(x, Q):
        return str(x)
    if isinstance(x, (tuple, list)):
        return '(' + ', '.join(show(y) for y in x) + ')'
    if isinstance(x, frozenset):
        return '{' + ', '.join(sorted(show(y) for y in x)) + '}'
    return repr(x)
