"""Gated value graph: hash-consed terms in normal form.

A term denotes a value of the analysed program as a function of its inputs.
Joins are gated by conditions (multi-terminal decision diagrams over ordered
atomic conditions); arithmetic is kept in polynomial normal form; loops are
closed into bounded binders (sum, prod, exists, flat sequences, arrays).
Nothing here enumerates paths or asks a solver: two terms are equal iff their
normal forms are the same node.
"""
from fractions import Fraction as Q
import itertools
import sys
sys.setrecursionlimit(20000)

ELEMENT_BINDERS = {'lamb', 'setc'}   # their variable is any value, not an index
BINDERS = {'sum', 'prod', 'ex', 'flat', 'arr', 'argx', 'first', 'lamb', 'setc'}
_tab = {}
_memo = {}


class T(object):
    __slots__ = ('op', 'args', 'id', 'deps', 'h', 'unk')

    def __repr__(self):
        return pp(self)


def _kids(args, out):
    for a in args:
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            _kids(a, out)
    return out


EMPTY = frozenset()


def mk(op, *args):
    key = (op, args)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = args
    t.id = len(_tab)
    ks = _kids(args, [])
    if op in ('var', 'mu', 'bv'):
        t.deps = frozenset((t,))
        t.h = args[0] if op == 'bv' else 0
        t.unk = False
    else:
        d = set()
        for k in ks:
            d |= k.deps
        if op in BINDERS:
            lev = args[0]
            d = {x for x in d if not (x.op == 'bv' and x.args[0] == lev)}
        t.deps = frozenset(d) if d else EMPTY
        t.h = max([k.h for k in ks], default=0)
        if op in BINDERS:
            t.h = max(t.h, args[0])
        t.unk = op == 'unk' or any(k.unk for k in ks)
    _tab[key] = t
    return t


# ---------------------------------------------------------------- constants
def num(q):
    return mk('n', Q(q))


TRUE = mk('c', 'b', True)
FALSE = mk('c', 'b', False)
NONE = mk('c', 'None', None)
NAN = mk('c', 'f', 'nan')
INF = mk('c', 'f', 'inf')
ZERO = num(0)
ONE = num(1)


def const(v):
    if v is None:
        return NONE
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, (int, Q)):
        return num(v)
    if isinstance(v, float):
        if v != v:
            return NAN
        if v in (float('inf'), float('-inf')):
            return INF if v > 0 else neg(INF)
        return num(Q(repr(v)))
    if isinstance(v, str):
        return mk('c', 's', v)
    if isinstance(v, bytes):
        return mk('c', 'y', v)
    return mk('c', type(v).__name__, repr(v))


def is_num(t):
    return t.op == 'n'


def numval(t):
    return t.args[0] if t.op == 'n' else None


def is_int_const(t):
    return t.op == 'n' and t.args[0].denominator == 1


# ---------------------------------------------------------------- symbols
SORT = {}      # symbol term -> descriptor
RANGE = {}     # var term -> upper bound (exclusive) term, or None
LOWER = {}     # term -> integer lower bound (nat symbols)
_fresh = [0]


def sym(name, sort=None, low=None):
    t = mk('sym', name)
    if sort is not None:
        SORT[t] = sort
    if low is not None:
        LOWER[t] = low
    return t


def fresh(n=None, hint='i', sort='int'):
    _fresh[0] += 1
    t = mk('var', '%s%d' % (hint, _fresh[0]))
    SORT[t] = sort
    RANGE[t] = n
    return t


def mu(loop, key, sort=None):
    t = mk('mu', loop, key)
    if sort is not None:
        SORT[t] = sort
    return t


INT_OPS = {'len', 'idx', 'mod', 'fdiv', 'int', 'iv', 'count', 'rank', 'bv'}
SORT_RULES = {}    # op -> function(t) -> sort


def sort_of(t):
    s = SORT.get(t)
    if s is not None:
        return s
    op = t.op
    if op == 'bv' and len(t.args) > 2:
        return None
    if op == 'n':
        return 'int' if t.args[0].denominator == 1 else 'num'
    if op == 'poly':
        for c, m in t.args[0]:
            if c.denominator != 1:
                return 'num'
            for a, e in m:
                if e.denominator != 1 or e < 0 or sort_of(a) != 'int':
                    return 'num'
        return 'int'
    if op in INT_OPS:
        return 'int'
    if op in ('sum', 'prod'):
        return 'int' if sort_of(t.args[2][0]) == 'int' else 'num'
    if op == 'c':
        return {'s': 'str', 'b': 'bool', 'None': 'none', 'f': 'num'}.get(t.args[0])
    if op == 'ite':
        a, b = sort_of(t.args[1]), sort_of(t.args[2])
        if a == b:
            return a
        if {a, b} <= {'int', 'num'}:
            return 'num'
        return None
    if op in ('fn',):
        if t.args[0] == 'pow' and sort_of(t.args[1]) == 'int' and sort_of(t.args[2]) == 'int' and _nonneg(t.args[2]):
            return 'int'
        return 'num'
    if op == 'at':
        s = sort_of(t.args[0])
        if isinstance(s, tuple) and s[0] == 'list':
            return s[1](t) if callable(s[1]) else s[1]
        if isinstance(s, tuple) and s[0] == 'pair' and is_int_const(t.args[1]):
            k = int(t.args[1].args[0])
            return s[1 + k] if 0 <= k < len(s) - 1 else None
        return None
    if op == 'cell':
        s = sort_of(t.args[0])
        if isinstance(s, tuple) and s[0] == 'arr':
            return s[2] if s[2] in ('int', 'num', 'bool') else (s[2] if isinstance(s[2], tuple) else None)
        return None
    if op in SORT_RULES:
        return SORT_RULES[op](t)
    return None


def _nonneg(t):
    lo = _extreme(t, 1)
    return lo is not None and lo >= 0


def is_numeric(t):
    return t.op in ('n', 'poly', 'sum', 'prod', 'fn') or t is NAN or t is INF or sort_of(t) in ('int', 'num')


# ---------------------------------------------------------------- decision diagrams
def _ites(args, out):
    for a in args:
        if isinstance(a, T):
            if a.op == 'ite':
                out.append(a)
        elif isinstance(a, tuple):
            _ites(a, out)
    return out


def _cof_args(args, v, val):
    r = []
    for a in args:
        if isinstance(a, T):
            r.append(cof(a, v, val))
        elif isinstance(a, tuple):
            r.append(_cof_args(a, v, val))
        else:
            r.append(a)
    return tuple(r)


def cof(t, v, val):
    """cofactor w.r.t. the top-most atom v"""
    if t.op == 'ite' and t.args[0] is v:
        return t.args[1] if val else t.args[2]
    return t


def node(v, hi, lo):
    if hi is lo:
        return hi
    hi = restrict_implied(hi, v, True)
    lo = restrict_implied(lo, v, False)
    if hi is lo:
        return hi
    if lo.op == 'ite' or hi.op == 'ite':
        # keep the order even if an operand got a smaller atom
        m = min([x.args[0] for x in (hi, lo) if x.op == 'ite'], key=lambda x: x.id)
        if m.id < v.id:
            return node(m, node(v, cof(hi, m, True), cof(lo, m, True)),
                        node(v, cof(hi, m, False), cof(lo, m, False)))
    return mk('ite', v, hi, lo)


def restrict(t, atom, val):
    """cofactor w.r.t. any atom of the diagram (and implied ones)"""
    key = ('R', t, atom, val)
    r = _memo.get(key)
    if r is not None:
        return r
    if t.op != 'ite':
        r = t
    else:
        v, hi, lo = t.args
        if v is atom:
            r = hi if val else lo
            r = restrict(r, atom, val)
        else:
            w = implied(v, atom, val)
            if w is True:
                r = restrict(hi, atom, val)
            elif w is False:
                r = restrict(lo, atom, val)
            else:
                r = node(v, restrict(hi, atom, val), restrict(lo, atom, val))
    _memo[key] = r
    return r


def restrict_implied(t, atom, val):
    return restrict(t, atom, val)


def _poly_rel(p, q):
    """constant c with q = s*p + c for s in (1,-1), else None"""
    d = to_poly(sub(q, p))
    if all(m == () for m in d):
        return 1, d.get((), Q(0))
    d = to_poly(add(q, p))
    if all(m == () for m in d):
        return -1, d.get((), Q(0))
    return None


def _num_of(atom):
    """(kind, poly) for arithmetic atoms"""
    if atom.op == 'pos':
        return 'pos', atom.args[0]
    if atom.op == 'eq0':
        return 'eq', atom.args[0]
    if atom.op == 'eq' and is_numeric(atom.args[0]) and is_numeric(atom.args[1]):
        return 'eq', sub(atom.args[0], atom.args[1])
    return None


IMPLIED_RULES = []


def implied(w, v, val):
    """truth of atom w given atom v == val, or None (pairwise theory facts)"""
    key = ('I', w, v, val)
    if key in _memo:
        return _memo[key]
    r = _implied(w, v, val)
    _memo[key] = r
    return r


def _implied(w, v, val):
    if w is v:
        return val
    a, b = _num_of(v), _num_of(w)
    if a and b:
        (kv, p), (kw, q) = a, b
        rel = _poly_rel(p, q)
        if rel:
            s, c = rel
            integral = sort_of(p) == 'int'
            if kv == 'eq' and val:          # p == 0 -> q == c
                if kw == 'eq':
                    return c == 0
                return c > 0
            if kv == 'eq':                   # p != 0
                return False if (kw == 'eq' and c == 0) else None
            # v is pos(p)
            if val:                          # p > 0
                one = Q(1) if integral else Q(0)
                if s == 1:                   # q = p + c
                    if kw == 'pos':
                        return True if (c >= 0 or (integral and c + one > 0)) else None
                    return False if c >= 0 or (integral and c + one > 0) else None
                # q = c - p  < c
                if kw == 'pos':
                    return False if c - one <= 0 else None
                return False if (c - one < 0 or c <= 0) else None
            else:                            # p <= 0
                if s == 1:                   # q <= c
                    if kw == 'pos':
                        return False if c <= 0 else None
                    return False if c < 0 else None
                if kw == 'pos':              # q >= c
                    return True if c > 0 else None
                return False if c > 0 else None
        return None
    if v.op == 'eq' and val:
        x, y = v.args
        if w.op == 'eq' and w is not v:
            for p1, p2 in ((x, y), (y, x)):
                for q1, q2 in (w.args, w.args[::-1]):
                    if p1 is q1 and is_lit(p2) and is_lit(q2):
                        return p2 is q2
        if w.op == 'truth':
            for p1, p2 in ((x, y), (y, x)):
                if p1 is w.args[0] and is_lit(p2):
                    return truth(p2) is TRUE
    if v.op == 'truth' and val and w.op == 'eq':
        for q1, q2 in (w.args, w.args[::-1]):
            if q1 is v.args[0] and is_lit(q2) and truth(q2) is FALSE:
                return False
    for f in IMPLIED_RULES:
        r = f(w, v, val)
        if r is not None:
            return r
    return None


def is_lit(t):
    return t.op in ('c', 'n')


def lift(name, fn, args):
    """apply fn to args, pushing it below every decision in the arguments"""
    ts = _ites(args, [])
    if not ts:
        key = ('L', name, args)
        r = _memo.get(key)
        if r is None:
            r = fn(*args)
            _memo[key] = r
        return r
    key = ('L', name, args)
    r = _memo.get(key)
    if r is not None:
        return r
    v = min((t.args[0] for t in ts), key=lambda x: x.id)
    hi = lift(name, fn, _cof_args(args, v, True))
    lo = lift(name, fn, _cof_args(args, v, False))
    r = node(v, hi, lo) if _ordered(v, hi, lo) else ite(batom(v), hi, lo)
    _memo[key] = r
    return r


def _ordered(v, hi, lo):
    for t in (hi, lo):
        if t.op == 'ite' and t.args[0].id <= v.id:
            return False
    return True


UNIVERSAL = {}        # atom op -> [(variables, pattern, value)]: facts about the values loops end with


def know(c):
    """record what holds of the symbols for the final values of a loop whenever c holds of them"""
    for a, v in literals(c):
        if a.op == 'ex' and not v and len(a.args[1]) == 1:
            vs, (body,) = open_binder(a)
            for b, w in literals(not_(body)):
                UNIVERSAL.setdefault(b.op, []).append((tuple(vs), b, w))
        elif a.op in ('memb', 'eq', 'eq0'):
            UNIVERSAL.setdefault(a.op, []).append(((), a, v))


def _match(p, t, vs, env):
    if isinstance(p, tuple):
        return isinstance(t, tuple) and len(p) == len(t) and all(_match(x, y, vs, env) for x, y in zip(p, t))
    if not isinstance(p, T):
        return p == t
    if p in vs:
        if not isinstance(t, T) or env.setdefault(p, t) is not t:
            return False
        n = RANGE[p]
        return t.op == 'var' and RANGE.get(t) is n or in_range(t, n) is TRUE
    if not isinstance(t, T):
        return False
    if not any(v in p.deps for v in vs):
        return p is t
    return p.op == t.op and _match(p.args, t.args, vs, env)


def universal(x):
    for vs, p, v in UNIVERSAL.get(x.op, ()):
        if _match(p, x, vs, {}) or (x.op == 'eq' and _match(p.args, x.args[::-1], vs, {})):
            return TRUE if v else FALSE
    if x.op == 'eq':
        # an element of a list that does not contain the other side
        for a, b in (x.args, x.args[::-1]):
            if a.op == 'at' and in_range(a.args[1], length_of(a.args[0])) is TRUE and universal(mk('memb', b, a.args[0])) is FALSE:
                return FALSE
    return None


def batom(x):
    """boolean opaque term as a condition"""
    if x is TRUE or x is FALSE or x.op == 'ite':
        return x
    if UNIVERSAL and (x.op in UNIVERSAL or x.op == 'eq'):
        r = universal(x)
        if r is not None:
            return r
    return mk('ite', x, TRUE, FALSE)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    key = ('ite', c, a, b)
    r = _memo.get(key)
    if r is not None:
        return r
    if c.op != 'ite':
        c = batom(c)
    r = _collapse(c, a, b)
    if r is not None:
        _memo[key] = r
        return r
    tops = [t.args[0] for t in (c, a, b) if t.op == 'ite']
    v = min(tops, key=lambda x: x.id)
    ch, cl = restrict(c, v, True), restrict(c, v, False)
    ah, al = restrict(a, v, True), restrict(a, v, False)
    bh, bl = restrict(b, v, True), restrict(b, v, False)
    r = node(v, ite(ch, ah, bh), ite(cl, al, bl))
    _memo[key] = r
    return r


def contains(t, old, memo=None):
    memo = {} if memo is None else memo
    if t is old:
        return True
    r = memo.get(t)
    if r is None:
        r = any(contains(k, old, memo) for k in _kids(t.args, []))
        memo[t] = r
    return r


def replace_term(t, old, new, memo=None):
    """t with every occurrence of the subterm old replaced, renormalised"""
    memo = {} if memo is None else memo
    if t is old:
        return new
    r = memo.get(t)
    if r is not None:
        return r
    if not contains(t, old):
        r = t
    elif t.op == 'ite':
        c = rebuild_atom(_replace_atom(t.args[0], old, new, memo))
        r = ite(c, replace_term(t.args[1], old, new, memo), replace_term(t.args[2], old, new, memo))
    elif t.op == 'poly':
        r = ZERO
        for c, m in t.args[0]:
            x = num(c)
            for a, e in m:
                x = mul(x, powq(replace_term(a, old, new, memo), e))
            r = add(r, x)
    elif t.op in BINDERS:
        vs, bs = open_binder(t)
        ns = _replace_args(t.args[1], old, new, memo)
        ws = [fresh(n, sort=None if t.op in ELEMENT_BINDERS else "int") for n in ns]
        mp = dict(zip(vs, ws))
        bs2 = tuple(replace_term(subst(b, mp), old, new, memo) if isinstance(b, T) else b for b in bs)
        r = CLOSE[t.op](ws, bs2, _replace_args(t.args[3], old, new, memo))
    else:
        r = rebuild(t.op, _replace_args(t.args, old, new, memo))
    memo[t] = r
    return r


def _replace_atom(a, old, new, memo):
    if a is old:
        return new
    if not contains(a, old):
        return batom(a)
    if a.op in BINDERS:
        return replace_term(a, old, new, memo)
    return rebuild(a.op, _replace_args(a.args, old, new, memo))


def _replace_args(args, old, new, memo):
    r = []
    for a in args:
        if isinstance(a, T):
            r.append(replace_term(a, old, new, memo))
        elif isinstance(a, tuple):
            r.append(_replace_args(a, old, new, memo))
        else:
            r.append(a)
    return tuple(r)


def _collapse(c, a, b):
    """ite(t == k, a, b) is b if b with t := k is a (and dually for t != k)"""
    if a in (TRUE, FALSE) and b in (TRUE, FALSE):
        return None
    v = c.args[0]
    if v.op not in ('eq', 'eq0'):
        return None
    if c.args[1] is TRUE and c.args[2] is FALSE:
        hi, lo = a, b
    elif c.args[1] is FALSE and c.args[2] is TRUE:
        hi, lo = b, a
    else:
        return None
    if v.op == 'eq0':
        return None
    x, y = v.args
    for old, new in ((x, y), (y, x)):
        if is_lit(new) and not is_lit(old) and contains(lo, old):
            if replace_term(lo, old, new) is hi:
                return lo
    return None


def not_(c):
    return ite(c, FALSE, TRUE)


def and_(*cs):
    r = TRUE
    for c in cs:
        r = ite(r, c, FALSE)
    return r


def or_(*cs):
    r = FALSE
    for c in cs:
        r = ite(r, TRUE, c)
    return r


def iff(a, b):
    return ite(a, b, not_(b))


def atoms_of(t, out=None):
    """atoms of the top decision diagram"""
    out = {} if out is None else out
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen or x.op != 'ite':
            continue
        seen.add(x.id)
        out[x.args[0]] = True
        st += [x.args[1], x.args[2]]
    return list(out)


def leaves(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite':
            st += [x.args[2], x.args[1]]
        else:
            out.append(x)
    return out


def cubes(t):
    """[(literals, leaf)] of a decision diagram"""
    out = []

    def go(x, lits):
        if x.op == 'ite':
            go(x.args[1], lits + ((x.args[0], True),))
            go(x.args[2], lits + ((x.args[0], False),))
        else:
            out.append((lits, x))
    go(t, ())
    return out


def map_leaves(t, f):
    return lift(f, lambda x: f(x), (t,)) if not callable(f) else _mapl(t, f)


def _mapl(t, f):
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op == 'ite':
                r = ite(batom(x.args[0]), go(x.args[1]), go(x.args[2]))
            else:
                r = f(x)
            memo[x] = r
        return r
    return go(t)


def literals(c):
    """atoms whose value is forced when condition c holds"""
    out = []
    if c is TRUE:
        return out
    for a in atoms_of(c):
        if restrict(c, a, True) is FALSE:
            out.append((a, False))
        elif restrict(c, a, False) is FALSE:
            out.append((a, True))
    return out


def simplify(t, facts):
    """cofactor a diagram by a dict atom->bool"""
    if t.op != 'ite' or not facts:
        return t
    for a in atoms_of(t):
        pass
    for a, v in facts:
        if t.op != 'ite':
            break
        t = restrict(t, a, v)
    return t


# ---------------------------------------------------------------- polynomials
def to_poly(t):
    if t.op == 'n':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly':
        return dict((m, c) for c, m in t.args[0])
    if t is TRUE:
        return {(): Q(1)}
    if t is FALSE:
        return {}
    return {((t, Q(1)),): Q(1)}


def _mkey(m):
    return tuple((a.id, e) for a, e in m)


def from_poly(d):
    items = [(m, c) for m, c in d.items() if c]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: _mkey(mc[0]))
    return mk('poly', tuple((c, m) for m, c in items))


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, Q(0)) + e
    r = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == 'iv':
            e = Q(1)
        r.append((a, e))
    r.sort(key=lambda ae: ae[0].id)
    return tuple(r)


def _padd(p, q):
    d = dict(p)
    for m, c in q.items():
        d[m] = d.get(m, Q(0)) + c
    return d


def _pmul(p, q):
    d = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mono_mul(m1, m2)
            d[m] = d.get(m, Q(0)) + c1 * c2
    return _expand_atoms(d)


def _expand_atoms(d):
    """a polynomial atom with a positive integer exponent is expanded"""
    for m in d:
        for a, e in m:
            if a.op == 'poly' and e.denominator == 1 and e > 0:
                rest = tuple(x for x in m if x[0] is not a)
                dd = dict(d)
                c = dd.pop(m)
                q = {rest: c}
                for _ in range(int(e)):
                    q = _pmul(q, to_poly(a))
                return _expand_atoms(_padd(dd, q))
    return d


def _nonnum(t):
    return t is NAN or t is INF or t is NONE or (t.op == 'c' and t.args[0] == 's')


def _add2(a, b):
    if a is NAN or b is NAN:
        return NAN
    if a is INF or b is INF:
        return INF
    return from_poly(_padd(to_poly(a), to_poly(b)))


def add(*ts):
    r = ZERO
    for t in ts:
        if r is ZERO and t.op != 'c':
            r = t
        elif t is not ZERO:
            r = lift('add', _add2, (r, t))
    return r


def _mul2(a, b):
    if a is NAN or b is NAN:
        return NAN
    if a is INF or b is INF:
        return mk('fn', 'mulinf', a, b) if not (is_num(a) and a.args[0] > 0 or is_num(b) and b.args[0] > 0) else INF
    return from_poly(_pmul(to_poly(a), to_poly(b)))


def mul(*ts):
    r = ONE
    for t in ts:
        if t is ONE:
            continue
        r = t if r is ONE and t.op != 'c' else lift('mul', _mul2, (r, t))
    return r


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    return add(a, neg(b))


def _content(d):
    """(c, d/c) with the first monomial's coefficient 1"""
    ms = sorted(d, key=_mkey)
    c = d[ms[0]]
    return c, {m: x / c for m, x in d.items()}


def _pow(t, q):
    """t ** q for rational q"""
    if q == 0:
        return ONE
    d = to_poly(t)
    if not d:
        return ZERO if q > 0 else mk('fn', 'div0', t)
    if len(d) == 1:
        (m, c), = d.items()
        if q.denominator == 1:
            return from_poly({tuple((a, e * q) for a, e in m): c ** int(q)})
        if c > 0:
            r = _rat_root(c, q)
            if r is not None:
                return from_poly({tuple((a, e * q) for a, e in m): r})
            k = mk('cpow', c, q)
            return from_poly(_pmul({tuple((a, e * q) for a, e in m): Q(1)}, {((k, Q(1)),): Q(1)}))
        return mk('fn', 'pow', t, num(q))
    if q.denominator == 1 and q > 0:
        r = {(): Q(1)}
        for _ in range(int(q)):
            r = _pmul(r, d)
        return from_poly(r)
    c, dn = _content(d)
    base = from_poly(dn)
    if q.denominator == 1:
        return from_poly({((base, q),): c ** int(q)})
    if c > 0:
        r = _rat_root(c, q)
        if r is not None:
            return from_poly({((base, q),): r})
        return from_poly({tuple(sorted(((base, q), (mk('cpow', c, q), Q(1))), key=lambda x: x[0].id)): Q(1)})
    return mk('fn', 'pow', t, num(q))


def _rat_root(c, q):
    n = q.denominator
    p = c ** abs(q.numerator)
    def iroot(x):
        r = round(x ** (1.0 / n))
        for k in (r - 1, r, r + 1):
            if k >= 0 and k ** n == x:
                return k
        return None
    a, b = iroot(p.numerator), iroot(p.denominator)
    if a is None or b is None:
        return None
    r = Q(a, b)
    return r if q > 0 else 1 / r


def powq(t, q):
    return lift(('pow', q), lambda x: _pow(x, q), (t,))


def _pow2(a, b):
    if is_num(b) and b.args[0].denominator <= 4 and abs(b.args[0]) <= 6:
        return _pow(a, b.args[0])
    if is_num(a) and is_num(b) and b.args[0].denominator == 1 and abs(b.args[0]) <= 128 and a.args[0]:
        return num(a.args[0] ** int(b.args[0]))
    return mk('fn', 'pow', a, b)


def power(a, b):
    return lift('power', _pow2, (a, b))


def div(a, b):
    return mul(a, powq(b, Q(-1)))


def fn(name, *args):
    """uninterpreted real function"""
    return lift(('fn', name), lambda *a: mk('fn', name, *a), tuple(args))


# ---------------------------------------------------------------- bounds
_XM = {}


def _extreme(p, sign, depth=0):
    """lower bound (sign=1) of poly p as Fraction or None; upper if sign=-1"""
    k = (p.id, sign, depth > 12)
    if k in _XM:
        return _XM[k]
    r = _extreme0(p, sign, depth)
    if depth == 0 or r is not None:
        _XM[k] = r
    return r


def _extreme0(p, sign, depth=0):
    if sign < 0:
        r = _extreme(neg(p), 1, depth)
        return None if r is None else -r
    d = to_poly(p)
    # eliminate the youngest ranged variable occurring linearly
    vs = set()
    for m in d:
        for a, e in m:
            if a.op == 'var' and RANGE.get(a) is not None:
                vs.add(a)
    for v in sorted(vs, key=lambda x: -x.id):
        lin, rest, ok = {}, {}, True
        for m, c in d.items():
            es = [e for a, e in m if a is v]
            others = [a for a, e in m if a is not v and v in a.deps]
            if others:
                ok = False
                break
            if not es:
                rest[m] = c
            elif es[0] == 1:
                lin[tuple(x for x in m if x[0] is not v)] = c
            else:
                ok = False
                break
        if not ok or depth > 12:
            continue
        a = from_poly(lin)
        lo = _extreme(a, 1, depth + 1)
        if lo is not None and lo >= 0:
            return _extreme(from_poly(rest), 1, depth + 1)
        hi = _extreme(a, -1, depth + 1)
        if hi is not None and hi <= 0:
            return _extreme(add(from_poly(rest), mul(a, sub(RANGE[v], ONE))), 1, depth + 1)
    if depth <= 12:
        for m, c in d.items():
            if c >= 0:
                continue
            for a, e in m:
                if e != 1:
                    continue
                u = upper(a)
                if u is None:
                    continue
                rest_m = from_poly({tuple(x for x in m if x[0] is not a): -c})
                lo = _extreme(rest_m, 1, depth + 1)
                if lo is None or lo < 0:
                    continue
                dd = dict(d)
                del dd[m]
                r = _extreme(sub(from_poly(dd), mul(rest_m, sub(u, ONE))), 1, depth + 1)
                if r is not None:
                    return r
    tot = Q(0)
    for m, c in d.items():
        if m == ():
            tot += c
            continue
        if c < 0:
            return None
        lo = Q(1)
        for a, e in m:
            la = lower(a)
            if la is None or e.denominator != 1 or e < 0:
                return None
            lo *= la ** int(e)
        tot += c * lo
    return tot


UPPER = {}        # base symbol -> function(index terms) -> exclusive upper bound of the element


def upper(a):
    """exclusive upper bound term of an atom, or None"""
    if a.op == 'mod':
        return a.args[1]
    if a.op in ('cell', 'at') and a.args[0] in UPPER:
        return UPPER[a.args[0]](*a.args[1:])
    if a.op == 'idx':
        return length_of(a.args[0]) if a.args[0].op != 'seq' else None
    return None


def lower(a):
    if a in LOWER:
        return Q(LOWER[a])
    if a.op in ('len', 'idx', 'iv', 'rank', 'count'):
        return Q(0)
    if a.op == 'var':
        return Q(0) if RANGE.get(a) is not None else None
    if a.op == 'mod':
        return Q(0)
    if a.op == 'cell':
        return Q(LOWER[a.args[0]]) if a.args[0] in LOWER else None
    if a.op == 'at':
        return Q(LOWER[a.args[0]]) if a.args[0] in LOWER else None
    if a.op == 'prod':
        b = a.args[2][0]
        lo = lower(b) if b.op not in ('n', 'poly') else _extreme(b, 1)
        if lo is not None and lo >= 1:
            return Q(1)
        return Q(0) if lo is not None and lo >= 0 else None
    if a.op == 'sum':
        lo = _extreme(a.args[2][0], 1)
        return Q(0) if lo is not None and lo >= 0 else None
    return None


# ---------------------------------------------------------------- comparisons
def _lead_sign(d):
    ms = [m for m in sorted(d, key=_mkey) if m != ()]
    return 1 if d[ms[0]] > 0 else -1


def _pos(p):
    """p > 0"""
    if p.op == 'n':
        return TRUE if p.args[0] > 0 else FALSE
    if p is INF:
        return TRUE
    if p is NAN or _nonnum(p):
        return batom(mk('cmpx', p))
    lo = _extreme(p, 1)
    if lo is not None and lo > 0:
        return TRUE
    hi = _extreme(p, -1)
    if hi is not None and hi <= 0:
        return FALSE
    d = to_poly(p)
    integral = sort_of(p) == 'int'
    # strip a positive constant factor
    cs = [abs(c) for m, c in d.items() if m != ()]
    g = cs[0]
    if integral:
        import math
        g = Q(0)
        for c in cs:
            g = Q(math.gcd(int(g), int(c)))
        c0 = d.get((), Q(0))
        # g*q + c0 > 0  <=>  q > -c0/g  <=> q + ceil(c0/g) > 0 for integers
        dd = {m: c / g for m, c in d.items() if m != ()}
        k = -((-c0) // g)
        if k:
            dd[()] = Q(k)
        d = dd
        if _lead_sign(d) < 0:
            q = from_poly(_padd({m: -c for m, c in d.items()}, {(): Q(1)}))
            return not_(batom(mk('pos', q)))
        return batom(mk('pos', from_poly(d)))
    d = {m: c / g for m, c in d.items()}
    # positive common monomial factor could be stripped; not needed here
    if _lead_sign(d) < 0:
        q = from_poly({m: -c for m, c in d.items()})
        return and_(not_(batom(mk('pos', q))), not_(_eq0(q)))
    return batom(mk('pos', from_poly(d)))


def pos(p):
    return lift('posi', _pos, (p,))


def lt(a, b):
    return lift('lt', _lt, (a, b))


def _lt(a, b):
    if a.op == 'c' and a.args[0] == 's' and b.op == 'c' and b.args[0] == 's':
        return const(a.args[1] < b.args[1])
    if a in (INF, NAN) or b in (INF, NAN):
        if b is INF and a is not INF and a is not NAN and is_num(a):
            return TRUE
        if a is INF:
            return FALSE
        return batom(mk('ltx', a, b))
    return pos(sub(b, a))


def le(a, b):
    return not_(lt(b, a))


def _radix_split(p):
    """S*A + B == 0 with -S < B < S  <=>  A == 0 and B == 0 (integers)"""
    if sort_of(p) != 'int':
        return None
    d = to_poly(p)
    if len(d) < 2:
        return None
    cand = {}
    for m in d:
        for a, e in m:
            if lower(a) is not None and lower(a) >= 1:
                cand[a] = True
    for S in sorted(cand, key=lambda a: a.id):
        A, B = {}, {}
        for m, c in d.items():
            es = [e for a, e in m if a is S]
            if es and es[0] >= 1:
                A[tuple((a, e - 1 if a is S else e) for a, e in m if not (a is S and e == 1))] = c
            else:
                B[m] = c
        if not A or not B:
            continue
        Bp = from_poly(B)
        if any(S in k.deps for k in _kids(Bp.args, [])) if False else False:
            continue
        lo = _extreme(add(Bp, S), 1)
        hi = _extreme(sub(S, Bp), 1)
        if lo is not None and lo > 0 and hi is not None and hi > 0:
            return and_(_eq0w(from_poly(A)), _eq0w(Bp))
    return None


def _eq0w(p):
    return eq(p, ZERO)


def _eq0(p):
    if p.op == 'n':
        return const(p.args[0] == 0)
    lo = _extreme(p, 1)
    if lo is not None and lo > 0:
        return FALSE
    hi = _extreme(p, -1)
    if hi is not None and hi < 0:
        return FALSE
    r = _radix_split(p)
    if r is not None:
        return r
    d = to_poly(p)
    c, d = _content({m: x for m, x in d.items()})
    ms = sorted((m for m in d if m != ()), key=_mkey)
    s = d[ms[0]]
    d = {m: x / s for m, x in d.items()}
    if len(d) == 2 and () not in d:
        (m1, c1), (m2, c2) = sorted(d.items(), key=lambda mc: _mkey(mc[0]))
        if c1 == 1 and c2 == -1 and all(len(m) == 1 and m[0][1] == 1 for m in (m1, m2)):
            x, y = m1[0][0], m2[0][0]
            return batom(mk('eq', *sorted((x, y), key=lambda z: z.id)))
    if len(d) == 1:
        (m, _), = d.items()
        if len(m) == 1 and m[0][1] == 1:
            return batom(mk('eq', *sorted((m[0][0], ZERO), key=lambda z: z.id)))
    return batom(mk('eq0', from_poly(d)))


NONNULL = {'setc', 'enum', 'dput', 'ddel', 'n', 'poly', 'ref', 'obj', 'seq', 'tup', 'arr', 'lst', 'dct', 'sett', 'sum', 'prod', 'fn', 'func',
           'cls', 'ext', 'bound', 'mod', 'len', 'frame', 'idx', 'str', 'map', 'cat', 'ser', 'graphv'}
EQ_RULES = []


def _eq(a, b):
    if a is b:
        return TRUE
    if is_lit(a) and is_lit(b):
        if a.op == 'c' and b.op == 'c' and a.args[0] == b.args[0] == 'f':
            return FALSE
        if {a, b} == {TRUE, ONE} or {a, b} == {FALSE, ZERO}:
            return TRUE
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x is NONE and (y.op in NONNULL or sort_of(y) not in (None, 'maybe')):
            return FALSE
        if x.op == 'c' and x.args[0] == 's' and is_numeric(y):
            return FALSE
    if a.op == 'at' and b.op == 'at' and a.args[0] is b.args[0] and a.args[0] in DISTINCT:
        return eq(a.args[1], b.args[1])
    for f in EQ_RULES:
        r = f(a, b)
        if r is not None:
            return r
    if a.op == 'tup' and b.op == 'tup':
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op == 'lst' and b.op == 'lst' and all(x.args[0].op == 'seq' and all(p.op == 'el' for p in x.args[0].args) for x in (a, b)):
        p, q = a.args[0].args, b.args[0].args
        if len(p) != len(q):
            return FALSE
        return and_(*[eq(x.args[0], y.args[0]) for x, y in zip(p, q)])
    if is_numeric(a) and (is_numeric(b) or b.op in ('sym', 'at', 'attr', 'cell', 'var')) or \
            is_numeric(b) and a.op in ('sym', 'at', 'attr', 'cell', 'var'):
        if a not in (NAN, INF) and b not in (NAN, INF):
            return _eq0(sub(a, b))
    return batom(mk('eq', *sorted((a, b), key=lambda z: z.id)))


def eq(a, b):
    return lift('eq', _eq, (a, b))


def ne(a, b):
    return not_(eq(a, b))


def _truth(t):
    if t is TRUE or t is FALSE:
        return t
    if t is NONE:
        return FALSE
    if t.op == 'n':
        return const(t.args[0] != 0)
    if t.op == 'c':
        return TRUE if t.args[0] == 'f' else const(bool(t.args[1]))
    if t.op in ('seq', 'cat'):
        return ne(slen(t), ZERO)
    if t.op == 'tup':
        return const(bool(t.args))
    if t.op in ('lst', 'sett', 'dct'):
        return _truth(t.args[0]) if t.args[0].op != 'ite' else truth(t.args[0])
    if is_numeric(t):
        return not_(_eq0(t)) if t is not NAN else TRUE
    s = sort_of(t)
    if isinstance(s, tuple) and s[0] == 'list':
        return ne(slen(as_seq(t)), ZERO)
    if t.op in ('obj', 'func', 'cls', 'ext', 'bound', 'mod'):
        return TRUE
    if s == 'bool':
        return batom(t)
    return batom(mk('truth', t))


def truth(t):
    return lift('truth', _truth, (t,))


# ---------------------------------------------------------------- integers
def _divide(p, d):
    """(q, r) with p = q*d + r splitting monomials divisible by d"""
    dm = to_poly(d)
    if len(dm) != 1:
        return None
    (m0, c0), = dm.items()
    q, r = {}, {}
    for m, c in to_poly(p).items():
        e = dict((a, x) for a, x in m)
        ok = True
        for a, x in m0:
            if e.get(a, Q(0)) < x:
                ok = False
        cc = c / c0
        if ok and m0 == () and cc.denominator != 1:
            # constant divisor: split the coefficient
            k = c // c0
            if m == ():
                q[m] = q.get(m, Q(0)) + k
                r[m] = c - k * c0
                continue
            ok = False
        if ok and cc.denominator == 1:
            q[_mono_mul(m, tuple((a, -x) for a, x in m0))] = cc
        else:
            r[m] = c
    return from_poly(q), from_poly(r)


def _fdiv(a, b):
    if is_num(a) and is_num(b) and b.args[0]:
        return num(a.args[0] // b.args[0])
    if b is ONE and sort_of(a) == 'int':
        return a
    qr = _divide(a, b)
    if qr and sort_of(a) == 'int':
        q, r = qr
        lo = _extreme(r, 1)
        if lo is not None and lo >= 0:
            d = _extreme(sub(b, r), 1)
            if d is not None and d > 0:
                return q
        if q is not ZERO:
            return add(q, fdiv(r, b))
    return mk('fdiv', a, b)


def _mod(a, b):
    if is_num(a) and is_num(b) and b.args[0]:
        return num(a.args[0] % b.args[0])
    qr = _divide(a, b)
    if qr and sort_of(a) == 'int':
        q, r = qr
        lo = _extreme(r, 1)
        if lo is not None and lo >= 0:
            d = _extreme(sub(b, r), 1)
            if d is not None and d > 0:
                return r
        if q is not ZERO:
            return mod(r, b)
    return mk('mod', a, b)


def fdiv(a, b):
    return lift('fdiv', _fdiv, (a, b))


def mod(a, b):
    return lift('mod', _mod, (a, b))


def _toint(t):
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    if t.op == 'n':
        q = t.args[0]
        return num(int(q))
    if sort_of(t) == 'int':
        return t
    # int(2n/2): exact halves of an even integer polynomial
    return mk('int', t)


def toint(t):
    return lift('int', _toint, (t,))


# ---------------------------------------------------------------- substitution and binders
REBUILD = {}


def bvar(op, lev, k):
    return mk('bv', lev, k, 'e') if op in ELEMENT_BINDERS else mk('bv', lev, k)


def subst(t, mapping, memo=None):
    if not mapping:
        return t
    keys = frozenset(mapping)
    return _subst(t, mapping, keys, {} if memo is None else memo)


def _subst_args(args, mp, keys, memo):
    r = []
    for a in args:
        if isinstance(a, T):
            r.append(_subst(a, mp, keys, memo))
        elif isinstance(a, tuple):
            r.append(_subst_args(a, mp, keys, memo))
        else:
            r.append(a)
    return tuple(r)


def _subst(t, mp, keys, memo):
    if not (t.deps & keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in keys:
        r = mp[t]
    elif t.op == 'ite':
        c = rebuild_atom(_subst_raw_atom(t.args[0], mp, keys, memo))
        r = ite(c, _subst(t.args[1], mp, keys, memo), _subst(t.args[2], mp, keys, memo))
    elif t.op == 'poly':
        r = ZERO
        for c, m in t.args[0]:
            x = num(c)
            for a, e in m:
                x = mul(x, powq(_subst(a, mp, keys, memo), e))
            r = add(r, x)
    elif t.op in BINDERS:
        lev, ns, bodies, extra = t.args
        ns2 = _subst_args(ns, mp, keys, memo)
        extra2 = _subst_args(extra, mp, keys, memo)
        if any(isinstance(n, T) and n.op == 'ite' for n in ns2):
            r = lift_binder(t.op, lev, ns2, bodies, extra2, mp)
        else:
            r = _rebind(t.op, lev, ns2, bodies, extra2, mp)
    else:
        r = rebuild(t.op, _subst_args(t.args, mp, keys, memo))
    memo[t] = r
    return r


def _subst_raw_atom(a, mp, keys, memo):
    """substitute inside an atom; result is ('T', op, args) or a boolean diagram"""
    if a in keys:
        return mp[a]
    if not (a.deps & keys):
        return batom(a)
    if a.op in BINDERS:
        return _subst(a, mp, keys, memo)
    return rebuild(a.op, _subst_args(a.args, mp, keys, memo))


def rebuild_atom(x):
    if x is TRUE or x is FALSE or x.op == 'ite':
        return x
    return truth(x) if x.op in ('n', 'poly') else batom(x)


def _rebind(op, lev, ns, bodies, extra, mp):
    vs = [fresh(n, sort=None if op in ELEMENT_BINDERS else 'int') for n in ns]
    m2 = dict(mp)
    for k, v in enumerate(vs):
        m2[bvar(op, lev, k)] = v
    keys = frozenset(m2)
    memo = {}
    bs = _subst_args(bodies, m2, keys, memo)
    return CLOSE[op](vs, bs, extra)


def lift_binder(op, lev, ns, bodies, extra, mp):
    return lift(('rebind', op, lev, bodies, tuple(sorted(((k.id, v.id) for k, v in mp.items())))),
                lambda ns_, ex_: _rebind(op, lev, ns_, bodies, ex_, mp), (tuple(ns), tuple(extra)))


def rebuild(op, args):
    f = REBUILD.get(op)
    if f is not None:
        return f(*args)
    if any(True for _ in _ites(args, [])):
        return lift(('mk', op), lambda *a: mk(op, *a), args)
    return mk(op, *args)


def inst(t, args):
    """bodies of binder t with its variables replaced by args"""
    lev, ns, bodies, extra = t.args
    mp = {bvar(t.op, lev, k): a for k, a in enumerate(args)}
    memo = {}
    keys = frozenset(mp)
    return [_subst(b, mp, keys, memo) for b in bodies]


def open_binder(t, hint='i'):
    ns = t.args[1]
    vs = [fresh(n, hint, None if t.op in ELEMENT_BINDERS else 'int') for n in ns]
    return vs, inst(t, vs)


def raw_close(op, vs, bodies, extra=()):
    lev = 1 + max([b.h for b in _kids(bodies, [])], default=0)
    mp = {v: bvar(op, lev, k) for k, v in enumerate(vs)}
    if op not in ELEMENT_BINDERS:
        for v in mp.values():
            SORT[v] = 'int'
    keys = frozenset(mp)
    memo = {}
    bs = _subst_args(tuple(bodies), mp, keys, memo)
    ns = tuple(RANGE[v] for v in vs)
    return mk(op, lev, ns, bs, tuple(extra))


def hoist(vs, bodies, f):
    """expand decisions that do not depend on vs outside f(bodies)"""
    vset = frozenset(vs)
    for b in bodies:
        for a in sorted(atoms_of(b), key=lambda x: x.id):
            if not (a.deps & vset):
                hi = hoist(vs, tuple(restrict(x, a, True) for x in bodies), f)
                lo = hoist(vs, tuple(restrict(x, a, False) for x in bodies), f)
                return ite(batom(a), hi, lo)
    return f(bodies)


class _Distinct(set):
    def __contains__(self, L):
        return set.__contains__(self, L) or L.op in ('enum', 'dkeys', 'setc')


DISTINCT = _Distinct()   # sequences without repeated elements


def _solve(atom, v):
    """(t, guard) with atom and v in range <=> guard and v == t, t free of v; else None"""
    if atom.op == 'eq':
        for x, y in (atom.args, atom.args[::-1]):
            if x.op == 'at' and x.args[0] in DISTINCT and v in x.args[1].deps and v not in y.deps \
                    and v not in x.args[0].deps:
                i = x.args[1]
                t = _solve_poly(sub(i, idx(x.args[0], y)), v)
                if t is not None:
                    return t, and_(memb(y, x.args[0]), in_range(t, RANGE[v]))
    t = _solve0(atom, v)
    if t is None:
        return None
    return t, (in_range(t, RANGE[v]) if RANGE[v] is not None else TRUE)


def _solve_poly(p, v):
    d = to_poly(p)
    cv = None
    for m, c in d.items():
        if m == ((v, Q(1)),):
            cv = c
        elif any(v in a.deps for a, e in m):
            return None
    if cv is None or abs(cv) != 1:
        return None
    return from_poly({m: -c / cv for m, c in d.items() if m != ((v, Q(1)),)})


def _solve0(atom, v):
    if atom.op == 'eq':
        for x, y in (atom.args, atom.args[::-1]):
            if x is v and v not in y.deps:
                return y
    k = _num_of(atom)
    if k and k[0] == 'eq':
        d = to_poly(k[1])
        cv = None
        for m, c in d.items():
            if m == ((v, Q(1)),):
                cv = c
            elif any(v in a.deps for a, e in m):
                return None
        if cv is None or abs(cv) != 1:
            return None
        rest = {m: -c / cv for m, c in d.items() if m != ((v, Q(1)),)}
        return from_poly(rest)
    return None


def in_range(t, n):
    return and_(le(ZERO, t), lt(t, n))


def _peel_point(v, bodies):
    """smallest constant k>=0 such that an atom splits the range of v at k"""
    best = None
    for b in bodies:
        for a in atoms_of(b):
            if v not in a.deps:
                continue
            kk = _num_of(a)
            if not kk:
                continue
            d = to_poly(kk[1])
            if set(d) - {(), ((v, Q(1)),)} or ((v, Q(1)),) not in d:
                continue
            c, k0 = d[((v, Q(1)),)], d.get((), Q(0))
            z = -k0 / c
            k = int(z) if z >= 0 else -1
            if k >= 0:
                best = k if best is None else max(best, k)
    return best


def _vr(v, n, *bodies):
    """v (or a variable with range n standing for it) and the bodies over it"""
    if RANGE.get(v) is n:
        return (v,) + bodies
    w = fresh(n)
    return (w,) + tuple(subst(b, {v: w}) for b in bodies)


# --- sums
def make_sum(vs, bodies, extra=()):
    vs = list(vs)
    body, = bodies
    v = vs[-1]
    rest = vs[:-1]
    r = lift(('sumn', v, body), lambda n: _sum1(*_vr(v, n, body)), (RANGE[v],))
    if rest:
        return make_sum(rest, (r,))
    return r


def _sum1(v, body):
    return hoist((v,), (body,), lambda bs: _sum2(v, bs[0]))


UNROLL = 8


def _sum2(v, body):
    n = RANGE[v]
    if v not in body.deps:
        return mul(n_nonneg(n), body)
    if is_num(n):
        if n.args[0] <= 0:
            return ZERO
        if n.args[0] <= UNROLL:
            return add(*[subst(body, {v: num(k)}) for k in range(int(n.args[0]))])
    # solvable equalities
    for a in sorted(atoms_of(body), key=lambda x: x.id):
        if v in a.deps:
            t = _solve(a, v)
            if t is not None:
                t, guard = t
                hi, lo = restrict(body, a, True), restrict(body, a, False)
                if is_num(t):
                    k = _peel_point(v, (body,))
                    if k is not None and _extreme(sub(n, num(k + 1)), 1) is not None and \
                            _extreme(sub(n, num(k + 1)), 1) >= 0:
                        break
                d = subst(sub(hi, lo), {v: t})
                return add(_sum1(v, lo), ite(guard, d, ZERO))
    k = _peel_point(v, (body,))
    if k is not None:
        m = sub(n, num(k + 1))
        lo = _extreme(m, 1)
        if lo is not None and lo >= 0:
            head = [subst(body, {v: num(j)}) for j in range(k + 1)]
            w = fresh(m)
            tail = _sum1(w, subst(body, {v: add(w, num(k + 1))}))
            return add(tail, *head)
    p = arith(body)
    out = ZERO
    for m, c in to_poly(p).items():
        dep = [(a, e) for a, e in m if v in a.deps]
        ind = tuple((a, e) for a, e in m if v not in a.deps)
        x = from_poly({ind: c})
        if not dep:
            out = add(out, mul(x, n_nonneg(n)))
            continue
        out = add(out, mul(x, _sum_atom(v, tuple(dep))))
    return out


def n_nonneg(n):
    return n


def arith(body):
    """decision diagram -> polynomial with indicator atoms"""
    key = ('arith', body)
    r = _memo.get(key)
    if r is None:
        if body.op == 'ite':
            hi, lo = arith(body.args[1]), arith(body.args[2])
            r = add(lo, mul(mk('iv', body.args[0]), sub(hi, lo)))
        else:
            r = body
        _memo[key] = r
    return r


def _sum_atom(v, mono):
    """sum over v of a monomial all of whose factors depend on v"""
    if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == 'sum':
        s = mono[0][0]
        if v not in frozenset().union(*[n.deps for n in s.args[1]]):
            ws, bs = open_binder(s)
            return _close_multi('sum', [v] + ws, bs[0])
    return raw_close('sum', [v], (from_poly({mono: Q(1)}),))


def _close_multi(op, vs, body):
    best = None
    for perm in itertools.permutations(vs):
        if any(p in (RANGE[q].deps if RANGE[q] is not None else EMPTY) for p in vs for q in vs):
            perm = tuple(vs)
        t = raw_close(op, list(perm), (body,))
        if best is None or t.id < best.id:
            best = t
    return best


def make_prod(vs, bodies, extra=()):
    vs = list(vs)
    body, = bodies
    v = vs[-1]
    r = lift(('prodn', v, body), lambda n: _prod1(*_vr(v, n, body)), (RANGE[v],))
    return make_prod(vs[:-1], (r,)) if vs[:-1] else r


def _prod1(v, body):
    return hoist((v,), (body,), lambda bs: _prod2(v, bs[0]))


def _prod2(v, body):
    n = RANGE[v]
    if is_num(n) and n.args[0] <= UNROLL:
        r = ONE
        for k in range(max(0, int(n.args[0]))):
            r = mul(r, subst(body, {v: num(k)}))
        return r
    if v not in body.deps:
        if body is ONE:
            return ONE
        return power(body, n)
    k = _peel_point(v, (body,))
    if k is not None:
        m = sub(n, num(k + 1))
        lo = _extreme(m, 1)
        if lo is not None and lo >= 0:
            r = ONE
            for j in range(k + 1):
                r = mul(r, subst(body, {v: num(j)}))
            w = fresh(m)
            return mul(r, make_prod([w], (subst(body, {v: add(w, num(k + 1))}),)))
    if body.op != 'ite':
        d = to_poly(body)
        if len(d) == 1:
            (m, c), = d.items()
            if c == 1 and (len(m) > 1 or any(v not in a.deps for a, e in m)):
                r = ONE
                for a, e in m:
                    if v in a.deps:
                        r = mul(r, powq(raw_close('prod', [v], (a,)), e))
                    else:
                        r = mul(r, power(a, mul(num(e), n)))
                return r
    return raw_close('prod', [v], (body,))


# --- existential quantification
def make_ex(vs, bodies, extra=()):
    vs = list(vs)
    c, = bodies
    v = vs[-1]
    r = lift(('exn', v, c), lambda n: _ex1(*_vr(v, n, c)), (RANGE[v],)) if RANGE[v] is not None else _ex1(v, c)
    return make_ex(vs[:-1], (r,)) if vs[:-1] else r


def _ex1(v, c):
    return hoist((v,), (c,), lambda bs: _ex2(v, bs[0]))


def _ex2(v, c):
    n = RANGE[v]
    if c is FALSE:
        return FALSE
    if n is not None and is_num(n) and n.args[0] <= UNROLL:
        return or_(*[subst(c, {v: num(k)}) for k in range(max(0, int(n.args[0])))])
    if v not in c.deps:
        return and_(c, pos(n) if n is not None else TRUE)
    r = FALSE
    for cube in primes(c):
        r = or_(r, _ex_cube(v, cube))
    return r


def cube_cond(cube):
    r = TRUE
    for a, val in cube:
        r = and_(r, batom(a) if val else not_(batom(a)))
    return r


def _ex_cube(v, cube):
    n = RANGE[v]
    for a, val in cube:
        if val and v in a.deps:
            t = _solve(a, v)
            if t is not None:
                t, guard = t
                others = [x for x in cube if x[0] is not a]
                c = subst(cube_cond(others), {v: t})
                return and_(guard, c)
    for a, val in cube:
        # exists v < |L|: L[v] == t and the rest does not depend on v
        if val and a.op == 'eq' and v in a.deps and not any(v in o.deps for o, _ in cube if o is not a):
            for x, y in (a.args, a.args[::-1]):
                if x.op == 'at' and x.args[1] is v and v not in y.deps and v not in x.args[0].deps \
                        and length_of(x.args[0]) is n:
                    return and_(cube_cond([o for o in cube if o[0] is not a]), memb(y, x.args[0]))
    dep = [x for x in cube if v in x[0].deps]
    ind = [x for x in cube if v not in x[0].deps]
    body = cube_cond(dep)
    if not dep:
        return and_(cube_cond(ind), pos(n))
    # flatten nested existential
    if len(dep) == 1 and dep[0][1] and dep[0][0].op == 'ex':
        e = dep[0][0]
        if v not in frozenset().union(*[k.deps for k in e.args[1]]):
            ws, bs = open_binder(e)
            return and_(cube_cond(ind), batom(_close_multi('ex', [v] + ws, bs[0])))
    return and_(cube_cond(ind), batom(raw_close('ex', [v], (body,))))


def make_all(vs, bodies):
    return not_(make_ex(vs, (not_(bodies[0]),)))


def primes(c):
    """prime implicants of a boolean diagram (list of cubes)"""
    key = ('primes', c)
    r = _memo.get(key)
    if r is not None:
        return r
    cs = set(frozenset(l) for l, leaf in cubes(c) if leaf is TRUE)
    if len(atoms_of(c)) <= 12 and len(cs) <= 64:
        changed = True
        while changed:
            changed = False
            # expand each cube by dropping literals that are not needed
            new = set()
            for q in cs:
                cur = q
                for lit in sorted(q, key=lambda x: x[0].id):
                    tr = cur - {lit}
                    if _implies_cube(tr, c):
                        cur = tr
                        changed = True
                new.add(cur)
            cs = new
            # consensus
            add_ = set()
            lst = list(cs)
            for p, q in itertools.combinations(lst, 2):
                conf = [a for a, v in p if (a, not v) in q]
                if len(conf) == 1:
                    a = conf[0]
                    k = frozenset(x for x in p | q if x[0] is not a)
                    if not any((z, not v) in k for z, v in k) and not any(o <= k for o in cs):
                        add_.add(k)
            if add_:
                cs |= add_
                changed = True
            cs = {q for q in cs if not any(o < q for o in cs)}
    out = [tuple(sorted(q, key=lambda x: (x[0].id, x[1]))) for q in cs]
    out.sort(key=lambda q: [(a.id, v) for a, v in q])
    _memo[key] = out
    return out


def _implies_cube(cube, c):
    for a, v in cube:
        c = restrict(c, a, v)
    return c is TRUE


# ---------------------------------------------------------------- sequences
def el(x):
    return mk('el', x)


def seq(*pieces):
    """concatenation of pieces"""
    return lift('seq', _seq, tuple(pieces))


def _seq(*pieces):
    out = []
    for p in pieces:
        if p.op == 'seq':
            out.extend(p.args)
        else:
            out.append(p)
    return mk('seq', *out)


NIL = mk('seq')


def lst(*xs):
    return seq(*[el(x) for x in xs])


def as_seq(t):
    """view a term as a sequence"""
    if t.op in ('seq', 'ite'):
        if t.op == 'ite':
            return _mapl(t, as_seq)
        return t
    if t.op in ('lst', 'sett', 'dct'):
        return t.args[0]
    if t.op == 'tup':
        return lst(*t.args)
    if t.op == 'cat' or t.op == 'cols':
        return t.args[0]
    if t.op == 'arr':
        return arr_to_seq(t)
    s = sort_of(t)
    if isinstance(s, tuple) and s[0] == 'arr' and len(s[1]) >= 1:
        return arr_to_seq(t)
    return mk('seq', mk('spl', t))


def concat(a, b):
    return lift('concat', lambda x, y: _seq(x, y), (a, b))


def length_of(L):
    s = sort_of(L)
    if isinstance(s, tuple) and s[0] == 'list' and len(s) > 2 and s[2] is not None:
        return s[2](L) if callable(s[2]) else s[2]
    return mk('len', L)


def _unit(body):
    return all(x.op == 'seq' and len(x.args) == 1 and x.args[0].op == 'el' for x in leaves(body))


def _piece_len(p):
    if p.op == 'el':
        return ONE
    if p.op == 'spl':
        return length_of(p.args[0])
    if p.op == 'flat':
        n = p.args[1][0]
        if _unit(p.args[2][0]):
            return n
        (v,), (b,) = open_binder(p)
        return make_sum([v], (slen(b),))
    raise ValueError(p.op)


def _slen(s):
    if s.op == 'seq':
        return add(*[_piece_len(p) for p in s.args]) if s.args else ZERO
    if s.op == 'arr':
        return arr_len0(s)
    return slen(as_seq(s))


def slen(s):
    return lift('slen', _slen, (s,))


def unit_value(body):
    return _mapl(body, lambda x: x.args[0].args[0])


def _piece_at(p, i):
    if p.op == 'el':
        return p.args[0]
    if p.op == 'spl':
        return at(p.args[0], i)
    if p.op == 'flat' and _unit(p.args[2][0]):
        return unit_value(inst(p, [i])[0])
    return mk('at', mk('seq', p), i)


def at(L, i):
    """L[i] for an opaque sequence L"""
    return mkat(L, i)


def mkat(L, i):
    return lift('mkat', lambda a, b: AT_HOOK(a, b) or mk('at', a, b), (L, i))


def AT_HOOK(L, i):
    if i.op == 'idx' and i.args[0] is L:
        return i.args[1]
    return None


def _sat(s, i):
    if s.op != 'seq':
        s = as_seq(s)
        if s.op == 'ite':
            return sat(s, i)
    ps = s.args
    if not ps:
        return mk('unk', 'index of empty sequence')
    if is_num(i) and i.args[0] < 0:
        k = int(-i.args[0])
        rest = list(ps)
        while rest:
            p = rest.pop()
            if p.op == 'el':
                k -= 1
                if k == 0:
                    return p.args[0]
                continue
            if p.op == 'spl' or _unit(p.args[2][0]):
                n = _piece_len(p)
                if not rest:
                    return _piece_at(p, sub(n, num(k)))
                return ite(le(num(k), n), _piece_at(p, sub(n, num(k))), sat(mk('seq', *rest), sub(n, num(k))))
            return mk('at', s, i)
        return mk('unk', 'index out of range')
    p = ps[0]
    if p.op == 'flat' and not _unit(p.args[2][0]):
        return mk('at', s, i)
    n = _piece_len(p)
    if len(ps) == 1:
        return _piece_at(p, i)
    c = lt(i, n)
    # a negative symbolic index is not considered
    return ite(c, _piece_at(p, i) if c is not FALSE else NONE,
               sat(mk('seq', *ps[1:]), sub(i, n)) if c is not TRUE else NONE)


def sat(s, i):
    return lift('sat', _sat, (s, i))


def make_flat(vs, bodies, extra=()):
    v, = vs
    b, = bodies
    return lift(('flatn', v, b), lambda n: _flat1(*_vr(v, n, b)), (RANGE[v],))


def _flat1(v, b):
    return hoist((v,), (b,), lambda bs: _flat2(v, bs[0]))


def _flat2(v, body):
    n = RANGE[v]
    if body is NIL:
        return NIL
    if is_num(n):
        if n.args[0] <= 0:
            return NIL
        if n.args[0] <= UNROLL:
            return seq(*[subst(body, {v: num(k)}) for k in range(int(n.args[0]))])
    if body.op == 'seq' and len(body.args) == 1 and body.args[0].op == 'el':
        x = body.args[0].args[0]
        if x.op == 'at' and x.args[1] is v and v not in x.args[0].deps and length_of(x.args[0]) is n:
            return seq(mk('spl', x.args[0]))
    k = _peel_point(v, (body,))
    if k is not None:
        m = sub(n, num(k + 1))
        lo = _extreme(m, 1)
        if lo is not None and lo >= 0:
            head = [subst(body, {v: num(j)}) for j in range(k + 1)]
            w = fresh(m)
            return seq(*(head + [make_flat([w], (subst(body, {v: add(w, num(k + 1))}),))]))
    return seq(raw_close('flat', [v], (body,)))


def spiece(p):
    """rebuild hook for el/spl pieces"""
    return p


def seq_map(s, f):
    """map f over the elements of a sequence"""
    return seq_bind(s, lambda x: lst(f(x)))


def seq_bind(s, f):
    """concatMap"""
    s = as_seq(s)
    def one(s_):
        out = []
        for p in s_.args:
            if p.op == 'el':
                out.append(f(p.args[0]))
            elif p.op == 'spl':
                v = fresh(length_of(p.args[0]))
                out.append(make_flat([v], (f(at(p.args[0], v)),)))
            else:
                (v,), (b,) = open_binder(p)
                out.append(make_flat([v], (_mapl(b, lambda leaf: seq_bind(leaf, f)),)))
        return seq(*out) if out else NIL
    return _mapl(s, one)


def seq_any(s, f):
    """exists x in s: f(x)"""
    s = as_seq(s)
    def one(s_):
        r = FALSE
        for p in s_.args:
            if p.op == 'el':
                r = or_(r, f(p.args[0]))
            elif p.op == 'spl':
                v = fresh(length_of(p.args[0]))
                r = or_(r, make_ex([v], (f(at(p.args[0], v)),)))
            else:
                (v,), (b,) = open_binder(p)
                r = or_(r, make_ex([v], (_mapl(b, lambda leaf: seq_any(leaf, f)),)))
        return r
    return _mapl(s, one)


def seq_sum(s, f=lambda x: x):
    s = as_seq(s)
    def one(s_):
        r = ZERO
        for p in s_.args:
            if p.op == 'el':
                r = add(r, f(p.args[0]))
            elif p.op == 'spl':
                v = fresh(length_of(p.args[0]))
                r = add(r, make_sum([v], (f(at(p.args[0], v)),)))
            else:
                (v,), (b,) = open_binder(p)
                r = add(r, make_sum([v], (_mapl(b, lambda leaf: seq_sum(leaf, f)),)))
        return r
    return _mapl(s, one)


MEMBER_HOOK = []


def member(x, s):
    """x in s (s a sequence)"""
    s = as_seq(s)

    def one(x_, s_):
        r = FALSE
        for p in s_.args:
            if p.op == 'el':
                r = or_(r, eq(x_, p.args[0]))
            elif p.op == 'spl':
                r = or_(r, memb(x_, p.args[0]))
            else:
                (v,), (b,) = open_binder(p)
                r = or_(r, make_ex([v], (_mapl(b, lambda leaf: member(x_, leaf)),)))
        return r
    return lift('member', one, (x, s))


def memb(x, L):
    return lift('memb', _memb, (x, L))


KNOWN_MEMB = set()


def _memb(x, L):
    if (x, L) in KNOWN_MEMB:
        return TRUE
    if L.op == 'enum':
        return smember(x, L.args[0])
    if L.op == 'setc':
        return smember(x, L)
    if L.op == 'sorted' and L.args[0].op == 'seq' and len(L.args[0].args) == 1 and L.args[0].args[0].op == 'spl':
        return memb(x, L.args[0].args[0].args[0])
    for h in MEMBER_HOOK:
        r = h(x, L)
        if r is not None:
            return r
    if x.op == 'at' and x.args[0] is L:
        return TRUE
    return batom(mk('memb', x, L))


def idx(L, x):
    """position of the first element of L equal to x (L opaque)"""
    return lift('idx', _idx, (L, x))


def _idx(L, x):
    if L in DISTINCT and x.op == 'at' and x.args[0] is L:
        return x.args[1]
    return mk('idx', L, x)


def index_of(s, x):
    """(condition that x occurs in s, its first position)"""
    s = as_seq(s)

    def one(s_, x_):
        off, cond, pos_ = ZERO, FALSE, ZERO
        opaque = False
        for p in s_.args:
            if p.op == 'el':
                c = eq(p.args[0], x_)
                i = ZERO
            elif p.op == 'spl':
                c, i = memb(x_, p.args[0]), idx(p.args[0], x_)
            else:
                (v,), (b,) = open_binder(p)
                if not _unit(b):
                    opaque = True
                    c = make_ex([v], (_mapl(b, lambda leaf: member(x_, leaf)),))
                    i = mk('idx', mk('seq', *s_.args), x_)
                else:
                    cc = eq(unit_value(b), x_)
                    r = solve_for(v, cc)
                    c = make_ex([v], (cc,))
                    i = r[0] if r is not None else mk('idx', mk('seq', p), x_)
            pos_ = ite(cond, pos_, add(off, i))
            cond = or_(cond, c)
            if not opaque:
                off = add(off, _piece_len(p)) if p.op != 'flat' or _unit(p.args[2][0]) else off
        if opaque:
            pos_ = mk('idx', mk('seq', *s_.args), x_)
        return mk('pair2', cond, pos_)
    r = lift('index_of', one, (s, x))
    return (_mapl(r, lambda q: q.args[0]), _mapl(r, lambda q: q.args[1]))


def solve_for(v, c):
    """(t, guard): c and v in range implies v == t, guard the condition at t; None if not unique"""
    res = None
    gs = FALSE
    for cube in primes(c):
        hit = None
        for a, val in cube:
            if val and v in a.deps:
                t = _solve(a, v)
                if t is not None:
                    hit = t
                    others = [x for x in cube if x[0] is not a]
                    break
        if hit is None:
            return None
        t, guard = hit
        if res is None:
            res = t
        elif res is not t:
            return None
        gs = or_(gs, and_(guard, subst(cube_cond(others), {v: t})))
    if res is None:
        return None
    return res, gs


# ---------------------------------------------------------------- sets (extensional)
def make_setc(vs, bodies, extra=()):
    x, = vs
    c, = bodies
    c = _set_collapse(c, x, ())
    return raw_close('setc', [x], (c,))


def _set_collapse(c, x, facts):
    """drop tests x == e whose outcome agrees with the rest of the diagram"""
    for a in sorted(atoms_of(c), key=lambda z: z.id):
        if a.op == 'eq' and x in a.args:
            e = a.args[1] if a.args[0] is x else a.args[0]
            if x in e.deps:
                continue
            hi, lo = restrict(c, a, True), restrict(c, a, False)
            at_e = subst(lo, {x: e})
            for f, v in facts:
                at_e = restrict(at_e, f, v)
            hi_e = subst(hi, {x: e})
            if at_e is hi_e:
                return _set_collapse(lo, x, facts)
    return c


def set_simplify(S, facts):
    """simplify a set value under facts [(atom, bool)]"""
    if S.op != 'setc':
        return S
    (x,), (c,) = open_binder(S, 'x')
    for f, v in facts:
        c = restrict(c, f, v)
    c = _set_collapse(c, x, facts)
    return raw_close('setc', [x], (c,))


def set_of(f):
    x = fresh(None, 'x', None)
    return make_setc([x], (f(x),))


def set_of_seq(s):
    s = as_seq(s)
    if s.op == 'seq' and len(s.args) == 1 and s.args[0].op == 'spl' and s.args[0].args[0].op == 'enum':
        return s.args[0].args[0].args[0]
    return _mapl(s, lambda q: set_of(lambda x: member(x, q)))


def smember(x, S):
    def one(x_, S_):
        if S_.op == 'setc':
            return inst(S_, [x_])[0]
        if (x_, S_) in KNOWN_MEMB:
            return TRUE
        return batom(mk('memb', x_, S_))
    return lift('smember', one, (x, S))


def set_add(S, e):
    return lift('sadd', lambda S_, e_: set_of(lambda x: or_(eq(x, e_), smember(x, S_))), (S, e))


def set_del(S, e):
    return lift('sdel', lambda S_, e_: set_of(lambda x: and_(ne(x, e_), smember(x, S_))), (S, e))


def set_union(A, B):
    return lift('suni', lambda a, b: set_of(lambda x: or_(smember(x, a), smember(x, b))), (A, B))


def set_diff(A, B):
    return lift('sdif', lambda a, b: set_of(lambda x: and_(smember(x, a), not_(smember(x, b)))), (A, B))


def set_inter(A, B):
    return lift('sint', lambda a, b: set_of(lambda x: and_(smember(x, a), smember(x, b))), (A, B))


def set_filter(S, f):
    return _mapl(S, lambda s: set_of(lambda x: and_(smember(x, s), f(x))))


EMPTYSET = None


def card(S):
    def one(s):
        if s.op == 'setc':
            if s.args[2][0] is FALSE:
                return ZERO
            fin = finite_elements(s)
            if fin is not None:
                return add(*[ite(c, ONE, ZERO) for e, c in fin])
        return mk('card', s)
    return lift('card', one, (S,))


def is_const(t):
    return t.op in ('c', 'n') or t.op == 'tup' and all(is_const(a) for a in t.args)


def finite_elements(S):
    """[(constant, condition of being an element)] if S can only hold these constants; None otherwise"""
    if S.op != 'setc':
        return None
    r = _memo.get(('finite', S))
    if r is None:
        (x,), (c,) = open_binder(S, 'x')
        es, rest = [], c
        for a in sorted(atoms_of(c), key=lambda z: z.id):
            if a.op == 'eq' and x in a.args:
                e = a.args[1] if a.args[0] is x else a.args[0]
                if is_const(e):
                    es.append(e)
                    rest = restrict(rest, a, False)
        r = ()
        if rest is FALSE and len(set(es)) == len(es):
            r = tuple((e, smember(e, S)) for e in es)
        _memo[('finite', S)] = r
    return list(r) or None


def candidates(S):
    """terms of which every element of S is one, or None"""
    if S.op != 'setc':
        return None
    r = _memo.get(('cand', S))
    if r is None:
        (x,), (c,) = open_binder(S, 'x')
        es, rest = [], c
        for a in sorted(atoms_of(c), key=lambda z: z.id):
            if a.op == 'eq' and x in a.args:
                e = a.args[1] if a.args[0] is x else a.args[0]
                if x not in e.deps:
                    es.append(e)
                    rest = restrict(rest, a, False)
        r = (tuple(es),) if rest is FALSE else ()
        _memo[('cand', S)] = r
    return r[0] if r else None


def enum(S):
    """the elements of S in some order"""
    def one(s):
        if s.op == 'setc' and s.args[2][0] is FALSE:
            return NIL
        fin = finite_elements(s)
        if fin is not None:
            fin = [(e, c) for e, c in fin if c is not FALSE]
            if len(fin) == 1:
                return ite(fin[0][1], lst(fin[0][0]), NIL)
        return mk('seq', mk('spl', mk('enum', s)))
    return _mapl(S, one)


# ---------------------------------------------------------------- dictionaries
def dct(s):
    return lift('dct', lambda q: mk('dct', q), (s,))


def tup(*xs):
    return lift('tup', lambda *a: mk('tup', *a), tuple(xs))


def dget(D, k):
    """(condition that k is a key, its value)"""
    r = lift('dget', _dget, (D, k))
    return (_mapl(r, lambda q: q.args[0]), _mapl(r, lambda q: q.args[1]))


def _dget(D, k):
    if D.op == 'dput':
        c = eq(D.args[1], k)
        cc, v = dget(D.args[0], k)
        return mk2(or_(c, cc), ite(c, D.args[2], v))
    if D.op == 'ddel':
        c = eq(D.args[1], k)
        cc, v = dget(D.args[0], k)
        return mk2(and_(not_(c), cc), v)
    if D.op == 'dct':
        cond, val = FALSE, NONE
        first = True
        for p in D.args[0].args:
            if p.op == 'el':
                c, v = eq(p.args[0].args[0], k), p.args[0].args[1]
            elif p.op == 'flat':
                (w,), (b,) = open_binder(p)
                if all(l.op == 'seq' and len(l.args) <= 1 and all(q.op == 'el' and q.args[0].op == 'tup'
                                                                  for q in l.args) for l in leaves(b)):
                    cc = _mapl(b, lambda l: eq(l.args[0].args[0].args[0], k) if l.args else FALSE)
                    r = solve_for(w, cc)
                    if r is None:
                        c, v = make_ex([w], (cc,)), mk('dlook', mk('dct', mk('seq', p)), k)
                    else:
                        g = _mapl(b, lambda l: TRUE if l.args else FALSE)
                        vv = _mapl(b, lambda l: l.args[0].args[0].args[1] if l.args else NONE)
                        vv = simplify_under(vv, g) if g is not TRUE else vv
                        c, v = r[1], subst(vv, {w: r[0]})
                else:
                    c, v = batom(mk('dhas', mk('dct', mk('seq', p)), k)), mk('dlook', mk('dct', mk('seq', p)), k)
            else:
                c, v = batom(mk('dhas', mk('dct', mk('seq', p)), k)), mk('dlook', mk('dct', mk('seq', p)), k)
            if c is FALSE:
                continue
            val = v if cond is FALSE else ite(c, v, val)
            cond = or_(cond, c)
        return mk2(cond, val)
    s = sort_of(D)
    c = batom(mk('dhas', D, k))
    if isinstance(s, tuple) and s[0] == 'dict' and len(s) > 2 and s[2] is not None:
        c = s[2](D, k)
    v = None
    if isinstance(s, tuple) and s[0] == 'dict' and len(s) > 1 and callable(s[1]):
        v = s[1](D, k)
    if v is None:
        v = mk('dlook', D, k)
    return mk2(c, v)


def mk2(a, b):
    return lift('mk2', lambda x, y: mk('pair2', x, y), ()) if False else mk('pair2', a, b)


def dput(D, k, v):
    def one(D_, k_):
        if D_.op == 'dct':
            out, hit = [], FALSE
            ok = True
            for p in D_.args[0].args:
                if p.op != 'el':
                    c, _ = dget(mk('dct', mk('seq', p)), k_)
                    if c is not FALSE:
                        ok = False
                        break
                    out.append(p)
                    continue
                c = eq(p.args[0].args[0], k_)
                if c is TRUE:
                    out.append(el(tup(p.args[0].args[0], v)))
                    hit = TRUE
                elif c is FALSE:
                    out.append(p)
                else:
                    ok = False
                    break
            if ok:
                if hit is FALSE:
                    out.append(el(tup(k_, v)))
                return dct(seq(*out))
        if D_.op == 'dput':
            c = eq(D_.args[1], k_)
            if c is TRUE:
                return mk('dput', D_.args[0], k_, v)
        return mk('dput', D_, k_, v)
    return lift(('dput', v), one, (D, k))


def ddel(D, k):
    def one(D_, k_):
        if D_.op == 'dct':
            out = []
            for p in D_.args[0].args:
                if p.op != 'el':
                    return mk('ddel', D_, k_)
                c = eq(p.args[0].args[0], k_)
                if c is TRUE:
                    continue
                if c is not FALSE:
                    return mk('ddel', D_, k_)
                out.append(p)
            return dct(seq(*out))
        return mk('ddel', D_, k_)
    return lift('ddel', one, (D, k))


def dupdate(D, N):
    """D after storing all the pairs of N (distinct keys)"""
    def old(p):
        c, v = dget(N, pair_get(p, 0))
        return lst(tup(pair_get(p, 0), ite(c, v, pair_get(p, 1))))

    def new(p):
        c, _ = dget(D, pair_get(p, 0))
        return ite(c, NIL, lst(p))
    return dct(seq(seq_bind(ditems(D), old), seq_bind(ditems(N), new)))


def ditems(D):
    """sequence of (key, value) pairs"""
    def one(d):
        if d.op == 'dct':
            return d.args[0]
        if d.op == 'dput':
            base = ditems(d.args[0])
            c, _ = dget(d.args[0], d.args[1])
            new = seq_bind(base, lambda p: lst(tup(pair_get(p, 0), ite(eq(pair_get(p, 0), d.args[1]), d.args[2],
                                                                      pair_get(p, 1)))))
            return seq(new, ite(c, NIL, lst(tup(d.args[1], d.args[2]))))
        if d.op == 'ddel':
            return seq_bind(ditems(d.args[0]), lambda p: ite(eq(pair_get(p, 0), d.args[1]), NIL, lst(p)))
        L = mk('dkeys', d)
        DISTINCT.add(L)
        v = fresh(length_of(L))
        return make_flat([v], (lst(tup(at(L, v), dget(d, at(L, v))[1])),))
    return _mapl(D, one)


def pair_get(p, i):
    return lift(('pg', i), lambda q: q.args[i] if q.op == 'tup' else mk('at', q, num(i)), (p,))


# ---------------------------------------------------------------- arrays
def make_arr(vs, bodies, extra=('num',)):
    """bodies = (guard, element)"""
    g, b = bodies
    vs = list(vs)

    vs0, g0, b0 = vs, g, b

    def go(*ns):
        vs, g, b = list(vs0), g0, b0
        if any(RANGE[v] is not n for v, n in zip(vs, ns)):
            ws = [fresh(n) for n in ns]
            mp = dict(zip(vs, ws))
            vs, g, b = ws, subst(g, mp), subst(b, mp)
        if g is TRUE and b.op == 'cell' and b.args[1:] == tuple(vs) and not (frozenset(vs) & b.args[0].deps):
            s = sort_of(b.args[0])
            if isinstance(s, tuple) and s[0] == 'arr' and tuple(s[1]) == tuple(RANGE[v] for v in vs):
                return b.args[0]
        return raw_close('arr', vs, (g, b), extra)
    return lift(('arrn', tuple(vs), g, b, tuple(extra)), go, tuple(RANGE[v] for v in vs))


def arr(ns, f, dtype='num', guard=None):
    vs = [fresh(n) for n in ns]
    return make_arr(vs, (guard(*vs) if guard else TRUE, f(*vs)), (dtype,))


def cell(A, *ix):
    return lift('cell', _cell, (A,) + tuple(ix))


def _cell(A, *ix):
    if A.op == 'arr':
        return inst(A, ix)[1]
    t = mk('cell', A, *ix)
    return batom(t) if sort_of(t) == 'bool' else t


def arr_dims(A):
    if A.op == 'arr':
        return A.args[1]
    s = sort_of(A)
    if isinstance(s, tuple) and s[0] == 'arr':
        return tuple(s[1])
    return None


def arr_dtype(A):
    if A.op == 'arr':
        return A.args[3][0]
    s = sort_of(A)
    return s[2] if isinstance(s, tuple) and s[0] == 'arr' else None


def arr_guard(A, *ix):
    if A.op == 'arr':
        return inst(A, ix)[0]
    return TRUE


def arr_len0(A):
    ns = arr_dims(A)
    if A.op == 'arr':
        vs, (g, b) = open_binder(A)
        if g is not TRUE and len(vs) == 1:
            return make_sum([vs[0]], (ite(g, ONE, ZERO),))
    return ns[0]


def arr_row(A, i):
    """A[i] for an array of rank >= 2; the element for rank 1"""
    return lift('row', _arr_row, (A, i))


def _arr_row(A, i):
    ns = arr_dims(A)
    if len(ns) == 1:
        return cell(A, i)
    vs = [fresh(n) for n in ns[1:]]
    return make_arr(vs, (arr_guard(A, i, *vs), cell(A, i, *vs)), (arr_dtype(A),))


def arr_to_seq(A):
    ns = arr_dims(A)
    v = fresh(ns[0])
    if len(ns) == 1 and A.op == 'arr':
        g, b = inst(A, [v])
        return make_flat([v], (ite(g, lst(b), NIL),))
    return make_flat([v], (lst(arr_row(A, v)),))


def seq_to_arr1(s, dtype=None):
    """1-d array from a sequence of scalars"""
    s = as_seq(s)

    def one(s_):
        ps = s_.args
        if len(ps) == 1 and ps[0].op == 'flat':
            p = ps[0]
            n = p.args[1][0]
            (v,), (b,) = open_binder(p)
            if all(l.op == 'seq' and len(l.args) <= 1 and all(q.op == 'el' for q in l.args) for l in leaves(b)):
                g = _mapl(b, lambda l: const(len(l.args) == 1))
                val = _mapl(restrict_by(b, g), lambda l: l.args[0].args[0] if l.args else NONE)
                if g is not TRUE:
                    val = simplify_under(val, g)
                return make_arr([v], (g, val), (dtype or elem_dtype(val),))
        n = slen(s_)
        v = fresh(n)
        x = sat(s_, v)
        return make_arr([v], (TRUE, x), (dtype or elem_dtype(x),))
    return _mapl(s, one)


def restrict_by(b, g):
    return b


def simplify_under(val, g):
    """drop leaves of val that are unreachable when g holds"""
    if val.op == 'tup':
        return tup(*[simplify_under(x, g) for x in val.args])
    if val.op == 'lst' and val.args[0].op == 'seq' and all(p.op == 'el' for p in val.args[0].args):
        return rebuild('lst', (mk('seq', *[mk('el', simplify_under(p.args[0], g)) for p in val.args[0].args]),))
    lits = literals(g)
    for a, v in lits:
        val = restrict(val, a, v)
    if val.op == 'ite':
        # constrain: replace don't-care leaves
        def go(x, gg):
            if gg is FALSE:
                return None
            if x.op != 'ite':
                return x
            a, hi, lo = x.args
            h, l = go(hi, restrict(gg, a, True)), go(lo, restrict(gg, a, False))
            if h is None:
                return l
            if l is None:
                return h
            return ite(batom(a), h, l)
        r = go(val, g)
        val = val if r is None else r
    return val


def elem_dtype(x):
    ds = set()
    for l in leaves(x):
        s = sort_of(l)
        ds.add(s if s in ('int', 'num', 'bool', 'str') else 'obj')
    if ds == {'int'} or ds == {'bool'}:
        return ds.pop()
    if ds <= {'int', 'num', 'bool'}:
        return 'num'
    return 'obj' if len(ds) > 1 else ds.pop()


# ---------------------------------------------------------------- rebuild table
REBUILD.update({
    'at': lambda L, i: sat(L, i) if L.op in ('seq', 'lst', 'tup', 'ite', 'arr') else mkat(L, i),
    'cell': cell,
    'eq': eq,
    'eq0': lambda p: eq(p, ZERO),
    'pos': pos,
    'truth': truth,
    'memb': lambda x, L: smember(x, L) if L.op == 'setc' else member(x, L) if L.op in ('seq', 'lst', 'ite') else memb(x, L),
    'idx': lambda L, x: idx(L, x) if L.op not in ('seq', 'lst') else mk('idx', L, x),
    'card': card,
    'enum': lambda S: mk('enum', S),
    'tup': tup,
    'dct': dct,
    'dput': dput,
    'ddel': ddel,
    'dlook': lambda D, k: dget(D, k)[1],
    'dhas': lambda D, k: dget(D, k)[0],
    'mod': mod,
    'fdiv': fdiv,
    'int': toint,
    'seq': seq,
    'iv': lambda a: lift('ivl', _iv, (a,)),
    'len': lambda L: slen(L) if L.op in ('seq', 'lst', 'ite', 'arr') else length_of(L),
    'spl': lambda L: enum(L.args[0]) if L.op == 'enum' else as_seq(L) if L.op != 'sym' else mk('spl', L),
})


def _iv(a):
    if a is TRUE:
        return ONE
    if a is FALSE:
        return ZERO
    return mk('iv', a)


def _rebuild_iv(a):
    if a.op == 'ite':
        return arith(ite(a, ONE, ZERO))
    return _iv(a)


REBUILD['iv'] = _rebuild_iv
REBUILD['fn'] = lambda name, *a: power(*a) if name == 'pow' else fn(name, *a)


def make_argx(vs, bodies, extra=()):
    return raw_close('argx', vs, bodies, extra)


CLOSE = {'sum': make_sum, 'prod': make_prod, 'ex': make_ex, 'flat': make_flat, 'arr': make_arr,
         'argx': lambda vs, b, e=(): raw_close('argx', vs, b, e),
         'first': lambda vs, b, e=(): raw_close('first', vs, b, e),
         'lamb': lambda vs, b, e=(): raw_close('lamb', vs, b, e),
         'setc': make_setc}


# ---------------------------------------------------------------- printing
def pp(t, depth=0, maxd=14):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(pp(x, depth + 1, maxd) for x in t) + ')'
        return str(t)
    if depth > maxd:
        return '…'
    d = depth + 1
    op, a = t.op, t.args
    if op == 'n':
        return str(a[0])
    if op == 'c':
        return repr(a[1]) if a[0] != 'f' else a[1]
    if op in ('sym', 'var'):
        return a[0]
    if op == 'bv':
        return 'abcdefgh'[a[0] % 8] + ('' if a[1] == 0 else str(a[1]))
    if op == 'mu':
        return 'mu<%s>' % (a[1] if isinstance(a[1], str) else pp(a[1] if isinstance(a[1], T) else str(a[1])))
    if op == 'ite':
        if a[1] is TRUE and a[2] is FALSE:
            return '[%s]' % pp(a[0], d, maxd)
        if a[1] is FALSE and a[2] is TRUE:
            return '![%s]' % pp(a[0], d, maxd)
        return '(%s ? %s : %s)' % (pp(a[0], d, maxd), pp(a[1], d, maxd), pp(a[2], d, maxd))
    if op == 'poly':
        out = []
        for c, m in a[0]:
            fs = []
            if c != 1 or not m:
                fs.append(str(c))
            for x, e in m:
                s = pp(x, d, maxd)
                if x.op == 'poly':
                    s = '(%s)' % s
                fs.append(s if e == 1 else '%s^%s' % (s, e))
            out.append('*'.join(fs))
        return '(' + ' + '.join(out) + ')'
    if op in BINDERS:
        vs = ['abcdefgh'[a[0] % 8] + ('' if k == 0 else str(k)) for k in range(len(a[1]))]
        rng = ','.join('%s<%s' % (v, pp(n, d, maxd)) for v, n in zip(vs, a[1]))
        if op == 'arr' and a[2][0] is TRUE:
            return 'arr{%s: %s}' % (rng, pp(a[2][1], d, maxd))
        return '%s{%s: %s}%s' % (op, rng, ' | '.join(pp(b, d, maxd) for b in a[2]),
                                 '' if not a[3] or op == 'arr' else pp(a[3]))
    if op == 'el':
        return pp(a[0], d, maxd)
    if op == 'spl':
        return '*' + pp(a[0], d, maxd)
    if op == 'seq':
        return '[' + ', '.join(pp(x, d, maxd) for x in a) + ']'
    if op == 'tup':
        return '<' + ', '.join(pp(x, d, maxd) for x in a) + '>'
    if op in ('at', 'cell'):
        return '%s[%s]' % (pp(a[0], d, maxd), ','.join(pp(x, d, maxd) for x in a[1:]))
    if op == 'attr':
        return '%s.%s' % (pp(a[0], d, maxd), a[1])
    if op == 'eq':
        return '%s==%s' % (pp(a[0], d, maxd), pp(a[1], d, maxd))
    if op == 'eq0':
        return '%s==0' % pp(a[0], d, maxd)
    if op == 'pos':
        return '%s>0' % pp(a[0], d, maxd)
    if op == 'memb':
        return '%s in %s' % (pp(a[0], d, maxd), pp(a[1], d, maxd))
    if op == 'fn':
        return '%s(%s)' % (a[0], ', '.join(pp(x, d, maxd) for x in a[1:]))
    return '%s(%s)' % (op, ', '.join(pp(x, d, maxd) for x in a))


def arr_guard_free0(a):
    return a.op != 'arr' or a.args[2][0] is TRUE


# ---------------------------------------------------------------- uninterpreted operations
UF_SORT = {}


def ufun(name, sort, *args):
    """uninterpreted operation of the analysed program, by name"""
    UF_SORT[name] = sort
    if sort == 'bool':
        return lift(('uf', name), lambda *a: batom(mk('uf', name, *a)), tuple(args))
    return lift(('uf', name), lambda *a: mk('uf', name, *a), tuple(args))


SORT_RULES['uf'] = lambda t: UF_SORT.get(t.args[0])
REBUILD['uf'] = lambda name, *a: ufun(name, UF_SORT.get(name), *a)
