"""Client snippets over the analysed program, reference snippets and obligations."""
import ast
import os
import textwrap
from . import vg, models, calls, extcalls, evalterm
from .vg import *
from .loader import Program, Module, Func
from .interp import Interp, State, Dead, Cell, NIL, UNB
from .interp import merge as merge_states

REPO = os.environ.get('PYCTBN_SA_REPO', '/repo/PyCTBN')

PRELUDE = """
import numpy as np
import pandas as pd
import networkx as nx
import math, json, copy, itertools, random, os


class DataSource(object):
    # stands for a sample path: the network description and the processed data, as public attributes

    def __init__(self, structure, trajectories, count, prior):
        self.structure = self._structure = structure
        self.trajectories = self._trajectories = trajectories
        self.total_variables_count = self._total_variables_count = count
        self.prior_edges = prior
        self.has_prior_net_structure = bool(prior)


class NetworkSource(object):
    # stands for an importer after an import: the tables and the sampled matrices, as documented attributes

    def __init__(self, variables, structure, cims):
        self.variables = self._df_variables = variables
        self.structure = self._df_structure = structure
        self._cims = cims
"""


class Outcome(object):
    """value of a snippet (valid under ok), the condition of each exception, and the final state"""

    def __init__(self, ok, val, excs, st):
        self.ok, self.val, self.excs, self.st = ok, val, excs, st

    @property
    def raises(self):
        return or_(FALSE, *[c for _, c in self.excs])

    def exc(self, *names):
        return or_(FALSE, *[c for n, c in self.excs if n in names])


class Result(object):
    def __init__(self, name, verdict, detail='', where=None):
        self.name, self.verdict, self.detail, self.where = name, verdict, detail, where


class Analysis(object):
    """one abstract execution context: program, engine, symbolic inputs"""

    def __init__(self, prog, stubs=None, watch=()):
        self.prog = prog
        self.stubs = dict(stubs or {})
        self.results = []
        self.assume = []
        self.reset(watch)

    def reset(self, watch=()):
        tree = ast.parse(PRELUDE)
        self.module = Module('<client>', '<client>', '<client>', tree, False)
        self.prog._names(self.module, tree.body)
        names = {c.name: mk('cls', c.name) for c in self.prog.classes.values()}
        self.it = Interp(self.prog, self.stubs, names)
        self.it.watch = set(watch)
        self.st = State()
        return self

    # ------------------------------------------------------------ inputs
    def int(self, name, low=None):
        return sym(name, 'int', low)

    def num(self, name):
        return sym(name, 'num')

    def str(self, name):
        return sym(name, 'str')

    def labels(self, name, n=None, distinct=True):
        """symbolic list of variable labels (a term)"""
        L = sym(name, ('list', 'str', n))
        if distinct:
            DISTINCT.add(L)
        return L

    def lst(self, t):
        """a caller-owned list holding the elements of t"""
        return self.it.new_list(self.st, as_seq(t))

    def arrsym(self, name, dims, dtype='num', low=None, upper=None):
        A = sym(name, ('arr', tuple(dims), dtype), low)
        if upper is not None:
            UPPER[A] = upper
        return A

    def arr(self, t):
        return self.it.new_arr(self.st, t)

    def opaque(self, name, sort=None):
        return sym(name, sort)

    def given(self, c):
        """an assumption about the inputs"""
        self.assume.append(c)
        vg.know(c)

    # ------------------------------------------------------------ running
    def run(self, text, st=None, events=False, deep=True, **env):
        """abstractly execute a snippet; st is the state it starts from (default: current), which it advances"""
        it = self.it
        st = st if st is not None else self.st
        src = 'def client():\n' + textwrap.indent(textwrap.dedent(text), '    ')
        node = ast.parse(src).body[0]
        f = Func(node, self.module, 'client')
        it.stack.append(f)
        pend, it.pending = it.pending, []
        base = st.fork()
        q = st.fork()
        q.cond = st.cond
        q.env.append(dict(env))
        try:
            fl = it.run_block(node.body, q)
            excs = it.pending + fl.exc
        finally:
            it.stack.pop()
            it.pending = pend
        if fl.nxt is not None:
            fl.nxt.val = NONE
        out = merge_states(fl.ret, fl.nxt)
        ex = []
        for e in excs:
            n = e.val.args[0] if e.val.op == 'exc' else '?'
            ex.append((n, e.cond))
        if out is None:
            o = Outcome(FALSE, NONE, ex, None)
            o.exc_states = excs
            return o
        v = out.val
        dv = it.deep(out, v) if deep else v
        dv = it.simp(out, dv)
        out.env = out.env[:len(base.env)]
        o = Outcome(out.cond, dv, ex, out)
        o.raw = v
        o.exc_states = excs
        return o

    def commit(self, o):
        """continue from the normal outcome of a snippet"""
        if o.st is None:
            raise Dead()
        self.st = o.st
        return o.raw

    # ------------------------------------------------------------ obligations
    def settle(self, name, pairs, under=TRUE, where=None, trials=40, hints=None, size=3, effects=True, coupled=False):
        """pairs of (label, got, want) to be equal under a condition"""
        todo = []
        for lab, g, w in pairs:
            if under is not TRUE:
                g, w = vg.simplify_under(g, under), vg.simplify_under(w, under)
            if g is not w:
                todo.append((lab, g, w))
        lost = [e for e in self.it.events if e['kind'] == 'lost-store']
        if lost and effects:
            return self.add(name, 'undecided', 'unmodelled effect: %s at %s' % (lost[0].get('what', 'store'), lost[0]['where']), where)
        if not todo:
            return self.add(name, 'holds', 'normal forms identical', where)
        if any(g.unk or w.unk for _, g, w in todo):
            return self.add(name, 'undecided', 'unmodelled construct: ' + unk_names([x for _, g, w in todo for x in (g, w)]), where)
        ass = list(self.assume) + ([under] if under is not TRUE else [])
        verdict, d = evalterm.compare(todo, ass, trials=trials, hints=hints, size=size, coupled=coupled)
        if coupled and verdict == 'agree':
            # equal when all draws of a kind have one outcome: only the pairing of the draws is in question
            verdict, d = evalterm.compare(todo, ass, trials=trials, hints=hints, size=size)
            if verdict == 'differ':
                verdict, d = 'unknown', 'the draws are made in another order'
        if verdict == 'differ' and any(loop_states(g) ^ loop_states(w) for _, g, w in todo):
            return self.add(name, 'undecided', 'values left by an unresolved loop', where)
        if verdict == 'differ':
            return self.add(name, 'violated', '%s: computed %s, specified %s, e.g. under %s' % (
                d['term'], d['got'], d['want'], d['under']), where)
        if verdict == 'agree':
            return self.add(name, 'holds', 'not distinguished by %s' % d, where)
        return self.add(name, 'undecided', 'normal forms differ; no evaluation (%s)' % d, where)

    def same(self, name, got, want, under=TRUE, where=None, **kw):
        return self.settle(name, [('value', got, want)], under, where, **kw)

    def match(self, name, got, want, where=None, under=TRUE, kind=None, **kw):
        """two outcomes: same condition of failing (with an exception of the given class), same value otherwise"""
        if kind is not None:
            self.settle(name + '/kind of refusal', [(kind, or_(*[c for n, c in got.excs if n == kind]), got.raises)], under, where, **kw)
        pairs = [('refused', got.raises, want.raises)]
        r = self.settle(name + '/refusal', pairs, under, where, **kw)
        ok = and_(got.ok, want.ok, under)
        if ok is FALSE:
            return r
        return self.settle(name, [('value', got.val, want.val)], ok, where, **kw)

    def true(self, name, c, where=None, under=TRUE, **kw):
        return self.settle(name, [('condition', c, TRUE)], under, where, **kw)

    def add(self, name, verdict, detail='', where=None):
        r = Result(name, verdict, detail, where)
        self.results.append(r)
        return r

    def fail(self, name, detail, where=None):
        return self.add(name, 'violated', detail, where)

    def ok(self, name, detail='', where=None):
        return self.add(name, 'holds', detail, where)

    def undecided(self, name, detail, where=None):
        return self.add(name, 'undecided', detail, where)


def loop_states(t):
    """states left by loops without a closed form that a value depends on"""
    out, seen = set(), set()

    def go(x):
        if x.id in seen:
            return
        seen.add(x.id)
        if x.op == 'exit' or x.op == 'fix' and x.args[1] not in ('last', 'before'):
            out.add(x.args[0])
        for k in vg._kids(x.args, []):
            go(k)
    go(t)
    return out


def unk_names(ts):
    out, seen = set(), set()

    def go(t):
        if t.id in seen or not t.unk:
            return
        seen.add(t.id)
        if t.op == 'unk':
            out.add(str(t.args[0]))
        for k in vg._kids(t.args, []):
            go(k)
    for t in ts:
        go(t)
    return ', '.join(sorted(out)[:6])
