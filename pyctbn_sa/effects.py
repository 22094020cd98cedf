"""Effect analyses over the syntax trees of the whole package: a name-resolved call graph, the sites
that change the file system, and a flow-insensitive points-to analysis for objects that outlive a call
(module globals, class attributes, default arguments, results kept by a cache decorator)."""
import ast
from .loader import Cls, Func

WRITE_METHODS = {'write_text', 'write_bytes', 'touch', 'mkdir', 'rmdir', 'unlink', 'symlink_to', 'hardlink_to', 'savefig', 'tofile',
                 'print_figure', 'to_pickle', 'to_excel', 'to_parquet', 'to_feather', 'to_hdf', 'to_stata', 'to_orc', 'to_sql'}
TEXT_METHODS = {'to_csv', 'to_json', 'to_html', 'to_string', 'to_latex', 'to_markdown', 'to_xml'}
OS_WRITES = {'remove', 'unlink', 'rename', 'renames', 'replace', 'mkdir', 'makedirs', 'rmdir', 'removedirs', 'truncate', 'link', 'symlink',
             'chmod', 'chown', 'mkfifo', 'mknod', 'utime', 'system', 'popen', 'startfile'}
OPENERS = {'open', 'io.open', 'codecs.open', 'gzip.open', 'bz2.open', 'lzma.open', 'zipfile.ZipFile', 'tarfile.open', 'tokenize.open', 'h5py.File'}
ALWAYS = {'numpy.save', 'numpy.savez', 'numpy.savez_compressed', 'numpy.savetxt', 'numpy.memmap', 'pandas.HDFStore', 'pandas.ExcelWriter',
          'pandas.to_pickle', 'matplotlib.pyplot.savefig', 'matplotlib.pyplot.imsave', 'logging.FileHandler', 'shelve.open', 'sqlite3.connect',
          'joblib.dump', 'numpy.lib.format.open_memmap', 'logging.handlers.RotatingFileHandler', 'scipy.io.savemat', 'scipy.sparse.save_npz'}
READERS_SHUTIL = {'which', 'disk_usage', 'get_terminal_size'}
DYNAMIC = {'eval', 'exec', 'compile', '__import__', 'importlib.import_module', 'globals', 'locals', 'vars'}


class Unit(object):
    """one function of the package (nested functions included), or the statements of a module"""

    def __init__(self, qual, module, node, cls=None, body=None, func=None):
        self.qual, self.module, self.node, self.cls, self.func = qual, module, node, cls, func
        self.body = body if body is not None else [node]
        self.params, self.defaults = [], {}
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            a = node.args
            pos = list(getattr(a, 'posonlyargs', [])) + list(a.args)
            self.params = [x.arg for x in pos]
            for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
                self.defaults[x.arg] = d
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    self.defaults[x.arg] = d
            self.kwonly = [x.arg for x in a.kwonlyargs]
            self.star = a.vararg.arg if a.vararg else None
            self.dstar = a.kwarg.arg if a.kwarg else None
            self.body = node.body

    def walk(self):
        for s in self.body:
            for n in ast.walk(s):
                yield n

    def where(self, n):
        return '%s:%d' % (self.module.rel, getattr(n, 'lineno', 0))

    @property
    def name(self):
        return self.qual.rsplit('.', 1)[-1]


class Package(object):
    def __init__(self, prog, only='PyCTBN.'):
        self.prog = prog
        self.units, self.by_name, self.mods = {}, {}, {}
        for m in prog.modules.values():
            if m.name.startswith('<'):
                continue
            self._module(m)
        self.alias = {m: self._aliases(m) for m in self.mods}
        for u in self.units.values():
            self.by_name.setdefault(u.name, []).append(u)

    def _module(self, m):
        top = []

        def split(body, cls):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = (cls.name + '.' if cls else '') + s.name
                    if any(ast.unparse(d).endswith('.setter') for d in s.decorator_list):
                        q += '='
                    u = Unit(q if q not in self.units else q + '@' + m.name, m, s, cls)
                    self.units[u.qual] = u
                    for d in s.decorator_list:
                        top.append(ast.Expr(d))
                elif isinstance(s, ast.ClassDef):
                    split(s.body, self.prog.classes.get(s.name))
                elif cls is None and isinstance(s, (ast.If, ast.Try, ast.With)):
                    for part in ('body', 'orelse', 'finalbody'):
                        split(getattr(s, part, []), cls)
                    for h in getattr(s, 'handlers', []):
                        split(h.body, cls)
                    top.append(s)
                else:
                    top.append(s)
        split(m.tree.body, None)
        u = Unit('module ' + m.name, m, m.tree, None, top)
        self.mods[m] = u
        self.units[u.qual] = u

    def _aliases(self, m):
        out = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    out[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom):
                base = self.prog._base(m, n)
                for a in n.names:
                    if a.name != '*':
                        out[a.asname or a.name] = (base + '.' if base else '') + a.name
        return out

    def dotted(self, u, e, local=()):
        """dotted name of an external or package entity denoted by e, or None"""
        if isinstance(e, ast.Name):
            if e.id in local:
                return None
            if e.id in self.alias[u.module]:
                d = self.alias[u.module][e.id]
                r = self.prog.resolve(u.module, e.id)
                if isinstance(r, (Cls, Func)):
                    return None
                return d
            r = self.prog.resolve(u.module, e.id)
            if isinstance(r, tuple) and r[0] == 'ext':
                return r[1]
            if r is None and e.id in BUILTINS:
                return e.id
            return None
        if isinstance(e, ast.Attribute):
            b = self.dotted(u, e.value, local)
            return b + '.' + e.attr if b else None
        return None

    def target(self, u, e):
        """package class or function denoted by a name"""
        r = self.prog.resolve_expr(u.module, e) if isinstance(e, (ast.Name, ast.Attribute)) else None
        return r if isinstance(r, (Cls, Func)) else None

    # ------------------------------------------------------------ call graph
    def callees(self):
        """unit -> set of units it may call or hand out; attribute names are resolved to every method of that name"""
        g = {}
        for u in self.units.values():
            out = set()
            for n in u.walk():
                if isinstance(n, ast.Attribute):
                    if self.dotted(u, n) and not self.dotted(u, n).startswith('PyCTBN'):
                        continue
                    for v in self.by_name.get(n.attr, []) + self.by_name.get(n.attr + '=', []):
                        if v.cls is not None or isinstance(n.value, ast.Name):
                            out.add(v)
                    if isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
                        t = self.target(u, n)
                        if isinstance(t, Cls):
                            out |= self.ctor(t)
                elif isinstance(n, ast.Name):
                    t = self.target(u, n)
                    if isinstance(t, Cls):
                        out |= self.ctor(t)
                    elif isinstance(t, Func):
                        out |= set(x for x in self.by_name.get(t.name, []) if x.cls is None)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'getattr' and len(n.args) > 1 \
                        and isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str):
                    out |= set(self.by_name.get(n.args[1].value, []))
            g[u] = out
        return g

    def ctor(self, c):
        out = set()
        for n in ('__init__', '__new__', '__post_init__', '__enter__', '__exit__', '__call__', '__del__'):
            f = c.lookup(n)
            if f is not None:
                out |= set(x for x in self.units.values() if x.node is f.node)
        return out

    # ------------------------------------------------------------ file effects
    def constants(self, u):
        """local names bound once to a constant (module constants and defaults of parameters that no call overrides are not followed)"""
        seen = {}
        for n in u.walk():
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            seen.setdefault(x.id, []).append(n.value if x is t else None)
            elif isinstance(n, (ast.AugAssign, ast.For, ast.NamedExpr, ast.withitem, ast.comprehension)):
                t = getattr(n, 'target', None) or getattr(n, 'optional_vars', None)
                for x in ast.walk(t) if t is not None else ():
                    if isinstance(x, ast.Name):
                        seen.setdefault(x.id, []).append(None)
        return {k: v[0] for k, v in seen.items() if len(v) == 1 and v[0] is not None and k not in u.params}

    def value(self, u, e, depth=0):
        """set of constant values of an expression, or None"""
        if isinstance(e, ast.Constant):
            return {e.value}
        if isinstance(e, ast.IfExp):
            a, b = self.value(u, e.body, depth), self.value(u, e.orelse, depth)
            return None if a is None or b is None else a | b
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.value(u, e.left, depth), self.value(u, e.right, depth)
            if a is None or b is None:
                return None
            try:
                return {x + y for x in a for y in b}
            except TypeError:
                return None
        if isinstance(e, ast.Name) and depth < 4:
            c = self.constants(u)
            if e.id in c:
                return self.value(u, c[e.id], depth + 1)
            if e.id in u.params or e.id in getattr(u, 'kwonly', []):
                return self.argument(u, e.id, depth + 1)
            r = self.prog.resolve(u.module, e.id)
            if isinstance(r, tuple) and r[0] == 'expr':
                return self.value(self.mods[r[2]] if r[2] in self.mods else u, r[1], depth + 1)
        return None

    def argument(self, u, name, depth):
        """constant values a parameter takes over all its call sites in the package"""
        out, sites = set(), 0
        for v in self.units.values():
            for n in v.walk():
                if isinstance(n, ast.Call):
                    nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                    if nm != u.name:
                        continue
                    sites += 1
                    i = u.params.index(name) if name in u.params else None
                    if i is not None and u.cls is not None and u.params[:1] == ['self']:
                        i -= 1
                    e = None
                    if any(isinstance(x, ast.Starred) for x in n.args) or any(k.arg is None for k in n.keywords):
                        return None
                    if i is not None and i < len(n.args):
                        e = n.args[i]
                    for k in n.keywords:
                        if k.arg == name:
                            e = k.value
                    if e is None:
                        e = u.defaults.get(name)
                    if e is None:
                        return None
                    w = self.value(v, e, depth)
                    if w is None:
                        return None
                    out |= w
        return out if sites else None

    def sites(self):
        """(unit, node, what, verdict) for every construct that may change files; verdict 'write' or 'unknown'"""
        out = []
        for u in self.units.values():
            local = self.locals(u)
            called = set()
            paths = 'pathlib' in str(sorted(map(str, self.alias[u.module].values())))
            for n in u.walk():
                if not isinstance(n, ast.Call):
                    continue
                called.add(n.func)
                d = self.dotted(u, n.func, local)
                if d is not None and not d.startswith('PyCTBN'):
                    v = self._external(u, n, d)
                    if v:
                        out.append((u, n, d, v))
                elif isinstance(n.func, ast.Attribute):
                    m = n.func.attr
                    if self.by_name.get(m) and not isinstance(n.func.value, ast.Constant) and m not in WRITE_METHODS:
                        continue
                    if m in WRITE_METHODS:
                        out.append((u, n, '.' + m, 'write'))
                    elif m in TEXT_METHODS:
                        p = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg in ('path_or_buf', 'buf', 'path_or_buffer')), None)
                        if p is not None and self.value(u, p) != {None} and not self._buffer(u, p):
                            out.append((u, n, '.' + m, 'write'))
                    elif m == 'open':
                        out += self._open(u, n, '.open', n.args[:1], n.keywords)
                    elif m in ('rename', 'replace') and paths and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], (ast.Dict, ast.Lambda)):
                        out.append((u, n, '.' + m, 'unknown'))
                    elif m == 'dump' and n.args and isinstance(n.args[0], (ast.Constant, ast.JoinedStr)):
                        out.append((u, n, '.dump', 'write'))
            for n in u.walk():
                if isinstance(n, (ast.Name, ast.Attribute)) and n not in called and isinstance(n.ctx, ast.Load):
                    d = self.dotted(u, n, local)
                    if d is None:
                        continue
                    if d in OPENERS or d in ALWAYS or (d.startswith('os.') and d[3:] in OS_WRITES) or (d.startswith('shutil.') and d[7:] not in READERS_SHUTIL):
                        out.append((u, n, 'reference to ' + d, 'unknown'))
        return out

    def locals(self, u):
        out = set(u.params)
        for n in u.walk():
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.arg):
                out.add(n.arg)
        if u.qual.startswith('module '):
            out -= set(self.alias[u.module])
        return out - {x for n in u.walk() if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names for x in [a.asname or a.name.split('.')[0]]}

    def _buffer(self, u, e):
        c = self.constants(u)
        if isinstance(e, ast.Name) and e.id in c:
            e = c[e.id]
        return isinstance(e, ast.Call) and (self.dotted(u, e.func) or '') in ('io.StringIO', 'io.BytesIO')

    def _open(self, u, n, d, mode, keywords):
        e = mode[0] if mode else next((k.value for k in keywords if k.arg == 'mode'), None)
        if e is None:
            if any(k.arg is None for k in keywords) or any(isinstance(x, ast.Starred) for x in n.args):
                return [(u, n, d, 'unknown')]
            return []
        v = self.value(u, e)
        if v is None:
            return [(u, n, d + ' with unresolved mode', 'unknown')]
        if any(not isinstance(x, str) or set(x) & set('wax+') for x in v):
            return [(u, n, '%s with mode %s' % (d, '/'.join(sorted(map(repr, v)))), 'write')]
        return []

    def _external(self, u, n, d):
        if d in OPENERS:
            s = self._open(u, n, d, n.args[1:2], n.keywords)
            return s[0][3] if s else None
        if d in ALWAYS:
            return 'write'
        if d.startswith('os.') and (d[3:] in OS_WRITES or d[3:].startswith(('exec', 'spawn'))):
            return 'write'
        if d == 'os.open':
            return 'unknown'
        if d.startswith('shutil.') and d[7:] not in READERS_SHUTIL:
            return 'write'
        if d.startswith('tempfile.') and d not in ('tempfile.gettempdir', 'tempfile.gettempprefix'):
            return 'write'
        if d.startswith('subprocess.') or d.startswith('networkx.write_') or d.startswith('pty.'):
            return 'write'
        if d == 'logging.basicConfig' and any(k.arg == 'filename' for k in n.keywords):
            return 'write'
        if d in ('eval', 'exec', '__import__', 'importlib.import_module'):
            return 'unknown'
        if d == 'getattr' and (len(n.args) < 2 or self.value(u, n.args[1]) is None):
            return 'unknown'
        if d == 'getattr' and self.value(u, n.args[1]) & (WRITE_METHODS | TEXT_METHODS | OS_WRITES | {'open', 'dump', 'save', 'savetxt'}):
            return 'unknown'
        return None


BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)


def callers(graph):
    inv = {}
    for u, vs in graph.items():
        for v in vs:
            inv.setdefault(v, set()).add(u)
    return inv


def reaching(inv, unit):
    """unit -> next unit on a shortest call path to the given unit, for every unit that reaches it"""
    nxt, todo = {unit: None}, [unit]
    while todo:
        v = todo.pop(0)
        for u in sorted(inv.get(v, ()), key=lambda x: x.qual):
            if u not in nxt:
                nxt[u] = v
                todo.append(u)
    return nxt


def path(nxt, u):
    out = []
    while u is not None:
        out.append(u.qual)
        u = nxt[u]
    return ' -> '.join(out)


# ---------------------------------------------------------------- objects that outlive a call

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard',
            'difference_update', 'intersection_update', 'symmetric_difference_update', 'appendleft', 'popleft', 'extendleft', 'rotate', 'fill',
            'put', 'resize', 'itemset', 'setflags', 'partition', 'subtract', '__setitem__', '__delitem__', 'setfield', 'byteswap', 'insert',
            'add_node', 'add_edge', 'add_nodes_from', 'add_edges_from', 'remove_node', 'remove_edge', 'write', 'cache_clear', 'move_to_end'}
FIRST_ARG = {'numpy.fill_diagonal', 'numpy.copyto', 'numpy.put', 'numpy.place', 'numpy.putmask', 'random.shuffle', 'numpy.random.shuffle',
             'heapq.heappush', 'heapq.heappop', 'heapq.heapify', 'heapq.heapreplace', 'bisect.insort', 'bisect.insort_left', 'bisect.insort_right',
             'operator.setitem', 'operator.delitem', 'operator.iadd', 'setattr', 'delattr', 'next'}
VIEWS = {'reshape', 'ravel', 'view', 'transpose', 'swapaxes', 'squeeze', 'diagonal', 'astype', 'to_numpy'}
READ_ELEMENT = {'get', 'pop', 'popitem', 'setdefault', 'popleft', 'values', 'items', 'keys', '__getitem__', 'tolist'}
ADD_ELEMENT = {'append', 'add', 'insert', 'extend', 'update', 'setdefault', 'appendleft', '__setitem__', 'put'}
FRESH = {'list', 'dict', 'set', 'tuple', 'sorted', 'frozenset', 'reversed', 'enumerate', 'zip', 'iter', 'map', 'filter', 'copy.copy',
         'itertools.chain', 'itertools.product', 'itertools.combinations', 'itertools.permutations', 'collections.OrderedDict', 'collections.deque'}
ALIAS_CALLS = {'numpy.asarray', 'numpy.ravel', 'numpy.reshape', 'numpy.transpose', 'numpy.squeeze', 'numpy.atleast_1d', 'numpy.atleast_2d', 'iter'}
PROCESS_STATE = {'os.chdir', 'os.putenv', 'os.unsetenv', 'os.umask', 'numpy.seterr', 'numpy.seterrcall', 'pandas.set_option', 'pandas.reset_option',
                 'locale.setlocale', 'multiprocessing.set_start_method', 'sys.setrecursionlimit', 'signal.signal', 'decimal.setcontext',
                 'matplotlib.pyplot.style.use', 'matplotlib.pyplot.rc', 'matplotlib.rc', 'matplotlib.use', 'matplotlib.pyplot.switch_backend',
                 'atexit.register', 'json.JSONEncoder.default'}
CACHES = {'functools.lru_cache', 'functools.cache', 'functools.cached_property'}


class Obj(object):
    """an abstract object: one per allocation site, per class for the instances that callers made, per object that outlives a call"""

    def __init__(self, what, kind, where='', cls=None, shared=False, deep=False):
        self.what, self.kind, self.where, self.cls, self.shared, self.deep = what, kind, where, cls, shared, deep


class PointsTo(object):
    """inclusion-based points-to analysis, flow-sensitive for local names, field-sensitive, over the whole package"""

    def __init__(self, pk):
        self.pk = pk
        self.flow, self.pts = {}, {}
        self.loads, self.stores, self.copies, self.views, self.sends = [], [], [], [], []
        self.mut = []
        self.shared, self.violations, self.notes = [], [], []
        self.n_sites = 0
        self.locals_, self.globals_ = {}, {}
        self.ext = {c: Obj('an instance of ' + c.name, 'object', cls=c) for c in pk.prog.classes.values() if not c.module.name.startswith('<')}
        self.unit_of = {id(v.node): v for v in pk.units.values()}
        self.seed()
        for u in pk.units.values():
            self.unit(u)
        self.solve()

    # -------------------------------------------------- shared objects
    def kind(self, u, e):
        """(kind, has mutable elements) if the value of e is a mutable object"""
        if isinstance(e, (ast.List, ast.Set)):
            return 'list', any(self.kind(u, x) for x in e.elts)
        if isinstance(e, ast.Tuple):
            return ('tuple', True) if any(self.kind(u, x) for x in e.elts) else None
        if isinstance(e, ast.Dict):
            return 'list', any(self.kind(u, x) for x in e.values)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp)):
            return 'list', bool(self.kind(u, e.elt if not isinstance(e, ast.DictComp) else e.value))
        if isinstance(e, ast.BinOp):
            return self.kind(u, e.left) or self.kind(u, e.right)
        if isinstance(e, ast.IfExp):
            return self.kind(u, e.body) or self.kind(u, e.orelse)
        if isinstance(e, ast.BoolOp):
            return next((k for k in map(lambda x: self.kind(u, x), e.values) if k), None)
        if isinstance(e, ast.Call):
            t = self.pk.target(u, e.func)
            if isinstance(t, Cls):
                return 'object', True
            d = self.pk.dotted(u, e.func) or ''
            if d in ('list', 'dict', 'set', 'bytearray') or d.startswith('collections.'):
                return 'list', d == 'collections.defaultdict'
            if d.startswith('itertools.count') or d.startswith('itertools.cycle'):
                return 'list', False
            if d.startswith('numpy.random') or d.startswith('random.'):
                return None
            if d.startswith('numpy.') or d.startswith('pandas.'):
                return 'array', False
            if d.startswith('networkx.'):
                return 'object', False
            if d.startswith(('threading.local', 'weakref.', 'types.SimpleNamespace', 'queue.', 'multiprocessing.Manager')):
                return 'object', True
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('copy', 'astype', 'reshape'):
                return 'list', True
        return None

    def new(self, node, u, e, what):
        k = self.kind(u, e)
        if k is None:
            return
        t = self.pk.target(u, e.func) if isinstance(e, ast.Call) else None
        o = Obj(what, k[0], u.where(e), t if isinstance(t, Cls) else None, True, bool(k[1]))
        self.shared.append(o)
        self.pts.setdefault(node, set()).add(o)

    def seed(self):
        pk = self.pk
        for u in pk.units.values():
            for p, d in u.defaults.items():
                self.new(('v', u.qual, p), u, d, 'the default value of parameter %s of %s' % (p, u.qual))
            for d in getattr(u.node, 'decorator_list', []):
                n = pk.dotted(u, d.func if isinstance(d, ast.Call) else d)
                if n in CACHES and n != 'functools.cached_property':
                    o = Obj('the result that %s keeps for later calls' % u.qual, 'array', u.where(d), None, True, True)
                    self.shared.append(o)
                    self.pts.setdefault(('r', u.qual), set()).add(o)
                    if any(isinstance(x, ast.Name) and x.id == 'self' for x in u.walk()):
                        self.notes.append((u, d, 'results of a method that reads its object are kept by %s' % n))
            if u.cls is not None and u.params and not self.static(u):
                for c, o in self.ext.items():
                    f = c.lookup(u.name) or c.lookup_setter(u.name)
                    if c.is_sub(u.cls) and (u.qual.endswith('=') or f is None or f.node is u.node or u.name == '__init__'):
                        self.pts.setdefault(('v', u.qual, u.params[0]), set()).add(o)
        for m, u in pk.mods.items():
            for s in u.walk():
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                    for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                        if isinstance(t, ast.Name):
                            self.new(('g', m.name, t.id), u, s.value, 'the module-level object %s' % t.id)
            for c in pk.prog.classes.values():
                if c.module is m:
                    for a, e in c.attrs.items():
                        self.new(('c', c.name, a), u, e, 'the class attribute %s.%s' % (c.name, a))

    def static(self, u):
        return any(ast.unparse(d) in ('staticmethod', 'classmethod') for d in u.node.decorator_list)

    def shadowed(self, c, a):
        """is the attribute set on every instance by the constructors of the class and of its subclasses?"""
        ok = False
        for k in self.pk.prog.classes.values():
            if not k.is_sub(c):
                continue
            f = k.lookup('__init__')
            seen, found = set(), False
            while f is not None and not found and f not in seen:
                seen.add(f)
                nxt = None
                for s in f.node.body:
                    for t in (s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) and s.value is not None else []):
                        if isinstance(t, ast.Attribute) and t.attr == a and isinstance(t.value, ast.Name) and t.value.id == 'self':
                            found = True
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) \
                            and s.value.func.attr == '__init__':
                        for b in (f.cls.mro()[1:] if f.cls else []):
                            if '__init__' in b.methods:
                                nxt = b.methods['__init__']
                                break
                f = nxt
            if not found:
                return False
            ok = True
        return ok

    # -------------------------------------------------- constraints
    def sub(self, a, b):
        if a is not None and b is not None and a != b:
            self.flow.setdefault(a, set()).add(b)

    def load(self, a, field, b):
        if a is not None and b is not None:
            self.loads.append((a, field, b))

    def store(self, a, b, field='*'):
        if a is not None and b is not None:
            self.stores.append((a, field, b))

    def elem_to(self, a, b):
        """b is an element of a"""
        self.load(a, '*', b)

    def shallow(self, a, b):
        """the elements of a are elements of the container b"""
        if a is not None and b is not None:
            self.copies.append((a, b))

    def fresh(self, e, kind='list'):
        t = self.tmp()
        if e is not None:
            self.pts[t] = {Obj('object made at line %d' % getattr(e, 'lineno', 0), kind)}
        return t

    def tmp(self):
        self.n_tmp = getattr(self, 'n_tmp', 0) + 1
        return ('t', self.n_tmp)

    def name(self, u, n):
        m = u.module
        if u.qual.startswith('module '):
            return ('g', m.name, n)
        if n in self.globals_[u.qual]:
            return ('g', m.name, n)
        if n in self.locals_[u.qual]:
            return self.env.get(n) or ('u', u.qual, n)
        t = self.pk.prog.resolve(m, n)
        if isinstance(t, tuple) and t[0] == 'expr':
            mod = t[2]
            src = n
            al = m.names.get(n)
            if isinstance(al, tuple) and al[0] == 'from':
                src = al[2]
            return ('g', mod.name, src)
        return None

    def unit(self, u):
        gl = {x for n in u.walk() if isinstance(n, ast.Global) for x in n.names}
        self.globals_[u.qual] = gl
        self.locals_[u.qual] = (set(u.params) | self.pk.locals(u) | set(getattr(u, 'kwonly', [])) | ({u.star, getattr(u, 'dstar', None)} - {None}
                                if isinstance(u.node, (ast.FunctionDef, ast.AsyncFunctionDef)) else set())) - gl
        self.u = u
        self.top = u.qual.startswith('module ')
        self.env = {}
        for p in set(u.params) | set(getattr(u, 'kwonly', [])) | {getattr(u, 'star', None), getattr(u, 'dstar', None)} - {None}:
            self.env[p] = ('v', u.qual, p)
            self.sub(('v', u.qual, p), ('u', u.qual, p))
        for p, d in u.defaults.items():
            if isinstance(d, (ast.Name, ast.Attribute)):
                r = self.pk.prog.resolve_expr(u.module, d)
                if isinstance(r, tuple) and r[0] == 'expr':
                    self.sub(('g', r[2].name, d.id if isinstance(d, ast.Name) else d.attr), ('v', u.qual, p))
                elif isinstance(d, ast.Name) and u.cls is not None and d.id in u.cls.attrs:
                    self.sub(('c', u.cls.name, d.id), ('v', u.qual, p))
        self.block(u.body)

    def block(self, body):
        for s in body:
            self.visit(s)

    def merge(self, *envs):
        out = {}
        for k in set().union(*envs):
            vs = {e[k] for e in envs if k in e}
            if len(vs) == 1 and all(k in e for e in envs):
                out[k] = vs.pop()
            else:
                t = self.tmp()
                for v in sorted(vs, key=str):
                    self.sub(v, t)
                out[k] = t
        return out

    def loop(self, body, head=lambda: None):
        names = {x.id for s in body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
        phi = {}
        for k in sorted(names):
            t = self.tmp()
            if k in self.env:
                self.sub(self.env[k], t)
            phi[k] = t
        self.env = dict(self.env, **phi)
        at = dict(self.env)
        head()
        self.block(body)
        for k, t in phi.items():
            if self.env.get(k) is not None:
                self.sub(self.env[k], t)
        self.env = self.merge(at, self.env)

    def visit(self, n):
        u = self.u
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
                self.ev(d)
            keep, self.env = self.env, {}
            self.block(n.body)
            self.env = keep
        elif isinstance(n, ast.ClassDef):
            for s in n.body:
                self.visit(s)
        elif isinstance(n, ast.Assign):
            v = self.ev(n.value)
            for t in n.targets:
                self.assign(t, v, n.value)
        elif isinstance(n, ast.AnnAssign):
            if n.value is not None:
                self.assign(n.target, self.ev(n.value), n.value)
        elif isinstance(n, ast.AugAssign):
            v = self.ev(n.value)
            t = n.target
            if isinstance(t, ast.Name):
                if t.id in self.globals_[u.qual]:
                    self.violate(n, 'rebinds the module-level name %s' % t.id)
                x = self.name(u, t.id)
                self.mutate(n, x, 'augmented assignment')
                self.shallow(v, x)
            else:
                self.mutate(n, self.ev_store(t), 'augmented assignment')
                if isinstance(t, ast.Attribute):
                    self.mutate(n, self.ev(ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t)), 'augmented assignment', soft=True)
                    self.class_store(n, t)
                    self.mutate(n, self.ev(t.value), 'attribute assignment')
                else:
                    self.mutate(n, self.ev(t.value), 'item assignment')
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    self.mutate(n, self.ev(t.value), 'del')
                    if isinstance(t, ast.Attribute):
                        self.class_store(n, t)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            t = self.tmp()
            self.elem_to(self.ev(n.iter), t)
            self.loop(n.body, lambda: self.assign(n.target, t, None))
            self.block(n.orelse)
        elif isinstance(n, ast.While):
            self.loop(n.body, lambda: self.ev(n.test))
            self.block(n.orelse)
        elif isinstance(n, ast.If):
            self.ev(n.test)
            at = dict(self.env)
            self.block(n.body)
            one, self.env = self.env, at
            self.block(n.orelse)
            self.env = self.merge(one, self.env)
        elif isinstance(n, ast.Try):
            at = dict(self.env)
            self.block(n.body)
            self.block(n.orelse)
            ends, mid = [self.env], self.merge(at, self.env)
            for h in n.handlers:
                self.env = dict(mid)
                self.block(h.body)
                ends.append(self.env)
            self.env = self.merge(*ends)
            self.block(n.finalbody)
        elif isinstance(n, ast.Return):
            if n.value is not None:
                self.sub(self.ev(n.value), ('r', u.qual))
        elif isinstance(n, ast.Expr):
            if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
                if n.value.value is not None:
                    self.store(('r', u.qual), self.ev(n.value.value))
            else:
                self.ev(n.value)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, None)
            for s in n.body:
                self.visit(s)
        elif isinstance(n, (ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.Pass, ast.Break, ast.Continue)):
            if isinstance(n, (ast.Import, ast.ImportFrom)) and not self.top:
                for a in n.names:
                    if (a.asname or a.name) in self.globals_[u.qual]:
                        self.violate(n, 'rebinds the module-level name %s' % (a.asname or a.name))
        else:
            for f, val in ast.iter_fields(n):
                for x in val if isinstance(val, list) else [val]:
                    if isinstance(x, ast.stmt):
                        self.visit(x)
                    elif isinstance(x, ast.expr):
                        self.ev(x)
                    elif isinstance(x, ast.AST):
                        self.visit(x)

    def violate(self, n, what):
        if not self.top:
            self.violations.append((self.u, n, what))

    def mutate(self, n, node, how, soft=False):
        self.n_sites += 1
        if node is not None and not self.top:
            self.mut.append((self.u, n, node, how))

    def class_ref(self, e):
        """classes denoted by an expression such as Name of a class, cls, type(x), x.__class__"""
        u = self.u
        t = self.pk.target(u, e)
        if isinstance(t, Cls) and not (isinstance(e, ast.Name) and e.id in self.locals_[u.qual]):
            return [t]
        own = [c for c in self.pk.prog.classes.values() if u.cls is not None and (c.is_sub(u.cls) or u.cls.is_sub(c))]
        if isinstance(e, ast.Name) and e.id in ('cls', '__class__') and u.cls is not None:
            return own
        if isinstance(e, ast.Attribute) and e.attr == '__class__':
            return own if isinstance(e.value, ast.Name) and e.value.id == 'self' else list(self.pk.prog.classes.values())
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'type' and len(e.args) == 1:
            return own if isinstance(e.args[0], ast.Name) and e.args[0].id == 'self' else list(self.pk.prog.classes.values())
        return None

    def class_store(self, n, t):
        """assignment to an attribute of a class, function or module"""
        u = self.u
        if self.class_ref(t.value) is not None:
            self.violate(n, 'assigns the class attribute %s' % ast.unparse(t))
        elif isinstance(t.value, ast.Name) and t.value.id not in self.locals_[u.qual]:
            r = self.pk.prog.resolve(u.module, t.value.id)
            if isinstance(r, Func):
                self.violate(n, 'assigns an attribute of the function %s' % t.value.id)
            elif isinstance(r, tuple) and r[0] in ('mod', 'ext'):
                self.violate(n, 'assigns %s' % ast.unparse(t))
        elif self.pk.dotted(u, t.value, self.locals_[u.qual]):
            self.violate(n, 'assigns %s' % ast.unparse(t))
        elif isinstance(t.value, ast.Attribute) and self.class_ref(t.value.value) is not None and any(
                c.lookup(t.value.attr) is not None for c in self.class_ref(t.value.value)):
            self.violate(n, 'assigns an attribute of a function')
        elif isinstance(t.value, ast.Attribute) and t.value.attr == '__func__':
            self.violate(n, 'assigns an attribute of a function')
        elif isinstance(t.value, ast.Attribute) and isinstance(t.value.value, ast.Name) and t.value.value.id in ('self', 'cls') and u.cls is not None \
                and u.cls.lookup(t.value.attr) is not None and not u.cls.lookup(t.value.attr).prop:
            self.violate(n, 'assigns an attribute of a method')

    def ev_store(self, t):
        return None

    def assign(self, t, v, expr):
        u = self.u
        if isinstance(t, ast.Name):
            if t.id in self.globals_[u.qual] and not self.top:
                self.violate(t, 'rebinds the module-level name %s' % t.id)
            if t.id in self.locals_[u.qual] and t.id not in self.globals_[u.qual] and not self.top:
                x = self.tmp()
                self.sub(v, x)
                self.sub(x, ('u', u.qual, t.id))
                self.env[t.id] = x
            else:
                self.sub(v, self.name(u, t.id))
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(expr, (ast.Tuple, ast.List)) and len(expr.elts) == len(t.elts):
                for x, e in zip(t.elts, expr.elts):
                    self.assign(x, self.ev(e), e)
            else:
                x = self.tmp()
                self.elem_to(v, x)
                for y in t.elts:
                    self.assign(y, x, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, None)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            self.mutate(t, b, 'attribute assignment')
            self.class_store(t, t)
            if self.class_ref(t.value) is not None:
                return
            self.store(b, v, t.attr)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            self.ev(t.slice)
            self.mutate(t, b, 'item assignment')
            d = self.pk.dotted(u, t.value, self.locals_[u.qual])
            if d and '.' in d:
                self.violate(t, 'assigns an item of %s' % d)
            self.store(b, v)

    def ev(self, e):
        """points-to node of the value of an expression"""
        u = self.u
        if e is None or isinstance(e, ast.Constant):
            return None
        if isinstance(e, ast.Name):
            return self.name(u, e.id)
        if isinstance(e, ast.Attribute):
            cs = self.class_ref(e.value)
            t = self.tmp()
            if cs is not None:
                for c in cs:
                    for k in c.mro():
                        if isinstance(k, Cls) and e.attr in k.attrs:
                            self.sub(('c', k.name, e.attr), t)
                            self.sub(t, ('c', k.name, e.attr))
                return t
            d = self.pk.dotted(u, e, self.locals_[u.qual])
            if d:
                r = self.pk.prog.resolve_expr(u.module, e)
                if isinstance(r, tuple) and r[0] == 'expr':
                    self.sub(('g', r[2].name, e.attr), t)
                    return t
                return None
            b = self.ev(e.value)
            self.load(b, e.attr, t) if b is not None else self.loads.append((('none',), e.attr, t))
            if e.attr in ('T', 'values', 'flat', 'real', 'imag', 'loc', 'iloc', 'at', 'iat', '__dict__'):
                self.views.append((b, t))
            return t
        if isinstance(e, ast.Subscript):
            b = self.ev(e.value)
            self.ev(e.slice)
            t = self.tmp()
            self.elem_to(b, t)
            self.views.append((b, t))
            if isinstance(e.slice, ast.Slice):
                n = self.fresh(e)
                self.shallow(b, n)
                self.sub(n, t)
            return t
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            t = self.fresh(e)
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    self.shallow(self.ev(x.value), t)
                else:
                    self.store(t, self.ev(x))
            return t
        if isinstance(e, ast.Dict):
            t = self.fresh(e)
            for k, x in zip(e.keys, e.values):
                if k is None:
                    self.shallow(self.ev(x), t)
                else:
                    self.ev(k)
                    self.store(t, self.ev(x))
            return t
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in e.generators:
                x = self.tmp()
                self.elem_to(self.ev(g.iter), x)
                self.assign(g.target, x, None)
                for c in g.ifs:
                    self.ev(c)
            t = self.fresh(e)
            if isinstance(e, ast.DictComp):
                self.ev(e.key)
                self.store(t, self.ev(e.value))
            else:
                self.store(t, self.ev(e.elt))
            return t
        if isinstance(e, (ast.IfExp, ast.BoolOp)):
            t = self.tmp()
            for x in ([e.body, e.orelse] if isinstance(e, ast.IfExp) else e.values):
                self.sub(self.ev(x), t)
            if isinstance(e, ast.IfExp):
                self.ev(e.test)
            return t
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value)
            self.assign(e.target, v, e.value)
            return v
        if isinstance(e, ast.Starred):
            return self.ev(e.value)
        if isinstance(e, ast.BinOp):
            t = self.fresh(e)
            self.shallow(self.ev(e.left), t)
            self.shallow(self.ev(e.right), t)
            return t
        if isinstance(e, (ast.Await, ast.YieldFrom)):
            return self.ev(e.value)
        if isinstance(e, ast.Yield):
            if e.value is not None:
                self.store(('r', u.qual), self.ev(e.value))
            return None
        if isinstance(e, ast.Lambda):
            r = self.ev(e.body)
            return r
        if isinstance(e, ast.Call):
            return self.call(e)
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.ev(x)
        return None

    def call(self, e):
        u = self.u
        args = [self.ev(a) for a in e.args]
        kws = {k.arg: self.ev(k.value) for k in e.keywords}
        d = self.pk.dotted(u, e.func, self.locals_[u.qual])
        tgt = self.pk.target(u, e.func)
        if isinstance(e.func, ast.Name) and e.func.id in self.locals_[u.qual]:
            tgt = None
        for k in e.keywords:
            if k.arg == 'out':
                self.mutate(e, kws['out'], 'the out argument of a call')
        if isinstance(tgt, Cls):
            t = self.fresh(e, 'object')
            next(iter(self.pts[t])).cls = tgt
            f = tgt.lookup('__init__')
            v = self.unit_of.get(id(f.node)) if f is not None else None
            if v is not None:
                self.sub(t, ('v', v.qual, v.params[0]))
                self.bind(v, v.params[1:], args, kws, e)
            return t
        t = self.tmp()
        # functions handed to the call receive its other arguments and their elements
        for a in list(e.args) + [k.value for k in e.keywords]:
            fs = []
            if isinstance(a, ast.Attribute) and self.pk.dotted(u, a, self.locals_[u.qual]) is None:
                fs = [v for v in self.pk.by_name.get(a.attr, []) if v.cls is not None
                      and not any(ast.unparse(x) == 'property' for x in v.node.decorator_list)]
            elif isinstance(a, (ast.Name, ast.Attribute)):
                r = self.pk.target(u, a)
                if isinstance(r, Func) and id(r.node) in self.unit_of:
                    fs = [self.unit_of[id(r.node)]]
            for v in fs:
                for p in v.params:
                    if p == 'self':
                        continue
                    for x in args + list(kws.values()):
                        y, z = self.tmp(), self.tmp()
                        self.elem_to(x, y)
                        self.elem_to(y, z)
                        for w in (x, y, z):
                            self.sub(w, ('v', v.qual, p))
        if isinstance(tgt, Func):
            v = self.unit_of.get(id(tgt.node))
            if v is not None:
                self.bind(v, v.params, args, kws, e)
                self.sub(('r', v.qual), t)
            return t
        if d and not d.startswith('PyCTBN'):
            if d in PROCESS_STATE and not (d == 'pandas.set_option' and e.args and isinstance(e.args[0], ast.Constant)
                                           and str(e.args[0].value).startswith('display')):
                self.violate(e, 'changes the state of the whole process with %s' % d)
            if d in ('globals', 'vars') or (d == 'setattr' and e.args and self.class_ref(e.args[0]) is not None):
                self.violate(e, 'may change module or class attributes through %s' % d)
            if d in FIRST_ARG and e.args:
                self.mutate(e, args[0], d)
            if d == 'next' and args:
                self.elem_to(args[0], t)
            elif d in ALIAS_CALLS:
                self.sub(args[0] if args else None, t)
            elif d == 'getattr':
                if len(e.args) > 1 and isinstance(e.args[1], ast.Constant):
                    return self.ev(ast.copy_location(ast.Attribute(e.args[0], str(e.args[1].value), ast.Load()), e))
                self.sub(args[0] if args else None, t)
            elif d in ('min', 'max', 'random.choice', 'functools.reduce', 'sum'):
                for a in args:
                    self.elem_to(a, t)
            else:
                n = self.fresh(e, 'array' if d.startswith(('numpy.', 'pandas.')) else 'list')
                self.sub(n, t)
                if d in FRESH:
                    for a in args:
                        self.shallow(a, n)
                        if d in ('enumerate', 'zip', 'map', 'filter'):
                            y = self.fresh(e)
                            self.store(n, y)
                            self.shallow(a, y)
            return t
        if isinstance(e.func, ast.Attribute):
            m = e.func.attr
            base = e.func.value
            sup = isinstance(base, ast.Call) and isinstance(base.func, ast.Name) and base.func.id == 'super'
            if sup and u.cls is not None:
                for c in u.cls.mro()[1:]:
                    if m in c.methods:
                        v = self.unit_of.get(id(c.methods[m].node))
                        if v is not None and u.params:
                            self.sub(self.env.get(u.params[0], ('v', u.qual, u.params[0])), ('v', v.qual, v.params[0]))
                            self.bind(v, v.params[1:], args, kws, e)
                            self.sub(('r', v.qual), t)
                        break
                return t
            cs = self.class_ref(base)
            if cs is not None:
                for c in cs:
                    f = c.lookup(m)
                    v = self.unit_of.get(id(f.node)) if f is not None else None
                    if v is not None:
                        ps = v.params[1:] if any(ast.unparse(x) == 'classmethod' for x in v.node.decorator_list) else v.params
                        self.bind(v, ps, args, kws, e)
                        self.sub(('r', v.qual), t)
                return t
            b = self.ev(base)
            if self.pk.by_name.get(m):
                self.sends.append((b, m, args, kws, t, e))
            if m in MUTATORS or any(k.arg == 'inplace' and not (isinstance(k.value, ast.Constant) and not k.value.value) for k in e.keywords):
                self.mutate(e, b, 'call of .%s' % m)
            if m in ADD_ELEMENT:
                for a in args + list(kws.values()):
                    if m in ('extend', 'update'):
                        self.shallow(a, b)
                    else:
                        self.store(b, a)
            if m in READ_ELEMENT:
                self.elem_to(b, t)
                for a in args[1:]:
                    self.sub(a, t)
            if m in ('values', 'items', 'keys', 'copy', 'union', 'difference', 'intersection', 'tolist', 'to_list'):
                n = self.fresh(e, 'array' if m == 'copy' else 'list')
                self.shallow(b, n)
                self.sub(n, t)
                if m == 'items':
                    y = self.fresh(e)
                    self.store(n, y)
                    self.shallow(b, y)
            elif m in VIEWS:
                self.views.append((b, t))
            elif not self.pk.by_name.get(m):
                self.sub(self.fresh(e, 'array'), t)
            return t
        self.ev(e.func)
        return t

    def bind(self, v, params, args, kws, e):
        star = any(isinstance(a, ast.Starred) for a in e.args)
        for i, a in enumerate(args):
            if star:
                for p in params:
                    self.sub(a, ('v', v.qual, p))
                    x = self.tmp()
                    self.elem_to(a, x)
                    self.sub(x, ('v', v.qual, p))
            elif i < len(params):
                self.sub(a, ('v', v.qual, params[i]))
            elif v.star:
                self.store(('v', v.qual, v.star), a)
        for k, a in kws.items():
            if k is None:
                for p in params:
                    x = self.tmp()
                    self.elem_to(a, x)
                    self.sub(x, ('v', v.qual, p))
            elif k in v.params or k in getattr(v, 'kwonly', []):
                self.sub(a, ('v', v.qual, k))
            elif v.dstar:
                self.store(('v', v.qual, v.dstar), a)

    # -------------------------------------------------- solution
    def attr_of(self, o, field, t, caller):
        """constraints for reading an attribute of an object"""
        if field != '*' and o.cls is not None:
            for c in o.cls.mro():
                if field in c.attrs and not self.shadowed(c, field):
                    self.sub(('c', c.name, field), t)
            f = o.cls.lookup(field)
            if f is not None and f.prop:
                v = self.unit_of.get(id(f.node))
                if v is not None:
                    self.sub(('r', v.qual), t)
                    self.pts.setdefault(('o', id(o)), set()).add(o)
                    if v.params:
                        self.sub(('o', id(o)), ('v', v.qual, v.params[0]))
        self.sub(('h', id(o), field), t)
        if o.shared and (o.deep or o.kind == 'object'):
            self.pts.setdefault(('o', id(o)), set()).add(o)
            self.sub(('o', id(o)), t)

    def dispatch(self, o, send):
        recv, name, args, kws, t, e = send
        f = o.cls.lookup(name) if o.cls is not None else None
        v = self.unit_of.get(id(f.node)) if f is not None else None
        if v is None:
            return
        ps = v.params
        if not any(ast.unparse(d) == 'staticmethod' for d in v.node.decorator_list):
            if ps and not self.static(v):
                self.pts.setdefault(('o', id(o)), set()).add(o)
                self.sub(('o', id(o)), ('v', v.qual, ps[0]))
            ps = ps[1:]
        self.bind(v, ps, args, kws, e)
        self.sub(('r', v.qual), t)

    def solve(self):
        done = set()
        fallback = False
        while True:
            self.propagate()
            grew = False

            def once(key):
                if key in done:
                    return False
                done.add(key)
                return True
            for i, (a, field, b) in enumerate(self.loads):
                for o in self.pts.get(a, ()):
                    if once(('l', i, id(o))):
                        self.attr_of(o, field, b, None)
                        grew = True
                if fallback and field != '*' and not self.pts.get(a):
                    for c, o in self.ext.items():
                        if once(('l', i, id(o))):
                            self.attr_of(o, field, b, None)
                            grew = True
            for i, (a, field, b) in enumerate(self.stores):
                for o in self.pts.get(a, ()):
                    if once(('s', i, id(o))):
                        self.sub(b, ('h', id(o), field))
                        grew = True
            for i, (a, b) in enumerate(self.copies):
                for o in list(self.pts.get(a, ())):
                    for p in self.pts.get(b, ()):
                        if once(('c', i, id(o), id(p))):
                            self.sub(('h', id(o), '*'), ('h', id(p), '*'))
                            if o.shared and o.deep:
                                self.pts.setdefault(('o', id(o)), set()).add(o)
                                self.sub(('o', id(o)), ('h', id(p), '*'))
                            grew = True
            for i, (a, b) in enumerate(self.views):
                for o in self.pts.get(a, ()):
                    if o.kind == 'array' and once(('v', i, id(o))):
                        self.pts.setdefault(('o', id(o)), set()).add(o)
                        self.sub(('o', id(o)), b)
                        grew = True
            for i, send in enumerate(self.sends):
                pts = self.pts.get(send[0], ()) if send[0] is not None else ()
                for o in list(pts):
                    if once(('m', i, id(o))):
                        self.dispatch(o, send)
                        grew = True
                if fallback and not pts:
                    for c, o in self.ext.items():
                        if once(('m', i, id(o))):
                            self.dispatch(o, send)
                            grew = True
            if not grew:
                if fallback:
                    break
                fallback = True
        for u, n, node, how in self.mut:
            for o in sorted((o for o in self.pts.get(node, ()) if o.shared), key=lambda x: x.what):
                self.violations.append((u, n, '%s changes %s (%s)' % (how, o.what, o.where)))

    def propagate(self):
        todo = [n for n in self.pts if self.pts[n]]
        while todo:
            a = todo.pop()
            s = self.pts[a]
            for b in self.flow.get(a, ()):
                cur = self.pts.setdefault(b, set())
                if not s <= cur:
                    cur |= s
                    todo.append(b)
