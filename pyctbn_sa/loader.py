"""Parses the analysed tree and resolves its modules, classes and imports."""
import ast
import os


class Func(object):
    def __init__(self, node, module, qual, cls=None):
        self.node, self.module, self.qual, self.cls = node, module, qual, cls
        self.kind = 'func'
        self.static = self.prop = self.setter = self.classm = self.abstract = False
        for d in getattr(node, 'decorator_list', []):
            n = ast.unparse(d)
            if n == 'staticmethod':
                self.static = True
            elif n == 'classmethod':
                self.classm = True
            elif n == 'property':
                self.prop = True
            elif n.endswith('.setter'):
                self.setter = True
            elif n.endswith('abstractmethod'):
                self.abstract = True

    @property
    def name(self):
        return self.qual.rsplit('.', 1)[-1]

    def where(self, node=None):
        return '%s:%d' % (self.module.rel, getattr(node or self.node, 'lineno', 0))


class Cls(object):
    def __init__(self, node, module):
        self.node, self.module = node, module
        self.name = node.name
        self.qual = node.name
        self.methods, self.setters, self.attrs = {}, {}, {}
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(n, module, node.name + '.' + n.name, self)
                if f.setter:
                    self.setters[n.name] = f
                else:
                    self.methods[n.name] = f
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                self.attrs[n.target.id] = n.value
        self.bases = []      # resolved later: Cls or dotted external name

    def mro(self):
        out, seen = [self], {self}
        # linearisation: depth first, repeated classes kept at their last place (C3 for the shapes used here)
        rest = []
        for b in self.bases:
            if isinstance(b, Cls):
                rest += b.mro()
        res = [self]
        for k, c in enumerate(rest):
            if c not in rest[k + 1:]:
                res.append(c)
        return res

    def lookup(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def lookup_setter(self, name):
        for c in self.mro():
            if name in c.setters:
                return c.setters[name]
        return None

    def lookup_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def is_sub(self, other):
        return other in self.mro()


class Module(object):
    def __init__(self, name, path, rel, tree, is_pkg):
        self.name, self.path, self.rel, self.tree, self.is_pkg = name, path, rel, tree, is_pkg
        self.names = {}      # name -> Cls | Func | ('ext', dotted) | ('mod', name) | ('expr', ast) | ('from', mod, name)


class Program(object):
    def __init__(self, root, package='PyCTBN'):
        self.root = root
        self.modules, self.classes, self.funcs = {}, {}, {}
        self.errors = []
        base = os.path.join(root, package)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ('__pycache__', 'tests', 'test_data'))
            for f in sorted(files):
                if f.endswith('.py'):
                    self._load(os.path.join(d, f))
        for m in list(self.modules.values()):
            self._names(m, m.tree.body)
        for c in self.classes.values():
            for b in c.node.bases:
                r = self.resolve_expr(c.module, b)
                c.bases.append(r if isinstance(r, Cls) else ast.unparse(b))

    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        parts = rel[:-3].split(os.sep)
        is_pkg = parts[-1] == '__init__'
        if is_pkg:
            parts = parts[:-1]
        name = '.'.join(parts)
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, rel)
        self.modules[name] = Module(name, path, rel, tree, is_pkg)

    def _names(self, m, body):
        for n in body:
            if isinstance(n, ast.ClassDef):
                c = Cls(n, m)
                m.names[n.name] = c
                self.classes[n.name] = c
                for f in list(c.methods.values()) + list(c.setters.values()):
                    self.funcs[f.qual] = f
            elif isinstance(n, ast.FunctionDef):
                f = Func(n, m, n.name)
                m.names[n.name] = f
                self.funcs[n.name] = f
            elif isinstance(n, ast.Import):
                for a in n.names:
                    dotted = a.name if a.asname else a.name.split('.')[0]
                    m.names[a.asname or a.name.split('.')[0]] = self._modref(dotted)
            elif isinstance(n, ast.ImportFrom):
                base = self._base(m, n)
                for a in n.names:
                    if a.name == '*':
                        m.names.setdefault('*', []).append(base)
                        continue
                    m.names[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ('expr', n.value)
            elif isinstance(n, ast.AnnAssign):
                if isinstance(n.target, ast.Name) and n.value is not None:
                    m.names[n.target.id] = ('expr', n.value)
            elif isinstance(n, (ast.If, ast.Try)):
                for b in ast.iter_child_nodes(n):
                    pass
                self._names(m, getattr(n, 'body', []))
                for h in getattr(n, 'handlers', []):
                    self._names(m, h.body)
                self._names(m, getattr(n, 'orelse', []))

    def _modref(self, dotted):
        return ('mod', dotted) if dotted in self.modules else ('ext', dotted)

    def _base(self, m, n):
        if n.level == 0:
            return n.module
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)] if n.level > 1 else parts
        return '.'.join(parts + ([n.module] if n.module else []))

    def resolve(self, m, name, seen=()):
        """binding of a module-level name"""
        b = m.names.get(name)
        if b is None:
            for base in m.names.get('*', []):
                if base in self.modules and (base, name) not in seen:
                    r = self.resolve(self.modules[base], name, seen + ((base, name),))
                    if r is not None:
                        return r
            return None
        if isinstance(b, tuple) and b[0] == 'from':
            _, base, nm = b
            if base in self.modules:
                if (base, nm) in seen:
                    return None
                r = self.resolve(self.modules[base], nm, seen + ((base, nm),))
                if r is not None:
                    return r
                if base + '.' + nm in self.modules:
                    return ('mod', base + '.' + nm)
                return None
            if base + '.' + nm in self.modules:
                return ('mod', base + '.' + nm)
            return ('ext', base + '.' + nm)
        if isinstance(b, list):
            return None
        if isinstance(b, tuple) and b[0] == 'expr':
            return ('expr', b[1], m)
        return b

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve(m, e.id)
        if isinstance(e, ast.Attribute):
            r = self.resolve_expr(m, e.value)
            if isinstance(r, tuple) and r[0] == 'ext':
                return ('ext', r[1] + '.' + e.attr)
            if isinstance(r, tuple) and r[0] == 'mod':
                return self.resolve(self.modules[r[1]], e.attr)
        return None
