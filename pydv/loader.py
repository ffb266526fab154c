"""Mechanical extraction of functions from /repo's current sources (ast, re-read on every run).

What the extraction drops: decorators (numba signatures / caching), docstrings, annotations, comments.
Everything else is interpreted statement by statement.
"""
import ast
import hashlib
import os


class FuncRef:
    def __init__(self, node, module, qual, cls=None, closure=None):
        self.node, self.module, self.qual, self.cls, self.closure = node, module, qual, cls, closure

    @property
    def is_static(self):
        return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in self.node.decorator_list)

    @property
    def is_class(self):
        return any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in self.node.decorator_list)

    @property
    def is_property(self):
        return any(isinstance(d, ast.Name) and d.id == 'property' for d in self.node.decorator_list)

    def __repr__(self):
        return 'FuncRef(%s)' % self.qual


class ClassRef:
    def __init__(self, node, module, qual):
        self.node, self.module, self.qual = node, module, qual
        self.methods = {}
        self.setters = {}
        self.attrs = {}

    def __repr__(self):
        return 'ClassRef(%s)' % self.qual


class ModRef:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'ModRef(%s)' % self.name


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.names = {}
        self.assigns = {}

    def sha(self):
        return hashlib.sha256(self.src.encode()).hexdigest()[:16]


class Loader:
    PKG = 'pipedream_solver'

    def __init__(self, repo=None):
        self.repo = repo or os.environ.get('VERIF_REPO', '/repo')
        self.mods = {}

    def module(self, name):
        """name: 'nsuperlink' or 'pipedream_solver.nsuperlink'"""
        short = name.split('.')[-1]
        if short in self.mods:
            return self.mods[short]
        path = os.path.join(self.repo, self.PKG, short + '.py')
        if not os.path.exists(path):
            return None
        m = Module(short, path)
        self.mods[short] = m
        self._scan(m, m.tree.body)
        return m

    def _scan(self, m, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                m.names[n.name] = FuncRef(n, m, m.name + '.' + n.name)
            elif isinstance(n, ast.ClassDef):
                c = ClassRef(n, m, m.name + '.' + n.name)
                for k in n.body:
                    if isinstance(k, ast.FunctionDef):
                        f = FuncRef(k, m, c.qual + '.' + k.name, cls=c)
                        if any(isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter', 'getter') for d in k.decorator_list):
                            if any(d.attr == 'setter' for d in k.decorator_list if isinstance(d, ast.Attribute)):
                                f.qual += '.setter'
                                c.setters[k.name] = f
                        else:
                            c.methods[k.name] = f
                    elif isinstance(k, ast.Assign) and len(k.targets) == 1 and isinstance(k.targets[0], ast.Name):
                        c.attrs[k.targets[0].id] = k.value
                m.names[n.name] = c
            elif isinstance(n, ast.Import):
                for a in n.names:
                    m.names[a.asname or a.name.split('.')[0]] = ModRef(a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    m.names[a.asname or a.name] = ('from', n.module, a.name)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                m.assigns[n.targets[0].id] = n.value
            elif isinstance(n, (ast.Try, ast.If)):
                self._scan(m, n.body)

    def func(self, qual):
        """'nsuperlink.numba_a_ik' or 'nsuperlink.nSuperLink.link_coeffs' (searches bases)"""
        parts = qual.split('.')
        m = self.module(parts[0])
        if m is None:
            return None
        x = m.names.get(parts[1])
        if len(parts) == 2:
            return x if isinstance(x, FuncRef) else None
        if isinstance(x, ClassRef):
            return self.method(x, parts[2])
        return None

    def cls(self, qual):
        parts = qual.split('.')
        m = self.module(parts[0])
        return m.names.get(parts[1]) if m else None

    def bases(self, c):
        out = []
        for b in c.node.bases:
            r = self.resolve_expr(b, c.module)
            if isinstance(r, ClassRef):
                out.append(r)
        return out

    def mro(self, c):
        out = [c]
        for b in self.bases(c):
            for x in self.mro(b):
                if x not in out:
                    out.append(x)
        return out

    def method(self, c, name, after=None):
        ms = self.mro(c)
        if after is not None:
            ms = ms[ms.index(after) + 1:]
        for k in ms:
            if name in k.methods:
                return k.methods[name]
        return None

    def setter(self, c, name):
        for k in self.mro(c):
            if name in k.setters:
                return k.setters[name]
        return None

    def resolve_expr(self, e, module):
        if isinstance(e, ast.Name):
            return self.resolve(e.id, module)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value, module)
            if isinstance(b, ModRef):
                return self.mod_attr(b, e.attr)
            if isinstance(b, ClassRef):
                return b.methods.get(e.attr)
        return None

    def resolve(self, name, module):
        x = module.names.get(name)
        if isinstance(x, tuple) and x[0] == 'from':
            _, modname, nm = x
            if modname and modname.split('.')[0] == self.PKG:
                if modname == self.PKG:
                    return ModRef(self.PKG + '.' + nm)
                mm = self.module(modname)
                return self.resolve(nm, mm) if mm else None
            return ModRef((modname or '') + '.' + nm)
        return x

    def mod_attr(self, ref, attr):
        full = ref.name + '.' + attr
        if ref.name == self.PKG:
            return ModRef(full)
        if ref.name.startswith(self.PKG + '.'):
            m = self.module(ref.name)
            if m is None:
                return None
            r = self.resolve(attr, m)
            if r is None and attr in m.assigns:
                return ('assign', m, m.assigns[attr])
            return r
        return ModRef(full)
