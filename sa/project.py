"""Program model: parses every module of the package, resolves imports, classes, MROs and methods.

Nothing here imports or executes code of the repository; only `ast` is used.
"""
import ast
import os
from pathlib import Path

REPO = Path(os.environ.get('SA_REPO', '/repo'))


class AnalysisBroken(Exception):
    """Raised when an anchor of a rule has vanished or the code cannot be interpreted."""


class Func:
    __slots__ = ('name', 'qual', 'module', 'cls', 'node', 'kind', 'parent')

    def __init__(self, name, qual, module, cls, node, kind='function', parent=None):
        self.name, self.qual, self.module, self.cls, self.node, self.kind = name, qual, module, cls, node, kind
        self.parent = parent

    @property
    def file(self):
        return self.module.rel

    def __repr__(self):
        return f'<Func {self.qual}>'


class Class:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.methods = {}   # name -> Func
        self.props = {}     # name -> {'get': Func, 'set': Func}
        self.attrs = {}     # class level assignments: name -> ast expr
        self.annots = {}    # class level annotations, in order (named tuple fields)
        self.bases = []     # resolved Class or str

    @property
    def qual(self):
        return f'{self.module.name}:{self.name}'

    def __repr__(self):
        return f'<Class {self.name}>'


class Module:
    def __init__(self, name, path, rel, tree, src):
        self.name, self.path, self.rel, self.tree, self.src = name, path, rel, tree, src
        self.funcs, self.classes, self.consts, self.multi = {}, {}, {}, set()
        self.imports = {}   # local name -> (module, attr|None)


class Project:
    def __init__(self, root=None, pkg='glompo'):
        self.root = Path(root or REPO)
        self.pkg = pkg
        self.modules = {}
        for p in sorted((self.root / pkg).rglob('*.py')):
            rel = p.relative_to(self.root)
            parts = list(rel.with_suffix('').parts)
            if parts[-1] == '__init__':
                parts = parts[:-1]
            name = '.'.join(parts)
            src = p.read_text()
            try:
                tree = ast.parse(src)
            except SyntaxError as e:
                raise AnalysisBroken(f'{rel} does not parse: {e}')
            self.modules[name] = Module(name, p, str(rel), tree, src)
        if not self.modules:
            raise AnalysisBroken(f'no modules found under {self.root / pkg}')
        for m in self.modules.values():
            self._collect(m)
        for m in self.modules.values():
            for c in m.classes.values():
                c.bases = [self._base(m, b) for b in c.node.bases]
        self._mods = {}

    # ------------------------------------------------------------------ collection
    def _collect(self, m):
        is_pkg = m.path.name == '__init__.py'

        def imp(n):
            if isinstance(n, ast.Import):
                for a in n.names:
                    m.imports[a.asname or a.name.split('.')[0]] = (a.name if a.asname else a.name.split('.')[0], None)
            else:
                base = n.module or ''
                if n.level:
                    parts = m.name.split('.')
                    up = n.level - (1 if is_pkg else 0)
                    parts = parts[:len(parts) - up] if up else parts
                    base = '.'.join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    m.imports[a.asname or a.name] = (base, a.name)

        def walk(body):
            for n in body:
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    imp(n)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.funcs[n.name] = Func(n.name, f'{m.name}:{n.name}', m, None, n)
                elif isinstance(n, ast.ClassDef):
                    self._class(m, n)
                elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                    tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in tg:
                        if isinstance(t, ast.Name) and n.value is not None:
                            if t.id in m.consts:
                                m.multi.add(t.id)
                            m.consts[t.id] = n.value
                        elif isinstance(t, ast.Tuple):
                            for e in t.elts:
                                if isinstance(e, ast.Name):
                                    m.multi.add(e.id)
                elif isinstance(n, ast.Try):
                    walk(n.body)
                    for h in n.handlers:
                        walk(h.body)
                    walk(n.orelse)
                    walk(n.finalbody)
                elif isinstance(n, (ast.If, ast.With)):
                    walk(n.body)
                    walk(getattr(n, 'orelse', []))

        walk(m.tree.body)
        # imports local to functions are resolvable by name as well
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom) and n not in m.tree.body:
                keep = dict(m.imports)
                imp(n)
                m.imports.update(keep)

    def _class(self, m, n):
        c = Class(n.name, m, n)
        m.classes[n.name] = c
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                decs = [d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else
                        (d.func.id if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) else '')
                        for d in s.decorator_list]
                kind = 'static' if 'staticmethod' in decs else 'class' if 'classmethod' in decs else 'method'
                f = Func(s.name, f'{m.name}:{n.name}.{s.name}', m, c, s, kind)
                if 'property' in decs:
                    c.props.setdefault(s.name, {})['get'] = f
                    f.kind = 'property'
                elif 'setter' in decs:
                    f.qual += '=setter'
                    c.props.setdefault(s.name, {})['set'] = f
                else:
                    c.methods[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.annots[s.target.id] = s.annotation
                if s.value is not None:
                    c.attrs[s.target.id] = s.value

    def _base(self, m, b):
        if isinstance(b, ast.Name):
            r = self.resolve(m, b.id)
            return r if r is not None else b.id
        if isinstance(b, ast.Attribute):
            return b.attr
        return ast.dump(b)

    # ------------------------------------------------------------------ resolution
    def resolve(self, m, name, _seen=None):
        """Resolves a module level name to a Class / Func / ('const', module, expr) or None."""
        _seen = _seen or set()
        if (m.name, name) in _seen:
            return None
        _seen.add((m.name, name))
        if name in m.classes:
            return m.classes[name]
        if name in m.funcs:
            return m.funcs[name]
        if name in m.consts and name not in m.multi:
            return ('const', m, m.consts[name])
        if name in m.imports:
            mod, attr = m.imports[name]
            if attr and mod in self.modules:
                r = self.resolve(self.modules[mod], attr, _seen)
                if r is not None:
                    return r
        return None

    def mro(self, c):
        """C3 is not needed for the class shapes used here, but multiple inheritance order is respected."""
        def lin(c):
            if not isinstance(c, Class):
                return [c]
            seqs = [lin(b) for b in c.bases] + [list(c.bases)]
            out = [c]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    return out
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                for s in seqs:
                    if s and s[0] is h or s and s[0] == h:
                        s.pop(0)
        return lin(c)

    def find_method(self, cls, name, after=None):
        mro = [c for c in self.mro(cls) if isinstance(c, Class)]
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_prop(self, cls, name, which):
        for c in self.mro(cls):
            if isinstance(c, Class):
                if name in c.props:
                    return c.props[name].get(which)
                if name in c.methods or name in c.attrs:
                    return None
        return None

    def find_class_attr(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, Class) and name in c.attrs:
                return c, c.attrs[name]
        return None

    def cls(self, name):
        hits = [m.classes[name] for m in self.modules.values() if name in m.classes]
        if not hits:
            raise AnalysisBroken(f'class {name} not found')
        return hits[0]

    def has_cls(self, name):
        return any(name in m.classes for m in self.modules.values())

    def subclasses(self, base):
        out = []
        for m in self.modules.values():
            for c in m.classes.values():
                if c is not base and base in self.mro(c):
                    out.append(c)
        return out

    def method(self, cls, name):
        c = self.cls(cls) if isinstance(cls, str) else cls
        f = self.find_method(c, name)
        if f is None:
            raise AnalysisBroken(f'{c.name}.{name} not found')
        return f

    def func(self, mod, name):
        m = self.modules.get(mod)
        if m is None or name not in m.funcs:
            raise AnalysisBroken(f'function {mod}:{name} not found')
        return m.funcs[name]

    def all_funcs(self):
        for m in self.modules.values():
            yield from m.funcs.values()
            for c in m.classes.values():
                yield from c.methods.values()
                for p in c.props.values():
                    yield from p.values()

    def is_abstract(self, f):
        for d in f.node.decorator_list:
            if isinstance(d, ast.Name) and d.id == 'abstractmethod':
                return True
        return False

    # ------------------------------------------------------------------ syntactic mod sets
    MUTATORS = {'add', 'append', 'remove', 'discard', 'pop', 'clear', 'update', 'insert', 'extend', 'setdefault',
                'sort', 'reverse', 'popitem'}

    def direct_mods(self, node):
        """Attribute names stored to / mutated under `node`, and names of functions called."""
        stored, mutated, called = set(), set(), set()
        for n in ast.walk(node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stored.add(n.attr)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                v = n.value
                while isinstance(v, ast.Subscript):
                    v = v.value
                if isinstance(v, ast.Attribute):
                    mutated.add(v.attr)
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute):
                    called.add(n.func.attr)
                    v = n.func.value
                    while isinstance(v, ast.Subscript):
                        v = v.value
                    if n.func.attr in self.MUTATORS and isinstance(v, ast.Attribute):
                        mutated.add(v.attr)
                elif isinstance(n.func, ast.Name):
                    called.add(n.func.id)
        return stored, mutated, called

    def mods(self, node, cls=None, _seen=None):
        """Transitive (stored, mutated) attribute names, following calls to methods of `cls` and module functions."""
        _seen = _seen if _seen is not None else set()
        stored, mutated, called = self.direct_mods(node)
        for name in called:
            f = self.find_method(cls, name) if cls is not None else None
            if f is None:
                continue
            if f.qual in _seen:
                continue
            _seen.add(f.qual)
            s, m = self.mods(f.node, cls, _seen)
            stored |= s
            mutated |= m
        return stored, mutated
