"""The program under analysis: parsed modules, classes, functions."""
import ast
import os

REPO = os.environ.get("TAUPY_REPO", "/repo")


class AnalysisError(Exception):
    """The analysis cannot be carried out (vanished anchor, syntax error)."""


class Func(object):
    def __init__(self, module, cls, node, kind):
        self.module, self.cls, self.node, self.kind = module, cls, node, kind
        self.name = node.name

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    def where(self, node=None):
        return "%s:%d" % (self.module.path, (node or self.node).lineno)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def defaults(self):
        """{parameter: default expression}"""
        a = self.node.args
        ps = a.posonlyargs + a.args
        d = dict(zip([p.arg for p in ps[len(ps) - len(a.defaults):]],
                     a.defaults))
        for p, e in zip(a.kwonlyargs, a.kw_defaults):
            if e is not None:
                d[p.arg] = e
        return d


class Class(object):
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.methods, self.attrs, self.base_names = {}, {}, []
        for b in node.bases:
            if isinstance(b, ast.Name):
                self.base_names.append(b.id)
            elif isinstance(b, ast.Attribute):
                self.base_names.append(b.attr)
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                kind = "method"
                for d in s.decorator_list:
                    if isinstance(d, ast.Name) and d.id in (
                            "property", "classmethod", "staticmethod"):
                        kind = d.id
                self.methods[s.name] = Func(module, self, s, kind)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None \
                    and isinstance(s.target, ast.Name):
                self.attrs[s.target.id] = s.value


class Module(object):
    def __init__(self, path, source):
        self.path, self.source = path, source
        self.name = os.path.splitext(os.path.basename(path))[0]
        try:
            self.tree = ast.parse(source, path)
        except SyntaxError as e:
            raise AnalysisError("cannot parse %s: %s" % (path, e))
        self.classes, self.functions, self.consts = {}, {}, {}
        self.imports = {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, ast.ClassDef):
                self.classes[s.name] = Class(self, s)
            elif isinstance(s, ast.FunctionDef):
                self.functions[s.name] = Func(self, None, s, "function")
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
                    elif isinstance(t, ast.Tuple) and isinstance(
                            s.value, ast.Tuple) and \
                            len(t.elts) == len(s.value.elts):
                        for a, b in zip(t.elts, s.value.elts):
                            if isinstance(a, ast.Name):
                                self.consts[a.id] = b
            elif isinstance(s, ast.AnnAssign) and s.value is not None and \
                    isinstance(s.target, ast.Name):
                self.consts[s.target.id] = s.value
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan(s.body)
                self._scan(getattr(s, "orelse", []))
                for h in getattr(s, "handlers", []):
                    self._scan(h.body)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split(".")[0]] = (
                        "module", a.name if a.asname else
                        a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.imports[a.asname or a.name] = (
                        "from", s.module or "", a.name)


class Program(object):
    def __init__(self, sources):
        self.sources = sources
        self.modules = {}
        for path in sorted(sources):
            m = Module(path, sources[path])
            self.modules[m.name] = m
        self.classes, self.functions = {}, {}
        for m in self.modules.values():
            self.classes.update(m.classes)
            for n, f in m.functions.items():
                self.functions.setdefault(n, f)
        self.by_method = {}
        for c in self.classes.values():
            for n, f in c.methods.items():
                self.by_method.setdefault(n, []).append(f)

    @classmethod
    def from_repo(cls, root=None):
        root = root or REPO
        src = {}
        pkg = os.path.join(root, "taupy")
        for d, dirs, files in os.walk(pkg):
            dirs[:] = sorted(x for x in dirs if x not in (
                "tests", "__pycache__", "data"))
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    with open(p, encoding="utf-8") as fh:
                        src[os.path.relpath(p, root)] = fh.read()
        p = os.path.join(root, "setup.py")
        if os.path.exists(p):
            with open(p, encoding="utf-8") as fh:
                src["setup.py"] = fh.read()
        if len(src) < 5:
            raise AnalysisError("no taupy package under %s" % root)
        return cls(src)

    def mro(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            todo += [self.classes[b] for b in c.base_names
                     if b in self.classes]
        return out

    def find_method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def find_class_attr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def func(self, qual):
        """Look up a public anchor: 'Class.method' or 'function'."""
        if "." in qual:
            c, m = qual.split(".")
            if c not in self.classes:
                raise AnalysisError("anchor class %s has vanished" % c)
            f = self.find_method(self.classes[c], m)
            if f is None:
                raise AnalysisError("anchor %s has vanished" % qual)
            return f
        if qual not in self.functions:
            raise AnalysisError("anchor function %s has vanished" % qual)
        return self.functions[qual]

    def raised(self, func):
        """Names of the package's exceptions a function may raise, itself or
        in what it calls (by name)."""
        known = self.__dict__.setdefault("_raised", {})
        if not known:
            direct, calls = {}, {}
            for f in self.all_funcs():
                d, c = set(), set()
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Raise) and n.exc is not None:
                        e = n.exc.func if isinstance(n.exc, ast.Call) \
                            else n.exc
                        e = getattr(e, "id", getattr(e, "attr", None))
                        if e in self.classes:
                            d.add(e)
                    elif isinstance(n, ast.Call):
                        e = n.func
                        if isinstance(e, ast.Attribute):
                            c.add(e.attr)
                        elif isinstance(e, ast.Name):
                            c.add("__init__ " + e.id
                                  if e.id in self.classes else e.id)
                direct[f], calls[f] = d, c
            named = {}
            for f in direct:
                named.setdefault(f.name, []).append(f)
                if f.name == "__init__" and f.cls:
                    named.setdefault("__init__ " + f.cls.name, []).append(f)
            grown = True
            while grown:
                grown = False
                for f, c in calls.items():
                    for n in c:
                        for g in named.get(n, ()):
                            if not direct[g] <= direct[f]:
                                direct[f] |= direct[g]
                                grown = True
            known.update(direct)
        return known.get(func, set())

    def all_funcs(self):
        for m in self.modules.values():
            for f in m.functions.values():
                yield f
            for c in m.classes.values():
                for f in c.methods.values():
                    yield f

    def resolve_import(self, module, name):
        """What a module-level name denotes: ('class', Class),
        ('func', Func), ('module', name), ('const', module, expr) or None."""
        if name in module.classes:
            return "class", module.classes[name]
        if name in module.functions:
            return "func", module.functions[name]
        if name in module.consts:
            return "const", module, module.consts[name]
        imp = module.imports.get(name)
        if imp is None:
            if getattr(module, "is_spec", False):
                if name in self.classes:
                    return "class", self.classes[name]
                if name in self.functions:
                    return "func", self.functions[name]
                if name in self.modules:
                    return "module", name
            return None
        if imp[0] == "module":
            tail = imp[1].split(".")[-1]
            if tail in self.modules and imp[1].startswith("taupy"):
                return "module", tail
            return "extmodule", imp[1]
        _, mod, attr = imp
        tail = mod.split(".")[-1] if mod else ""
        if tail in self.modules and self.modules[tail] is not module:
            r = self.resolve_import(self.modules[tail], attr)
            if r is not None:
                return r
        if attr in self.modules:
            return "module", attr
        return "extname", mod, attr
