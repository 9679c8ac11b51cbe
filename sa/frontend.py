"""Parses the package under analysis and resolves modules, imports, classes and methods."""
import ast
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
POAP_DIRS = ["/opt/venv/lib/python3.12/site-packages/poap"]


class AnalysisBroken(Exception):
    """An anchor the analysis depends on is missing: the run gives no verdict."""


class FuncInfo:
    def __init__(self, node, module, cls=None, kind="function", outer=None):
        self.node, self.module, self.cls, self.kind, self.outer = node, module, cls, kind, outer
        self.name = getattr(node, "name", "<lambda>")
        self.qual = (cls.qual + "." if cls else module.name + ".") + self.name

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def all_params(self):
        return self.params + [x.arg for x in self.node.args.kwonlyargs]

    def where(self, node=None):
        n = node if node is not None and hasattr(node, "lineno") else self.node
        return "%s:%d (%s)" % (self.module.rel, n.lineno, (self.cls.name + "." if self.cls else "") + self.name)

    def __repr__(self):
        return "<func %s>" % self.qual


class ClassInfo:
    def __init__(self, node, module):
        self.node, self.module, self.name = node, module, node.name
        self.qual = module.name + "." + node.name
        self.methods, self.setters, self.consts = {}, {}, {}
        self.base_exprs = node.bases
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = "method"
                for d in s.decorator_list:
                    dn = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else ""
                    if dn == "property":
                        kind = "property"
                    elif dn == "setter":
                        kind = "setter"
                    elif dn in ("staticmethod", "classmethod"):
                        kind = dn
                fi = FuncInfo(s, module, self, kind)
                (self.setters if kind == "setter" else self.methods)[s.name] = fi
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.consts[s.target.id] = s.value

    def __repr__(self):
        return "<class %s>" % self.qual


class ModuleInfo:
    def __init__(self, name, path, rel, is_pkg):
        self.name, self.path, self.rel, self.is_pkg = name, path, rel, is_pkg
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.names = {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.names[s.name] = FuncInfo(s, self)
            elif isinstance(s, ast.ClassDef):
                self.names[s.name] = ClassInfo(s, self)
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for k, v in import_bindings(s, self).items():
                    self.names[k] = v
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ("const", s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.names[s.target.id] = ("const", s.value)
            elif isinstance(s, (ast.If, ast.Try)):
                self._scan(s.body)
                self._scan(getattr(s, "orelse", []))
                for h in getattr(s, "handlers", []):
                    self._scan(h.body)
                self._scan(getattr(s, "finalbody", []))


def import_bindings(s, module):
    """name -> ('mod', dotted) | ('from', dotted module, attr)"""
    out = {}
    if isinstance(s, ast.Import):
        for a in s.names:
            if a.asname:
                out[a.asname] = ("mod", a.name)
            else:
                out[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
    else:
        base = s.module or ""
        if s.level:
            parts = module.name.split(".")
            if not module.is_pkg:
                parts = parts[:-1]
            parts = parts[: len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            out[a.asname or a.name] = ("from", base, a.name)
    return out


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        root = os.path.join(self.repo, "pySOT")
        if not os.path.isdir(root):
            raise AnalysisBroken("no package directory " + root)
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.repo)
                    name = rel[:-3].replace(os.sep, ".")
                    pkg = f == "__init__.py"
                    if pkg:
                        name = name[: -len(".__init__")]
                    self.modules[name] = ModuleInfo(name, p, rel, pkg)
        self.lib_modules = {}
        for d in POAP_DIRS:
            for n in ("strategy", "controller"):
                p = os.path.join(d, n + ".py")
                if os.path.isfile(p):
                    self.lib_modules["poap." + n] = ModuleInfo("poap." + n, p, "poap/%s.py" % n, False)
        self._mro = {}

    # -------------------------------------------------------------- resolution
    def module(self, name):
        return self.modules.get(name) or self.lib_modules.get(name)

    def resolve(self, module, name, seen=()):
        """What `name` means at module level: FuncInfo, ClassInfo, ('const', node, module), ('lib', dotted), ('modref', ModuleInfo)"""
        b = module.names.get(name)
        if b is None:
            sub = self.module(module.name + "." + name)
            if sub is not None and module.is_pkg:
                return ("modref", sub)
            return None
        if isinstance(b, (FuncInfo, ClassInfo)):
            return b
        if b[0] == "const":
            return ("const", b[1], module)
        return self.resolve_import(b, seen)

    def resolve_import(self, b, seen=()):
        if b[0] == "mod":
            m = self.module(b[1])
            return ("modref", m) if m is not None and b[1] in self.modules else ("lib", b[1])
        _, base, attr = b
        if (base, attr) in seen:
            return ("lib", base + "." + attr)
        m = self.module(base)
        if m is not None:
            r = self.resolve(m, attr, seen + ((base, attr),))
            if r is not None:
                return r
        m = self.modules.get(base + "." + attr)
        if m is not None:
            return ("modref", m)
        return ("lib", base + "." + attr)

    def resolve_expr_class(self, module, e):
        if isinstance(e, ast.Name):
            r = self.resolve(module, e.id)
            return r
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr_class(module, e.value)
            if isinstance(b, tuple) and b[0] == "modref":
                return self.resolve(b[1], e.attr)
            if isinstance(b, tuple) and b[0] == "lib":
                return ("lib", b[1] + "." + e.attr)
        return None

    def bases(self, ci):
        out = []
        for e in ci.base_exprs:
            r = self.resolve_expr_class(ci.module, e)
            if isinstance(r, ClassInfo):
                out.append(r)
        return out

    def ext_bases(self, ci):
        out = []
        for c in self.mro(ci):
            for e in c.base_exprs:
                r = self.resolve_expr_class(c.module, e)
                if isinstance(r, tuple) and r[0] == "lib":
                    out.append(r[1])
        return out

    def mro(self, ci):
        if ci.qual in self._mro:
            return self._mro[ci.qual]
        lists = [list(self.mro(b)) for b in self.bases(ci)] + [list(self.bases(ci))]
        out = [ci]
        while any(lists):
            for l in lists:
                if l and not any(l[0] in m[1:] for m in lists if m):
                    h = l[0]
                    break
            else:
                break
            out.append(h)
            for m in lists:
                if m and m[0] is h:
                    m.pop(0)
        self._mro[ci.qual] = out
        return out

    def find_method(self, ci, name, after=None, setter=False):
        seen = after is None
        for c in self.mro(ci):
            if not seen:
                seen = c is after
                continue
            d = c.setters if setter else c.methods
            if name in d:
                return d[name]
        return None

    def cls(self, name):
        """A class of the package by its (unique) name."""
        r = [m.names[name] for m in self.modules.values() if isinstance(m.names.get(name), ClassInfo)]
        if len(r) != 1:
            raise AnalysisBroken("class %s: %d definitions found" % (name, len(r)))
        return r[0]

    def func(self, name):
        r = [m.names[name] for m in self.modules.values() if isinstance(m.names.get(name), FuncInfo)]
        if len(r) != 1:
            raise AnalysisBroken("function %s: %d definitions found" % (name, len(r)))
        return r[0]

    def classes(self):
        for m in self.modules.values():
            for v in m.names.values():
                if isinstance(v, ClassInfo):
                    yield v

    def functions(self):
        """all functions and methods"""
        for m in self.modules.values():
            for v in list(m.names.values()):
                if isinstance(v, FuncInfo):
                    yield v
                elif isinstance(v, ClassInfo):
                    for f in list(v.methods.values()) + list(v.setters.values()):
                        yield f

    def is_sub(self, ci, name):
        return any(c.name == name for c in self.mro(ci))

    def subclasses(self, name):
        return [c for c in self.classes() if c.name != name and self.is_sub(c, name)]

    def is_abstract(self, ci):
        names = {}
        for c in reversed(self.mro(ci)):
            for n, f in c.methods.items():
                abst = any((isinstance(d, ast.Attribute) and d.attr == "abstractmethod")
                           or (isinstance(d, ast.Name) and d.id == "abstractmethod") for d in f.node.decorator_list)
                names[n] = abst
        return any(names.values())
