"""Source model of the analysed repository: modules, scopes, classes, functions.

Nothing here imports or runs the analysed code; everything is read from the
syntax trees of /repo's working tree on every run.
"""
from __future__ import annotations

import ast
import hashlib
import os
from dataclasses import dataclass, field

from sa.inline import put_back

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "mplang"


class AnalysisBroken(Exception):
    """An anchor vanished or the analysis could not reach a verdict."""


def norm_repo_path(p: str) -> str:
    return os.path.relpath(p, REPO)


@dataclass(eq=False)
class FuncInfo:
    qual: str
    name: str
    node: ast.AST  # FunctionDef | AsyncFunctionDef | Lambda
    module: "Module"
    cls: "ClassInfo | None" = None
    parent: "FuncInfo | None" = None
    decorators: list = field(default_factory=list)
    children: dict = field(default_factory=dict)  # nested function defs by name

    def __repr__(self):
        return f"<F {self.qual}>"

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in (*a.posonlyargs, *a.args)]

    @property
    def allparams(self):
        a = self.node.args
        r = [x.arg for x in (*a.posonlyargs, *a.args)]
        if a.vararg:
            r.append(a.vararg.arg)
        r += [x.arg for x in a.kwonlyargs]
        if a.kwarg:
            r.append(a.kwarg.arg)
        return r

    @property
    def body(self):
        if isinstance(self.node, ast.Lambda):
            r = ast.Return(value=self.node.body)
            ast.copy_location(r, self.node.body)
            return [r]
        return self.node.body

    def deco_names(self):
        out = []
        for d in self.decorators:
            t = d.func if isinstance(d, ast.Call) else d
            out.append(ast.unparse(t))
        return out

    @property
    def is_static(self):
        return "staticmethod" in self.deco_names()

    @property
    def is_classmethod(self):
        return "classmethod" in self.deco_names()

    @property
    def is_property(self):
        return any(d in ("property", "functools.cached_property", "cached_property") for d in self.deco_names())

    @property
    def is_ctxmgr(self):
        return any(d.split(".")[-1] in ("contextmanager", "asynccontextmanager") for d in self.deco_names())

    @property
    def where(self):
        return f"{norm_repo_path(self.module.path)}:{self.node.lineno}"

    _gen = None

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = False
            for n in walk_own(self.node):
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    self._gen = True
                    break
        return self._gen

    _loc = None

    def locals(self):
        """Names bound in this function's own scope."""
        if self._loc is None:
            names = set(self.allparams)
            nl = set()
            for n in walk_own(self.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        names.add((a.asname or a.name).split(".")[0])
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    names.add(n.name)
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    nl.update(n.names)
                elif isinstance(n, ast.MatchAs) and n.name:
                    names.add(n.name)
                elif isinstance(n, ast.MatchStar) and n.name:
                    names.add(n.name)
            for n in iter_direct_defs(self.node):
                names.add(n.name)
            self._loc = names - nl
        return self._loc


def walk_own(fn):
    """Walk nodes of a function without descending into nested defs/classes
    (lambdas and comprehensions are descended into)."""
    stack = list(fn.body) if not isinstance(fn, ast.Lambda) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            # decorators/defaults belong to the enclosing scope
            stack.extend(getattr(n, "decorator_list", []))
            continue
        stack.extend(ast.iter_child_nodes(n))


def iter_direct_defs(fn):
    stack = list(fn.body) if not isinstance(fn, ast.Lambda) else []
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            yield n
            continue
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.stmt, ast.ExceptHandler, ast.match_case)):
                stack.append(c)


@dataclass(eq=False)
class ClassInfo:
    qual: str
    name: str
    node: ast.ClassDef
    module: "Module"
    methods: dict = field(default_factory=dict)
    parent: FuncInfo | None = None

    def __repr__(self):
        return f"<C {self.qual}>"

    @property
    def where(self):
        return f"{norm_repo_path(self.module.path)}:{self.node.lineno}"

    def deco_names(self):
        return [ast.unparse(d.func if isinstance(d, ast.Call) else d) for d in self.node.decorator_list]

    @property
    def is_dataclass(self):
        return any(d.split(".")[-1] == "dataclass" for d in self.deco_names())

    def base_exprs(self):
        out = []
        for b in self.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            out.append(b)
        return out

    def own_fields(self):
        """Annotated class-level fields (dataclass/NamedTuple style), in order: (name, annotation, default)."""
        r = []
        for s in self.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                ann = ast.unparse(s.annotation)
                if "ClassVar" in ann:
                    continue
                r.append((s.target.id, s.annotation, s.value))
        return r

    def class_attr(self, name):
        for s in self.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
                return s.value
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        return s.value
        return None


@dataclass(eq=False)
class Module:
    name: str
    path: str
    tree: ast.Module
    src: str
    is_pkg: bool
    imports: dict = field(default_factory=dict)  # local name -> dotted target
    functions: dict = field(default_factory=dict)
    classes: dict = field(default_factory=dict)
    assigns: dict = field(default_factory=dict)  # module var -> list of value exprs

    def __repr__(self):
        return f"<M {self.name}>"


BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)


class Project:
    def __init__(self, repo: str = REPO, pkg: str = PKG, extra_sources: dict | None = None):
        self.repo = repo
        self.pkg = pkg
        self.modules: dict[str, Module] = {}
        self.functions: dict[str, FuncInfo] = {}
        self.classes: dict[str, ClassInfo] = {}
        self.node2func: dict[int, FuncInfo] = {}
        root = os.path.join(repo, pkg)
        self._sources: list = []
        if extra_sources is None:
            if not os.path.isdir(root):
                raise AnalysisBroken(f"{root} does not exist")
            for dp, dn, fn in os.walk(root):
                dn[:] = sorted(d for d in dn if d != "__pycache__")
                for f in sorted(fn):
                    if f.endswith(".py"):
                        self._load(os.path.join(dp, f))
        else:
            for name, src in extra_sources.items():
                self._parse(name, f"<{name}>", src, name.endswith("__init__"))
        # a helper nobody has named yet is read where it is called
        self.put_back = put_back({name: tree for name, _, _, tree, _ in self._sources})
        for name, path, src, tree, is_pkg in self._sources:
            self._add(name, path, src, tree, is_pkg)
        self._subclasses = None

    def digest(self) -> str:
        h = hashlib.sha256()
        for m in sorted(self.modules.values(), key=lambda m: m.name):
            h.update(m.name.encode())
            h.update(m.src.encode())
        return h.hexdigest()

    def _load(self, path):
        rel = os.path.relpath(path, self.repo)
        parts = rel[:-3].split(os.sep)
        is_pkg = parts[-1] == "__init__"
        if is_pkg:
            parts = parts[:-1]
        with open(path, encoding="utf-8") as f:
            src = f.read()
        self._parse(".".join(parts), path, src, is_pkg)

    def _parse(self, name, path, src, is_pkg):
        try:
            tree = ast.parse(src, filename=path)
        except SyntaxError as e:
            raise AnalysisBroken(f"cannot parse {path}: {e}") from e
        self._sources.append((name, path, src, tree, is_pkg))

    def _add(self, name, path, src, tree, is_pkg):
        m = Module(name, path, tree, src, is_pkg)
        self.modules[name] = m
        self._index_imports(m, tree.body, m.imports)
        self._index_body(m, tree.body)

    def imports_of_stmts(self, m, n):
        """Local import bindings of one Import/ImportFrom node."""
        out = {}
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    out[a.asname] = a.name
                else:
                    out[a.name.split(".")[0]] = a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom):
            base = n.module or ""
            if n.level:
                pk = m.name.split(".") if m.is_pkg else m.name.split(".")[:-1]
                pk = pk[: len(pk) - (n.level - 1)]
                base = ".".join(pk + ([n.module] if n.module else []))
            for a in n.names:
                if a.name == "*":
                    out.setdefault("*", []).append(base)
                else:
                    out[a.asname or a.name] = base + "." + a.name
        return out

    def _index_imports(self, m, body, into):
        stack = list(body)
        while stack:
            s = stack.pop(0)
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                for k, v in self.imports_of_stmts(m, s).items():
                    if k == "*":
                        into.setdefault("*", []).extend(v)
                    else:
                        into[k] = v
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for c in ast.iter_child_nodes(s):
                    if isinstance(c, ast.stmt):
                        stack.append(c)
                    elif isinstance(c, ast.ExceptHandler):
                        stack.extend(c.body)

    def _index_body(self, m, body):
        stack = list(body)
        while stack:
            s = stack.pop(0)
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = self._mkfunc(m, s, m.name + "." + s.name, None, None)
                m.functions[s.name] = fi
            elif isinstance(s, ast.ClassDef):
                m.classes[s.name] = self._mkclass(m, s, m.name + "." + s.name, None)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            m.assigns.setdefault(n.id, []).append(s.value)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                if s.value is not None:
                    m.assigns.setdefault(s.target.id, []).append(s.value)
                else:
                    m.assigns.setdefault(s.target.id, [])
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for c in ast.iter_child_nodes(s):
                    if isinstance(c, ast.stmt):
                        stack.append(c)
                    elif isinstance(c, ast.ExceptHandler):
                        stack.extend(c.body)

    def _mkfunc(self, m, node, qual, cls, parent):
        base = qual
        i = 2
        while qual in self.functions:
            # overloads / redefinitions: later definition wins, keep both addressable
            qual = f"{base}#{i}"
            i += 1
        fi = FuncInfo(qual, node.name, node, m, cls, parent, list(node.decorator_list))
        self.functions[qual] = fi
        self.node2func[id(node)] = fi
        for d in iter_direct_defs(node):
            if isinstance(d, ast.ClassDef):
                c = self._mkclass(m, d, qual + "." + d.name, fi)
                fi.children[d.name] = c
            else:
                fi.children[d.name] = self._mkfunc(m, d, qual + "." + d.name, None, fi)
        return fi

    def _mkclass(self, m, node, qual, parent):
        c = ClassInfo(qual, node.name, node, m, parent=parent)
        self.classes[qual] = c
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = self._mkfunc(m, s, qual + "." + s.name, c, parent)
                # keep property getters over setters, last def otherwise
                if any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in s.decorator_list):
                    c.methods.setdefault(s.name + ".setter", fi)
                elif any(ast.unparse(d).split(".")[-1] == "overload" for d in s.decorator_list):
                    continue
                else:
                    c.methods[s.name] = fi
            elif isinstance(s, ast.ClassDef):
                self._mkclass(m, s, qual + "." + s.name, parent)
        return c

    # -- resolution -------------------------------------------------------
    def resolve_dotted(self, dotted: str, _seen=None):
        """Resolve a dotted path to ('func',FuncInfo)|('class',ClassInfo)|('mod',name)|('modvar',mod,name)|('ext',dotted)."""
        _seen = _seen or set()
        if dotted in _seen:
            return ("ext", dotted)
        _seen.add(dotted)
        if dotted in self.modules:
            return ("mod", dotted)
        if "." in dotted:
            head, tail = dotted.rsplit(".", 1)
            r = self.resolve_dotted(head, _seen)
            if r[0] == "mod":
                return self.module_attr(r[1], tail, _seen)
            if r[0] == "class":
                mth = self.find_method(r[1], tail)
                if mth is not None:
                    return ("func", mth)
                sub = self.classes.get(r[1].qual + "." + tail)
                if sub is not None:
                    return ("class", sub)
                return ("clsattr", r[1].qual, tail)
            if r[0] == "ext":
                return ("ext", r[1] + "." + tail)
            return ("ext", dotted)
        return ("ext", dotted)

    def module_attr(self, modname, name, _seen=None):
        m = self.modules[modname]
        if name in m.functions:
            return ("func", m.functions[name])
        if name in m.classes:
            return ("class", m.classes[name])
        if name in m.imports and name != "*":
            return self.resolve_dotted(m.imports[name], _seen)
        if name in m.assigns:
            vals = m.assigns[name]
            # simple alias  X = Y
            if len(vals) == 1 and isinstance(vals[0], (ast.Name, ast.Attribute)):
                d = self._dotted(vals[0])
                if d and d.split(".")[0] != name:
                    r = self.resolve_name_in_module(m, d)
                    if r is not None and r[0] in ("func", "class", "ext", "mod") :
                        return r
            return ("modvar", modname, name)
        if modname + "." + name in self.modules:
            return ("mod", modname + "." + name)
        for star in m.imports.get("*", []):
            if star in self.modules:
                r = self.module_attr(star, name, _seen)
                if r[0] != "ext":
                    return r
        return ("ext", modname + "." + name)

    @staticmethod
    def _dotted(e):
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if isinstance(e, ast.Name):
            parts.append(e.id)
            return ".".join(reversed(parts))
        return None

    def resolve_name_in_module(self, m: Module, dotted: str):
        head, _, rest = dotted.partition(".")
        if head in m.functions or head in m.classes or head in m.imports or head in m.assigns:
            r = self.module_attr(m.name, head)
        else:
            r = None
            for star in m.imports.get("*", []):
                if star in self.modules:
                    q = self.module_attr(star, head)
                    if q[0] != "ext":
                        r = q
                        break
            if r is None:
                if head in BUILTINS:
                    r = ("ext", "builtins." + head)
                else:
                    return None
        for part in rest.split(".") if rest else []:
            r = self.attr_of(r, part)
        return r

    def attr_of(self, r, part):
        if r[0] == "mod":
            return self.module_attr(r[1], part)
        if r[0] == "ext":
            return ("ext", r[1] + "." + part)
        if r[0] == "class":
            mth = self.find_method(r[1], part)
            if mth is not None:
                return ("func", mth)
            sub = self.classes.get(r[1].qual + "." + part)
            if sub is not None:
                return ("class", sub)
            return ("clsattr", r[1].qual, part)
        if r[0] == "modvar":
            return ("modvarattr", r[1], r[2], part)
        return ("unk", part)

    def resolve_expr(self, e, module: Module, func: FuncInfo | None = None):
        """Resolve a Name/Attribute expression statically (ignoring local dataflow)."""
        if isinstance(e, ast.Subscript):
            e = e.value
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode="eval").body
            except SyntaxError:
                return None
            if isinstance(e, ast.Subscript):
                e = e.value
        d = self._dotted(e)
        if d is None:
            return None
        head = d.split(".")[0]
        f = func
        while f is not None:
            if head in f.locals():
                ch = f.children.get(head)
                r = None
                if isinstance(ch, FuncInfo):
                    r = ("func", ch)
                elif isinstance(ch, ClassInfo):
                    r = ("class", ch)
                else:
                    b = self.local_imports(f)
                    if head in b and head != "*":
                        r = self.resolve_dotted(b[head])
                if r is None:
                    return None
                for part in d.split(".")[1:]:
                    r = self.attr_of(r, part)
                return r
            f = f.parent
        return self.resolve_name_in_module(module, d)

    def local_imports(self, f):
        b = getattr(f, "_local_imports", None)
        if b is None:
            b = {}
            for n in walk_own(f.node):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    b.update(self.imports_of_stmts(f.module, n))
            f._local_imports = b
        return b

    # -- classes ----------------------------------------------------------
    def bases(self, c: ClassInfo):
        out = []
        for b in c.base_exprs():
            r = self.resolve_expr(b, c.module, c.parent)
            if r and r[0] == "class":
                out.append(r[1])
        return out

    def ext_bases(self, c: ClassInfo):
        out = set()
        for k in self.mro(c):
            for b in k.base_exprs():
                r = self.resolve_expr(b, k.module, k.parent)
                if r and r[0] == "ext":
                    out.add(r[1])
        return out

    def mro(self, c: ClassInfo):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            todo.extend(self.bases(x))
        return out

    def find_method(self, c: ClassInfo, name: str):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def find_class_attr(self, c: ClassInfo, name: str):
        for k in self.mro(c):
            v = k.class_attr(name)
            if v is not None:
                return k, v
        return None

    def subclasses(self, c: ClassInfo):
        if self._subclasses is None:
            self._subclasses = {}
            for k in self.classes.values():
                for b in self.mro(k)[1:]:
                    self._subclasses.setdefault(b.qual, []).append(k)
        return self._subclasses.get(c.qual, [])

    def is_subclass(self, c: ClassInfo, qual: str):
        return any(k.qual == qual or k.name == qual for k in self.mro(c))

    def dataclass_fields(self, c: ClassInfo):
        """(name, ann, default, owner) over the MRO, base fields first."""
        out = {}
        for k in reversed(self.mro(c)):
            if k.is_dataclass or "typing.NamedTuple" in self.ext_bases(k) or k is c:
                for n, a, d in k.own_fields():
                    out[n] = (n, a, d, k)
        return list(out.values())

    # -- lookups with anchors ---------------------------------------------
    def need_class(self, name: str, module_hint: str | None = None) -> ClassInfo:
        c = [k for k in self.classes.values() if k.name == name and (module_hint is None or module_hint in k.module.name)]
        if not c and module_hint is not None:
            c = [k for k in self.classes.values() if k.name == name]
        if len(c) != 1:
            raise AnalysisBroken(f"anchor class {name} ({module_hint}): found {[k.qual for k in c]}")
        return c[0]

    def need_func(self, qual: str) -> FuncInfo:
        f = self.functions.get(qual)
        if f is None:
            r = self.resolve_dotted(qual)
            if r[0] == "func":
                return r[1]
            raise AnalysisBroken(f"anchor function {qual} not found")
        return f

    def need_method(self, cls: ClassInfo, name: str) -> FuncInfo:
        f = self.find_method(cls, name)
        if f is None:
            raise AnalysisBroken(f"anchor method {cls.qual}.{name} not found")
        return f
