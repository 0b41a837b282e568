"""Helpers the rules have never met are read where they are called.

The rules know the functions of the tree they were written for
(`sa/known_functions.txt`).  A function or method with another name that is
only called from its own module is a part of its callers that somebody gave a
name: its body is put back at the call, on the syntax tree, before anything is
indexed.  Nothing is assumed about it; what cannot be put back exactly
(generators, decorated or overridden functions, returns from inside a loop,
calls in the middle of a conditional expression) stays a call.
"""
from __future__ import annotations

import ast
import copy
import hashlib
import os
import string

KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_functions.txt")
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPE = (*FUNC, ast.Lambda, ast.ClassDef)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
ROUNDS = 6


def names_of_tree(name, tree):
    """`module:qualname=print` of every function of a module that is not nested in another."""
    for s, cls in top_defs(tree):
        q = f"{name}:{cls.name + '.' if cls else ''}{s.name}"
        yield f"{q}={print_of(s)}"
        yield from nested_names(q, s)


def nested_names(q, fn):
    for n in own(fn):
        if isinstance(n, FUNC):
            yield f"{q}/{n.name}=-"
            yield from nested_names(f"{q}/{n.name}", n)


def top_defs(tree):
    todo = [(s, None) for s in tree.body]
    while todo:
        s, cls = todo.pop(0)
        if isinstance(s, FUNC):
            yield s, cls
        elif isinstance(s, ast.ClassDef):
            if cls is None:
                todo += [(x, s) for x in s.body]
        elif isinstance(s, (ast.If, ast.Try, ast.With)):
            todo += [(x, cls) for x in ast.iter_child_nodes(s) if isinstance(x, ast.stmt)]
            for h in getattr(s, "handlers", []):
                todo += [(x, cls) for x in h.body]


def print_of(fn):
    """What a function does, whatever it and private names in it are called."""

    class Blank(ast.NodeTransformer):
        def visit_Name(self, n):
            if n.id.startswith("_"):
                n.id = "_"
            return n

        def visit_Attribute(self, n):
            self.generic_visit(n)
            if n.attr.startswith("_"):
                n.attr = "_"
            return n

        def visit_alias(self, n):
            if n.name.startswith("_"):
                n.name = "_"
            return n

        def visit_FunctionDef(self, n):
            self.generic_visit(n)
            if n.name.startswith("_"):
                n.name = "_"
            return n

        visit_AsyncFunctionDef = visit_FunctionDef

    k = Blank().visit(copy.deepcopy(fn))
    k.name = "_"
    k.body = body_of(k) or k.body
    return hashlib.sha256(ast.dump(k).encode()).hexdigest()[:16]


def own(fn):
    """Nodes of a function's own scope; nested scopes are listed but not entered."""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, SCOPE):
            continue
        todo += list(ast.iter_child_nodes(n))


def stored(fn):
    """Names a function binds in its own scope, parameters aside."""
    out = set()
    for n in own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in n.names}
        elif isinstance(n, (*FUNC, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
    return out


def argnames(a):
    return [x.arg for x in (*a.posonlyargs, *a.args, *a.kwonlyargs)] + [x.arg for x in (a.vararg, a.kwarg) if x]


def every_name(node):
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in n.names}
        elif isinstance(n, (*FUNC, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out


def simple(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, (ast.Name, ast.Constant))


def body_of(fn):
    b = fn.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
        b = b[1:]
    return b


def ends(b):
    """Does control never fall off the end of these statements?"""
    if not b:
        return False
    s = b[-1]
    if isinstance(s, (ast.Return, ast.Raise)):
        return True
    if isinstance(s, ast.If):
        return ends(s.body) and ends(s.orelse)
    if isinstance(s, ast.With):
        return ends(s.body)
    if isinstance(s, ast.Try):
        return ends(s.finalbody) or ((ends(s.orelse) if s.orelse else ends(s.body)) and all(ends(h.body) for h in s.handlers))
    return False


def has_return(n):
    return any(isinstance(x, ast.Return) for b in ([n] if not isinstance(n, list) else n) for x in walk_scope(b))


def walk_scope(n):
    yield n
    if isinstance(n, SCOPE):
        return
    for c in ast.iter_child_nodes(n):
        yield from walk_scope(c)


class Strings(ast.NodeTransformer):
    """`"..{}..".format(a)` and `"..." + str(a)` written as the f-string they equal."""

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if not (isinstance(f, ast.Attribute) and f.attr == "format" and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str)):
            return n
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return n
        kw = {k.arg: k.value for k in n.keywords}
        out, auto = [], 0
        try:
            for lit, name, spec, conv in string.Formatter().parse(f.value.value):
                if lit:
                    out.append(ast.copy_location(ast.Constant(lit), n))
                if name is None:
                    continue
                if spec or conv:
                    return n
                if name == "":
                    v, auto = n.args[auto], auto + 1
                elif name.isdigit():
                    v = n.args[int(name)]
                else:
                    v = kw[name]
                out.append(ast.copy_location(ast.FormattedValue(copy.deepcopy(v), -1, None), n))
        except (ValueError, IndexError, KeyError):
            return n
        return ast.copy_location(ast.JoinedStr(out), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if not isinstance(n.op, ast.Add):
            return n
        parts = [self.part(n.left), self.part(n.right)]
        if None in parts or not any(isinstance(x, (ast.Constant, ast.JoinedStr)) for x in (n.left, n.right)):
            return n
        if not any(isinstance(x, ast.FormattedValue) for q in parts for x in q):
            return n
        out = []
        for x in [*parts[0], *parts[1]]:
            if out and isinstance(x, ast.Constant) and isinstance(out[-1], ast.Constant):
                out[-1] = ast.copy_location(ast.Constant(out[-1].value + x.value), out[-1])
            else:
                out.append(x)
        return ast.copy_location(ast.JoinedStr(out), n)

    @staticmethod
    def part(e):
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            return [e]
        if isinstance(e, ast.JoinedStr):
            return e.values
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "str" and len(e.args) == 1 and not e.keywords and not isinstance(e.args[0], ast.Starred):
            return [ast.copy_location(ast.FormattedValue(e.args[0], -1, None), e)]
        return None


PLAIN = ("dataclasses", "abc", "typing", "functools", "contextlib", "enum", "collections", "collections.abc")


def plain_imports(tree):
    """Decorators and other names of the language's own modules under their own names."""
    taken = every_name(tree)
    bound = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)} | {n.arg for n in ast.walk(tree) if isinstance(n, ast.arg)}
    back = {}
    for s in tree.body:
        if isinstance(s, ast.ImportFrom) and s.level == 0 and s.module in PLAIN:
            for a in s.names:
                if a.asname and a.asname != a.name and a.name not in taken and a.asname not in back and a.asname not in bound:
                    back[a.asname] = a.name
                    a.asname = None
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and n.id in back:
            n.id = back[n.id]
    # `import dataclasses` and `dataclasses.dataclass`
    for s in tree.body:
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.name in PLAIN and a.asname and a.name.count(".") == 0 and a.name not in taken and a.asname not in bound:
                    for n in ast.walk(tree):
                        if isinstance(n, ast.Name) and n.id == a.asname:
                            n.id = a.name
                    a.asname = None


class Stay(Exception):
    """The call cannot be put back exactly."""


def settle(b, put):
    """The statements with `return e` replaced by `put(e)`, control flowing on after them."""
    out = []
    for i, s in enumerate(b):
        rest = b[i + 1 :]
        if isinstance(s, ast.Return):
            return out + put(s.value, s)
        if not has_return(s):
            out.append(s)
            if isinstance(s, ast.Raise):
                return out
            continue
        if isinstance(s, ast.If):
            one, two = list(s.body), list(s.orelse)
            if not ends(one):
                one += copy.deepcopy(rest) if not ends(two) else rest
            if not ends(two):
                two += rest
            n = copy.copy(s)
            n.body, n.orelse = settle(one, put) or [ast.copy_location(ast.Pass(), s)], settle(two, put)
            return [*out, n]
        if isinstance(s, ast.With) and (not rest or ends(s.body)):
            n = copy.copy(s)
            n.body = settle(s.body, put)
            return [*out, n]
        if isinstance(s, ast.Try) and not has_return(s.finalbody):
            # what follows must not move under the handlers
            paths = [s.orelse or s.body, *[h.body for h in s.handlers]]
            if rest and not all(ends(q) for q in paths):
                raise Stay
            if s.orelse and has_return(s.body):
                raise Stay
            n = copy.copy(s)
            n.body = settle(s.body, put) if has_return(s.body) or not s.orelse else s.body
            n.orelse = settle(s.orelse, put) if s.orelse else []
            n.handlers = []
            for h in s.handlers:
                k = copy.copy(h)
                k.body = settle(h.body, put) or [ast.copy_location(ast.Pass(), h)]
                n.handlers.append(k)
            return [*out, n]
        if isinstance(s, (ast.For, ast.While)) and not breaks(s.body):
            # leaving the function from the loop is leaving the loop, past its else
            n = copy.copy(s)
            n.body = leave(s.body, put)
            n.orelse = settle([*s.orelse, *rest], put)
            return [*out, n]
        raise Stay
    return out + put(None, None)


def breaks(b):
    """Does a statement of this loop body leave the loop?"""
    for s in b:
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, SCOPE):
            continue
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            if breaks(s.orelse):
                return True
            continue
        for f in ("body", "orelse", "finalbody"):
            if breaks(getattr(s, f, None) or []):
                return True
        if any(breaks(h.body) for h in getattr(s, "handlers", [])):
            return True
    return False


def leave(b, put):
    """A loop body with `return e` replaced by `put(e)` and a break."""
    out = []
    for s in b:
        if isinstance(s, ast.Return):
            return [*out, *put(s.value, s), ast.copy_location(ast.Break(), s)]
        if has_return(s):
            if isinstance(s, (ast.For, ast.While)) or isinstance(s, ast.Try) and has_return(s.finalbody):
                raise Stay
            if isinstance(s, ast.Try):
                raise Stay  # a failure to hand the value over would be handled
            s = copy.copy(s)
            for f in ("body", "orelse"):
                if getattr(s, f, None):
                    setattr(s, f, leave(getattr(s, f), put))
        out.append(s)
    return out


class Rename(ast.NodeTransformer):
    """Names of the helper's scope replaced by what they stand for at the call."""

    def __init__(self, subst, rename):
        self.subst, self.rename = subst, rename

    def visit_Name(self, n):
        if n.id in self.subst and isinstance(n.ctx, ast.Load):
            e = copy.deepcopy(self.subst[n.id])
            return e
        if n.id in self.rename:
            n.id = self.rename[n.id]
        return n

    def visit_ExceptHandler(self, n):
        if n.name in self.rename:
            n.name = self.rename[n.name]
        return self.generic_visit(n)

    def visit_FunctionDef(self, n):
        if n.name in self.rename:
            n.name = self.rename[n.name]
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        return self.nested(n, set(argnames(n.args)) | stored(n))

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        return self.nested(n, set(argnames(n.args)))

    def nested(self, n, bound):
        """A scope whose own names hide the ones being replaced."""
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [d and self.visit(d) for d in n.args.kw_defaults]
        inner = Rename({k: v for k, v in self.subst.items() if k not in bound}, {k: v for k, v in self.rename.items() if k not in bound})
        n.body = [inner.visit(s) for s in n.body] if isinstance(n.body, list) else inner.visit(n.body)
        return n


class Helper:
    def __init__(self, fn, cls):
        self.fn, self.cls = fn, cls
        deco = [ast.unparse(d) for d in fn.decorator_list]
        self.kind = "function" if cls is None else "static" if deco == ["staticmethod"] else "class" if deco == ["classmethod"] else "property" if deco == ["property"] else "method"
        self.ok = self.fit(deco)
        b = body_of(fn)
        self.expr = b[0].value if len(b) == 1 and isinstance(b[0], ast.Return) and b[0].value is not None else None
        self.calls = 0  # expanded
        self.left = 0  # still there

    def fit(self, deco):
        fn, a = self.fn, self.fn.args
        if isinstance(fn, ast.AsyncFunctionDef) or a.vararg or a.kwarg:
            return False
        if deco and deco not in (["staticmethod"], ["classmethod"], ["property"]) or (deco and self.cls is None):
            return False
        if fn.name.startswith("__"):
            return False
        if self.kind in ("method", "class", "property") and not (a.posonlyargs + a.args):
            return False
        if any(not simple(d) for d in [*a.defaults, *[k for k in a.kw_defaults if k]]):
            return False
        for n in own(fn):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal, ast.AsyncFor, ast.AsyncWith, ast.NamedExpr, ast.Match)):
                return False
            if isinstance(n, ast.Name) and n.id in ("super", "__class__", "locals"):
                return False
            if isinstance(n, ast.ClassDef):
                return False
        if any(isinstance(x, (ast.Nonlocal, ast.Global)) for x in ast.walk(fn)):
            return False
        return True

    def bind(self, call, recv):
        a = self.fn.args
        ps = [x.arg for x in (*a.posonlyargs, *a.args)]
        got = {}
        args = list(call.args)
        if recv is not None:
            args = [recv, *args]
        if any(isinstance(x, ast.Starred) for x in args) or any(k.arg is None for k in call.keywords) or len(args) > len(ps):
            raise Stay
        for p, v in zip(ps, args):
            got[p] = v
        for k in call.keywords:
            if k.arg in got:
                raise Stay
            got[k.arg] = k.value
        for p, d in zip(ps[len(ps) - len(a.defaults) :], a.defaults):
            got.setdefault(p, d)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                got.setdefault(p.arg, d)
        if set(got) != set(argnames(a)):
            raise Stay
        return got


class Inliner:
    def __init__(self, trees):
        self.trees = trees  # module name -> tree
        with open(KNOWN, encoding="utf-8") as f:
            lines = f.read().split()
        self.known = {x.split("=")[0] for x in lines}
        self.prints = {}
        for x in lines:
            q, h = x.split("=")
            if h == "-":
                continue
            self.prints.setdefault(q, set()).add(h)
        self.copies = 0
        self.spent = []  # helpers expanded at least once
        self.done = []  # what was put back where

    def renamed(self):
        """Functions that only have another name get the one the rules know back."""
        new = {}
        for name, tree in self.trees.items():
            here = {}
            for fn, cls in top_defs(tree):
                here.setdefault((cls.name if cls else "", fn.name), []).append(fn)
            for (c, n), fns in here.items():
                q = f"{name}:{c + '.' if c else ''}{n}"
                if q in self.known or n.startswith("__"):
                    continue
                like = [k for k in self.prints if k.startswith(f"{name}:{c + '.' if c else ''}") and "." not in k.split(":")[1][len(c) + 1 if c else 0 :]]
                gone = [k for k in like if (c, k.split(":")[1].split(".")[-1]) not in here and print_of(fns[0]) in self.prints[k]]
                if len(gone) == 1:
                    new.setdefault(n, set()).add(gone[0].split(":")[1].split(".")[-1])
        back = {n: next(iter(o)) for n, o in new.items() if len(o) == 1}
        taken = {x.split(":")[1].split(".")[-1] for x in self.known}
        back = {n: o for n, o in back.items() if n not in taken and list(back.values()).count(o) == 1}
        if not back:
            return
        for tree in self.trees.values():
            for n in ast.walk(tree):
                for f in ("id", "attr", "name"):
                    if getattr(n, f, None) in back and not (f == "name" and isinstance(n, ast.ClassDef)):
                        setattr(n, f, back[getattr(n, f)])

    def run(self):
        self.renamed()
        fresh = {}
        for name, tree in self.trees.items():
            for fn, cls in top_defs(tree):
                q = f"{name}:{cls.name + '.' if cls else ''}{fn.name}"
                if q not in self.known:
                    fresh.setdefault(name, []).append((fn, cls))
        for name, tree in self.trees.items():
            if name not in fresh:
                for fn, cls in top_defs(tree):
                    q = f"{name}:{cls.name + '.' if cls else ''}{fn.name}"
                    if any(k.split("=")[0] not in self.known for k in nested_names(q, fn)):
                        fresh.setdefault(name, [])
        if not fresh:
            return self.done
        methods = {}
        for tree in self.trees.values():
            for fn, cls in top_defs(tree):
                if cls is not None:
                    methods.setdefault(fn.name, set()).add(cls.name)
        bases = {}
        for tree in self.trees.values():
            for c in ast.walk(tree):
                if isinstance(c, ast.ClassDef):
                    bases.setdefault(c.name, set()).update(ast.unparse(b).split("[")[0].split(".")[-1] for b in c.bases)

        def descends(c, k, seen=()):
            return any(b == k or b not in seen and descends(b, k, (*seen, b)) for b in bases.get(c, ()))

        for name, defs in fresh.items():
            tree = self.trees[name]
            hs = []
            for fn, cls in defs:
                h = Helper(fn, cls)
                if cls is not None and any(descends(c, cls.name) or descends(cls.name, c) for c in methods[fn.name] - {cls.name}):
                    h.ok = False
                if sum(1 for f, c in top_defs(tree) if f.name == fn.name and c is cls) > 1:
                    h.ok = False
                if any(isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == fn.name or isinstance(x.func, ast.Attribute) and x.func.attr == fn.name) for x in ast.walk(fn)):
                    h.ok = False
                if h.ok:
                    hs.append(h)
            self.module(name, tree, hs)
        more = True
        while more and self.spent:
            self.seen, more = self.mentions(), False
            for h, tree in list(self.spent):
                if not self.refers(h, tree):
                    self.drop(h, tree)
                    self.spent.remove((h, tree))
                    more = True
        return self.done

    # ------------------------------------------------------------- a module
    def module(self, name, tree, hs):
        self.name = name
        self.funcs = {h.fn.name: h for h in hs if h.cls is None}
        self.meths = {(h.cls.name, h.fn.name): h for h in hs if h.cls is not None}
        for _ in range(ROUNDS):
            before = self.copies
            for fn, cls in list(top_defs(tree)):
                self.scope(fn, cls, set())
            if self.copies == before:
                break
        # a helper with no reference left is read with its callers only
        self.spent += [(h, tree) for h in hs if h.fn.name.startswith("_") and h.calls]

    def mentions(self):
        """name -> where it is mentioned: (tree, kind, class around, function around)"""
        out = {}

        def walk(n, t, cls, fn):
            if isinstance(n, ast.Attribute):
                me = isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")
                out.setdefault(n.attr, []).append((t, "self" if me else "attr", cls, fn))
            elif isinstance(n, ast.Name):
                out.setdefault(n.id, []).append((t, "name", cls, fn))
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    out.setdefault(a.name, []).append((t, "import", cls, fn))
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                out.setdefault(n.value, []).append((t, "text", cls, fn))
            if isinstance(n, ast.ClassDef):
                cls = n
            if isinstance(n, FUNC) and fn is None:
                fn = n
            for c in ast.iter_child_nodes(n):
                walk(c, t, cls, fn)

        for t in self.trees.values():
            walk(t, t, None, None)
        return out

    def refers(self, h, tree):
        for t, kind, cls, fn in self.seen.get(h.fn.name, ()):
            if fn is h.fn:
                continue
            if kind == "text":
                return True
            if kind in ("name", "import") and h.cls is None and (kind == "import" or t is tree):
                return True
            if kind == "attr" and (t is tree or h.cls is None):
                return True
            if kind == "self" and h.cls is not None and cls is h.cls:
                return True
        return False

    def drop(self, h, tree):
        holders = [tree] if h.cls is None else [h.cls]
        for k in holders:
            for n in ast.walk(k):
                for f in ("body", "orelse", "finalbody"):
                    b = getattr(n, f, None)
                    if isinstance(b, list) and any(s is h.fn for s in b):
                        b[:] = [s for s in b if s is not h.fn] or [ast.copy_location(ast.Pass(), h.fn)]

    # -------------------------------------------------------------- a scope
    def closures(self, fn, q):
        """New functions inside a function that are only called there."""
        out = {}
        defs = [n for n in own(fn) if isinstance(n, FUNC)]
        binds = [n.id for n in own(fn) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)] + argnames(fn.args)
        for d in defs:
            if f"{q}/{d.name}" in self.known or sum(1 for x in defs if x.name == d.name) > 1 or d.name in binds or d.decorator_list:
                continue
            h = Helper(d, None)
            if h.ok and not any(isinstance(x, ast.Name) and x.id == d.name for x in ast.walk(d)):
                h.kind = "closure"
                out[d.name] = h
        return out

    def unused(self, fn, closures):
        """Closures without a reference left are gone."""
        for h in closures.values():
            if not h.calls:
                continue
            inside = {id(x) for x in ast.walk(h.fn)}
            if any(isinstance(x, ast.Name) and x.id == h.fn.name and id(x) not in inside for x in ast.walk(fn)):
                continue
            for n in [fn, *own(fn)]:
                for f in ("body", "orelse", "finalbody"):
                    b = getattr(n, f, None)
                    if isinstance(b, list) and any(s is h.fn for s in b):
                        b[:] = [s for s in b if s is not h.fn] or [ast.copy_location(ast.Pass(), h.fn)]

    def scope(self, fn, cls, outer):
        q = f"{self.name}:{cls.name + '.' if cls else ''}{fn.name}"
        taken = outer | set(argnames(fn.args)) | stored(fn)
        self.fn, self.cls, self.taken = fn, cls, taken
        self.me = next(iter(argnames(fn.args)), None) if cls is not None else None
        self.used = every_name(fn)
        self.imported = {(x.asname or x.name).split(".")[0] for n in ast.walk(fn) if isinstance(n, (ast.Import, ast.ImportFrom)) for x in n.names}
        self.local = self.closures(fn, q)
        fn.body = self.block(fn.body)
        self.unused(fn, self.local)
        self.inner(fn, cls, taken, q)

    def nested(self, fn, cls, outer, me):
        q = f"{self.q}/{fn.name}"
        taken = outer | set(argnames(fn.args)) | stored(fn)
        self.fn, self.cls, self.taken = fn, cls, taken
        self.me = me if me not in argnames(fn.args) else None
        self.used = every_name(fn) | outer
        self.local = self.closures(fn, q)
        fn.body = self.block(fn.body)
        self.unused(fn, self.local)
        self.inner(fn, cls, taken, q)

    def inner(self, fn, cls, taken, q):
        self.local = {}
        for n in list(own(fn)):
            if isinstance(n, FUNC):
                save = (self.fn, self.cls, self.taken, self.me, self.used)
                self.q = q
                self.nested(n, cls, taken, self.me)
                self.fn, self.cls, self.taken, self.me, self.used = save

    def helper(self, c):
        """The helper a call goes to, and the receiver it is bound to."""
        if isinstance(c, ast.Attribute) and isinstance(c.ctx, ast.Load) and isinstance(c.value, ast.Name) and self.cls is not None and c.value.id == self.me:
            h = self.meths.get((self.cls.name, c.attr))
            return (h, c.value) if h is not None and h.kind == "property" and h.fn is not self.fn else None
        if not isinstance(c, ast.Call):
            return None
        f = c.func
        if isinstance(f, ast.Name):
            if f.id in self.local:
                return (self.local[f.id], None)
            h = self.funcs.get(f.id)
            if h is None or f.id in self.taken or h.fn is self.fn:
                return None
            # names the helper takes from its module must not mean something else here
            return (h, None)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and self.cls is not None:
            h = self.meths.get((self.cls.name, f.attr))
            if h is None or h.fn is self.fn or h.kind == "property":
                return None
            if self.me is not None and f.value.id == self.me:
                return (h, None if h.kind == "static" else f.value)
            if f.value.id == self.cls.name and h.kind == "static":
                return (h, None)
        return None

    def free_clash(self, h):
        if h.kind == "closure":
            return set()  # same scope: the names mean the same
        mine = set(argnames(h.fn.args)) | stored(h.fn)
        bound = set()
        for n in ast.walk(h.fn):
            if isinstance(n, COMPS):
                bound |= {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            elif isinstance(n, (*FUNC, ast.Lambda)) and n is not h.fn:
                bound |= set(argnames(n.args)) | (stored(n) if isinstance(n, FUNC) else set())
        free = {n.id for s in h.fn.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} - mine - bound
        return free & self.taken

    def mark(self, nodes, k):
        for s in nodes:
            for n in ast.walk(s):
                if hasattr(n, "col_offset"):
                    n.col_offset += 1000 * k

    # ------------------------------------------------------------ statements
    def block(self, b):
        out = []
        for s in b:
            out += self.stmt(s)
        return out

    def stmt(self, s):
        if isinstance(s, (*FUNC, ast.ClassDef)):
            return [s]
        pre = []
        # the call is the statement
        call = s.value if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Expr, ast.Return, ast.AugAssign)) else None
        if call is not None:
            hit = self.helper(call)
            if hit and hit[0].expr is None:
                try:
                    # arguments first: they may hold helpers themselves
                    for i, x in enumerate(call.args):
                        call.args[i] = self.expr(x, pre)
                    for k in call.keywords:
                        k.value = self.expr(k.value, pre)
                    return pre + self.splice(s, call, *hit)
                except Stay:
                    pass
        for f in ("value", "test", "iter", "exc", "target", "targets", "items", "msg"):
            v = getattr(s, f, None)
            if v is None or isinstance(s, ast.While) and f == "test" and False:
                continue
            if f in ("target", "targets") and isinstance(s, (ast.For,)):
                continue
            hoist = pre if not isinstance(s, ast.While) else None
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.withitem):
                        x.context_expr = self.expr(x.context_expr, hoist if i == 0 else None)
                    else:
                        v[i] = self.expr(x, hoist)
            elif isinstance(v, ast.expr):
                setattr(s, f, self.expr(v, hoist))
        for f in ("body", "orelse", "finalbody"):
            v = getattr(s, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(s, f, self.block(v))
        for h in getattr(s, "handlers", []):
            h.body = self.block(h.body)
        for c in getattr(s, "cases", []):
            c.body = self.block(c.body)
        return [*pre, s]

    def prepare(self, h, call, recv):
        """(statements binding the parameters, substituted names, renamed names)"""
        got = h.bind(call, recv)
        self.used |= every_name(h.fn) - set(argnames(h.fn.args)) - stored(h.fn)
        avoid = self.used | every_name(h.fn)
        if self.free_clash(h):
            raise Stay
        mine = stored(h.fn)
        params = argnames(h.fn.args)
        counts = {p: 0 for p in params}
        deep = set()
        for st in body_of(h.fn):
            for n in ast.walk(st):
                if isinstance(n, ast.Name) and n.id in counts:
                    counts[n.id] += 1
                if isinstance(n, (*COMPS, ast.Lambda, *FUNC, ast.For, ast.While)):
                    deep |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
        subst, rename, lets = {}, {}, []

        def fresh(n):
            k = n
            i = 2
            while k in avoid or k in self.used:
                k = f"{n}_{i}"
                i += 1
            self.used.add(k)
            self.taken.add(k)
            return k

        imported = {(x.asname or x.name).split(".")[0] for n in own(h.fn) if isinstance(n, (ast.Import, ast.ImportFrom)) for x in n.names}
        for p in params:
            v = got[p]
            if p in mine:
                # rebound inside: a variable of its own
                if isinstance(v, ast.Name) and v.id == p and not self.live_after(p):
                    continue
                rename[p] = fresh(p)
                lets.append((rename[p], v))
            elif isinstance(v, ast.Name) and v.id == p:
                continue
            elif simple(v):
                if isinstance(v, ast.Name) or isinstance(v, ast.Constant) or counts[p] <= 1:
                    subst[p] = v
                else:
                    subst[p] = v
            elif counts[p] == 0 and not any(isinstance(x, ast.Call) for x in ast.walk(v)):
                continue
            elif counts[p] == 1 and p not in deep and h.expr is not None:
                subst[p] = v
            else:
                rename[p] = fresh(p)
                lets.append((rename[p], v))
        for n in mine - set(params):
            if n in self.used:
                if n in imported:
                    if n in self.taken and n not in self.imported:
                        raise Stay
                    continue
                rename[n] = fresh(n)
            else:
                self.used.add(n)
                self.taken.add(n)
        # names bound by comprehensions and lambdas must not capture what is put in
        outside = {x.id for v in subst.values() for x in ast.walk(v) if isinstance(x, ast.Name)}
        for st in body_of(h.fn):
            for n in ast.walk(st):
                bound = set()
                if isinstance(n, COMPS):
                    bound = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                elif isinstance(n, ast.Lambda):
                    bound = set(argnames(n.args))
                elif isinstance(n, FUNC):
                    bound = set(argnames(n.args)) | stored(n)
                if isinstance(n, COMPS):
                    for b in bound & (outside | set(rename)):
                        if b in outside:
                            rename.setdefault(b, fresh(b))
                elif bound & outside:
                    raise Stay
        return lets, subst, rename

    def live_after(self, p):
        return True

    def copied(self, nodes, subst, rename):
        self.copies += 1
        nodes = copy.deepcopy(nodes)
        self.mark(nodes, self.copies)
        r = Rename(subst, rename)
        return [r.visit(n) for n in nodes]

    def splice(self, s, call, h, recv):
        rename_keep = (set(self.used), set(self.taken))
        try:
            lets, subst, rename = self.prepare(h, call, recv)
            body = body_of(h.fn)
            if isinstance(s, ast.Return):
                out = self.copied(body, subst, rename)
                if not ends(out):
                    out.append(ast.copy_location(ast.Return(None), s))
            else:

                def put(v, at):
                    if v is None:
                        v = ast.copy_location(ast.Constant(None), at or s)
                    if isinstance(s, ast.Expr):
                        if isinstance(v, (ast.Constant, ast.Name)):
                            return []
                        return [ast.copy_location(ast.Expr(v), at or s)]
                    n = copy.copy(s)
                    if hasattr(s, "targets"):
                        n.targets = copy.deepcopy(s.targets)
                    elif hasattr(s, "target"):
                        n.target = copy.deepcopy(s.target)
                    n.value = v
                    return [n]

                out = settle(self.copied(body, subst, rename), put)
        except Stay:
            self.used, self.taken = rename_keep
            raise
        pre = [ast.copy_location(ast.Assign([ast.copy_location(ast.Name(n, ast.Store()), call)], v), call) for n, v in lets]
        h.calls += 1
        self.done.append((self.name, h.fn.name, call.lineno))
        return [*pre, *out] or [ast.copy_location(ast.Pass(), s)]

    # ----------------------------------------------------------- expressions
    def expr(self, e, pre):
        """`e` with helper calls put back; `pre` takes statements to run before it."""
        if not isinstance(e, ast.AST):
            return e
        if isinstance(e, ast.Lambda):
            e.body = self.expr(e.body, None)
            return e
        if isinstance(e, (ast.BoolOp,)):
            e.values = [self.expr(v, pre if i == 0 else None) for i, v in enumerate(e.values)]
            return e
        if isinstance(e, ast.IfExp):
            e.test = self.expr(e.test, pre)
            e.body, e.orelse = self.expr(e.body, None), self.expr(e.orelse, None)
            return e
        if isinstance(e, COMPS):
            # the first iterable is evaluated in place, the rest over and over
            for i, g in enumerate(e.generators):
                g.iter = self.expr(g.iter, pre if i == 0 and not isinstance(e, ast.GeneratorExp) else None)
                g.ifs = [self.expr(x, None) for x in g.ifs]
            for f in ("elt", "key", "value"):
                if getattr(e, f, None) is not None:
                    setattr(e, f, self.expr(getattr(e, f), None))
            return e
        for f, v in ast.iter_fields(e):
            if isinstance(v, ast.AST) and not isinstance(v, (ast.expr_context, ast.operator, ast.unaryop, ast.cmpop, ast.boolop)):
                setattr(e, f, self.expr(v, pre))
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST) and not isinstance(x, ast.cmpop):
                        v[i] = self.expr(x, pre)
        hit = self.helper(e)
        if not hit:
            return e
        h, recv = hit
        if h.kind == "property":
            e = ast.copy_location(ast.Call(e, [], []), e)
        keep = (set(self.used), set(self.taken))
        try:
            if h.expr is not None:
                lets, subst, rename = self.prepare(h, e, recv)
                if lets and pre is None:
                    raise Stay
                out = self.copied([h.expr], subst, rename)[0]
                for n, v in lets:
                    pre.append(ast.copy_location(ast.Assign([ast.copy_location(ast.Name(n, ast.Store()), e)], v), e))
                h.calls += 1
                self.done.append((self.name, h.fn.name, e.lineno))
                return out
            if pre is None:
                raise Stay
            i, t = 1, f"{h.fn.name}_result"
            while t in self.used:
                i += 1
                t = f"{h.fn.name}_result{i}"
            self.used.add(t)
            self.taken.add(t)
            s = ast.copy_location(ast.Assign([ast.copy_location(ast.Name(t, ast.Store()), e)], e), e)
            pre += self.splice(s, e, h, recv)
            return ast.copy_location(ast.Name(t, ast.Load()), e)
        except Stay:
            self.used, self.taken = keep
            return e


def put_back(trees):
    for t in trees.values():
        Strings().visit(t)
        plain_imports(t)
    return Inliner(trees).run()
