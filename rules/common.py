"""Shared lookups for the rule modules."""
from __future__ import annotations

import ast

from sa.project import FuncInfo, norm_repo_path


def owner_map(p):
    """id(node) -> (module, innermost FuncInfo|None) for every node of the package (cached on the project)."""
    om = getattr(p, "_owner_map", None)
    if om is not None:
        return om
    om = {}
    for m in p.modules.values():
        stack = [(m.tree, None)]
        while stack:
            n, f = stack.pop()
            om[id(n)] = (m, f)
            inner = f
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = p.node2func.get(id(n))
                if fi is not None:
                    inner = fi
                    # decorators and defaults belong outside
                    for d in (*n.decorator_list, *n.args.defaults, *[x for x in n.args.kw_defaults if x is not None]):
                        stack.append((d, f))
                    for c in n.body:
                        stack.append((c, inner))
                    stack.append((n.args, inner))
                    if n.returns is not None:
                        stack.append((n.returns, f))
                    continue
            for c in ast.iter_child_nodes(n):
                stack.append((c, inner))
    p._owner_map = om
    return om


def all_nodes(p, typ):
    """Every node of a type, with module and function: yields (node, module, func)."""
    om = owner_map(p)
    for m in p.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, typ):
                _, f = om.get(id(n), (m, None))
                yield n, m, f


def where(m, n):
    return f"{norm_repo_path(m.path)}:{getattr(n, 'lineno', 0)}"


def dotted_of(p, e, m, f):
    """Fully-qualified dotted name of a Name/Attribute expression, or None."""
    r = p.resolve_expr(e, m, f)
    if r is None:
        return None
    if r[0] == "ext":
        return r[1]
    if r[0] in ("func", "class"):
        return r[1].qual
    if r[0] == "mod":
        return r[1]
    if r[0] in ("modvar", "clsattr"):
        return f"{r[1]}.{r[2]}"
    return None


def qualname(m, f):
    return f.qual if f is not None else m.name + ".<module>"


def enclosing(f):
    while f is not None:
        yield f
        f = f.parent


def call_graph(p):
    """func qual -> set of func quals it may call: direct names, imported names, methods by name on
    project classes (class-hierarchy by method name), constructors, nested defs."""
    cg = getattr(p, "_call_graph", None)
    if cg is not None:
        return cg
    by_method = {}
    for c in p.classes.values():
        for n, fi in c.methods.items():
            by_method.setdefault(n, set()).add(fi.qual)
    cg = {}
    for n, m, f in all_nodes(p, (ast.Name, ast.Attribute)):
        q = qualname(m, f)
        s = cg.setdefault(q, set())
        r = p.resolve_expr(n, m, f) if not (isinstance(n, ast.Attribute) and not _simple(n)) else None
        if r is not None and r[0] == "func":
            s.add(r[1].qual)
        elif r is not None and r[0] == "class":
            for nm in ("__init__", "__post_init__", "__new__"):
                mm = p.find_method(r[1], nm)
                if mm is not None:
                    s.add(mm.qual)
        elif isinstance(n, ast.Attribute) and (r is None or r[0] not in ("ext", "mod")) and n.attr in by_method:
            s |= by_method[n.attr]
    for fi in p.functions.values():
        if fi.parent is not None:
            cg.setdefault(fi.parent.qual, set()).add(fi.qual)
    p._call_graph = cg
    return cg


def _simple(n):
    while isinstance(n, ast.Attribute):
        n = n.value
    return isinstance(n, ast.Name)


def reachable(p, roots):
    cg = call_graph(p)
    seen = set()
    todo = list(roots)
    while todo:
        q = todo.pop()
        if q in seen:
            continue
        seen.add(q)
        todo.extend(cg.get(q, ()))
    return seen


def strip_sites(t, _memo={}):
    """The term with call sites removed, so that equal expressions compare equal."""
    from sa.engine import T
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(strip_sites(x) for x in t)
        if isinstance(t, frozenset):
            return frozenset(strip_sites(x) for x in t)
        return t
    r = _memo.get(t)
    if r is not None:
        return r
    if t.k == "call":
        r = T("call", strip_sites(t.a[0]), tuple(strip_sites(x) for x in t.a[1]), tuple((k, strip_sites(v)) for k, v in t.a[2]), 0)
    elif t.k in ("const", "param", "new", "closure"):
        r = t
    else:
        r = T(t.k, *[strip_sites(x) for x in t.a])
    _memo[t] = r
    return r


# ------------------------------------------------------------------ primitives and their implementations
def primitives(p):
    """dotted name of the module variable (mplang.dialects.tensor.run_jax_p) -> (opcode, where)."""
    r = getattr(p, "_primitives", None)
    if r is not None:
        return r
    r = {}
    for m in p.modules.values():
        for n in m.tree.body:
            v = n.value if isinstance(n, (ast.Assign, ast.AnnAssign)) else None
            if not isinstance(v, ast.Call):
                continue
            fn = v.func.value if isinstance(v.func, ast.Subscript) else v.func
            name = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else None
            if name != "Primitive":
                continue
            a = v.args[0] if v.args else next((k.value for k in v.keywords if k.arg in ("name", "opcode")), None)
            if not isinstance(a, ast.Constant):
                continue
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, ast.Name):
                    r[f"{m.name}.{t.id}"] = (a.value, where(m, n), m, t.id)
    p._primitives = r
    return r


def prim_opcode(p, e, m, f=None):
    """The opcode of an expression that names a primitive (X_p, mod.X_p), or of its .name; else None."""
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.Attribute) and e.attr in ("name", "opcode"):
        q = dotted_of(p, e.value, m, f)
        if q in primitives(p):
            return primitives(p)[q][0]
    q = dotted_of(p, e, m, f)
    if q in primitives(p):
        return primitives(p)[q][0]
    return None


def impl_entries(p):
    """Every registration of an implementation: (opcode, FuncInfo|None, where, kind)."""
    r = getattr(p, "_impl_entries", None)
    if r is not None:
        return r
    r = []
    for f in p.functions.values():
        for d in getattr(f.node, "decorator_list", ()):
            if isinstance(d, ast.Attribute) and d.attr == "def_impl":
                c = prim_opcode(p, d.value, f.module, f.parent)
                if c:
                    r.append((c, f, where(f.module, f.node), "impl"))
            elif isinstance(d, ast.Call):
                nm = d.func.attr if isinstance(d.func, ast.Attribute) else d.func.id if isinstance(d.func, ast.Name) else ""
                if nm in ("def_impl", "register_impl") and d.args:
                    c = prim_opcode(p, d.args[0], f.module, f.parent)
                    if c:
                        r.append((c, f, where(f.module, f.node), "impl"))
    for n, m, f in all_nodes(p, ast.Call):
        nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
        if nm == "register_impl" and len(n.args) == 2:
            c = prim_opcode(p, n.args[0], m, f)
            t = p.resolve_expr(n.args[1], m, f)
            if c:
                r.append((c, t[1] if t and t[0] == "func" else None, where(m, n), "impl"))
        elif nm == "def_impl" and len(n.args) == 1 and isinstance(n.func, ast.Attribute):
            c = prim_opcode(p, n.func.value, m, f)
            t = p.resolve_expr(n.args[0], m, f)
            if c:
                r.append((c, t[1] if t and t[0] == "func" else None, where(m, n), "impl"))
    for m in p.modules.values():
        for n in m.tree.body:
            if not isinstance(n, (ast.Assign, ast.AnnAssign)) or not isinstance(n.value, ast.Dict):
                continue
            for k, v in zip(n.value.keys, n.value.values):
                if k is None:
                    continue
                c = prim_opcode(p, k, m)
                t = p.resolve_expr(v, m, None)
                if c and "." in c and t and t[0] == "func":
                    tgt = n.targets[0] if isinstance(n, ast.Assign) else n.target
                    r.append((c, t[1], where(m, v), f"{m.name}.{getattr(tgt, 'id', '?')}"))
    p._impl_entries = r
    return r


def impl_table(p):
    """opcode -> one implementing FuncInfo (worker handlers win over driver handlers)."""
    out = {}
    for c, f, _, kind in impl_entries(p):
        if f is not None and (c not in out or "worker" in kind):
            out[c] = f
    return out


def abstract(f):
    """A method that is only declared."""
    if any(d.rsplit(".", 1)[-1] == "abstractmethod" for d in f.deco_names()):
        return True
    if f.cls is not None and any(isinstance(b, (ast.Name, ast.Attribute, ast.Subscript)) and "Protocol" in ast.unparse(b) for b in f.cls.node.bases):
        return True
    return all(isinstance(s, (ast.Pass, ast.Raise)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and all(isinstance(t, ast.Name) for t in s.targets) for s in f.node.body)
