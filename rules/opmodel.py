"""The operations of the repository: where graph nodes of each opcode are created, with which attributes and operands,
what their abstract evaluation declares, and what their implementations read and return.

Creation and reading are found by abstract interpretation, so wrappers, dictionaries built step by step and extracted
helpers are followed.
"""
from __future__ import annotations

import ast

from rules.common import all_nodes, dotted_of, impl_entries, prim_opcode, primitives, where
from sa.engine import Client, Engine, T, V, C, one, split


def cval(t):
    """The Python value of a constant term."""
    return t.a[-1]


class Abstract:
    """Signature of an abstract_eval: types (positional operands) and attributes."""

    def __init__(self, fi):
        self.fi = fi
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        nd = len(a.defaults)
        self.default = dict(zip(pos[len(pos) - nd:], a.defaults)) if nd else {}
        self.pos = pos
        self.flat = bool(pos) and pos[0] == "in_types"
        self.var = a.vararg is not None
        self.kwonly = [x.arg for x in a.kwonlyargs]
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.default[x.arg] = d
        self.varkw = a.kwarg is not None

    def required(self, name):
        return name in self.kwonly + self.pos and name not in self.default

    def accepts(self, name):
        return name in self.kwonly or name in self.pos or self.varkw


class Creation:
    """One site creating nodes: attribute names supplied (None: unknown), operands (None: unknown), results."""

    def __init__(self, opcode, fi, where, kind):
        self.opcode, self.fi, self.where, self.kind = opcode, fi, where, kind
        self.attrs = None
        self.values = {}
        self.operands = None
        self.results = None


def definitions(p):
    """opcode -> {"abstract": FuncInfo, "trace": FuncInfo}."""
    r = getattr(p, "_op_defs", None)
    if r is not None:
        return r
    r = {}
    for f in list(p.functions.values()):
        for d in getattr(f.node, "decorator_list", ()):
            if isinstance(d, ast.Attribute) and d.attr in ("def_abstract_eval", "def_trace"):
                c = prim_opcode(p, d.value, f.module, f.parent)
                if c:
                    r.setdefault(c, {})[("abstract" if "abstract" in d.attr else "trace")] = f
    for n, m, f in all_nodes(p, ast.Call):
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("def_abstract_eval", "def_trace") and len(n.args) == 1:
            c = prim_opcode(p, n.func.value, m, f)
            t = p.resolve_expr(n.args[0], m, f) if isinstance(n.args[0], (ast.Name, ast.Attribute)) else None
            if c and t and t[0] == "func":
                r.setdefault(c, {})[("abstract" if "abstract" in n.func.attr else "trace")] = t[1]
    p._op_defs = r
    return r


def _prim_of(p, t):
    """opcode named by a term: the primitive variable itself, or its .name."""
    if t is None:
        return None
    if t.k == "const" and isinstance(cval(t), str):
        return cval(t)
    if t.k == "attr" and t.a[1] in ("name", "opcode"):
        t = t.a[0]
    if t.k == "modvar":
        q = f"{getattr(t.a[0], 'name', t.a[0])}.{t.a[1]}" if len(t.a) > 1 else str(t.a[0])
        e = primitives(p).get(q)
        return e[0] if e else None
    return None


def _dict_keys(st, v):
    """(names, values) of a dict value with known constant keys, else None."""
    t = one(v)
    if t is None:
        return None
    if t.k == "const" and cval(t) is None:
        return {}
    if t.k != "new" or any(s in ("*", "**") for s in st.slots(t)):
        return None
    out = {}
    for s, v in st.slots(t).items():
        if not (isinstance(s, tuple) and len(s) == 2 and s[0] == "k" and isinstance(s[1], str)):
            return None
        out[s[1]] = v
    return out


def _count(st, v):
    """Number of elements of a sequence value, when it is certain."""
    t = one(v)
    if t is None:
        return None
    if t.k == "tup":
        return None if any(x.k == "star" for x in t.a[0] if isinstance(x, T)) else len(t.a[0])
    if t.k == "const" and cval(t) in ((), None):
        return 0
    if t.k == "new" and t.a[0] in ("list", "tuple"):
        ks = list(st.slots(t))
        if any(s in ("*", "**") for s in ks):
            return None
        if all(isinstance(s, tuple) and s[0] == "i" for s in ks):
            return len(ks)
    return None


class _Creations(Client):
    max_depth = 5

    def __init__(self, p, out):
        self.p, self.out = p, out
        self.root = None

    def should_inline(self, it, fi, call):
        return fi.module is self.root.module and fi is not self.root and len(fi.node.body) < 25 if isinstance(fi.node.body, list) else False

    def on_call(self, it, call):
        p = self.p
        if call.name == "add_op":
            op = call.args[0] if call.args else call.kwargs.get("opcode")
            c = _prim_of(p, one(op)) if op else None
            if c is None:
                return None
            cr = Creation(c, it.frame.func or self.root, it.where(call.node), "add_op")
            ins = call.args[1] if len(call.args) > 1 else call.kwargs.get("inputs")
            outs = call.args[2] if len(call.args) > 2 else call.kwargs.get("output_types")
            at = call.args[3] if len(call.args) > 3 else call.kwargs.get("attrs")
            cr.operands = _count(call.st, ins) if ins is not None else 0
            cr.results = _count(call.st, outs) if outs is not None else None
            d = _dict_keys(call.st, at) if at is not None else {}
            cr.attrs, cr.values = (None, {}) if d is None else (set(d), d)
            self.out.append(cr)
            return None
        prim = None
        if call.name == "bind" and call.recv is not None:
            prim = one(call.recv)
        elif call.callee is not None and call.callee.k == "modvar":
            prim = call.callee
        c = _prim_of(p, prim) if prim is not None and prim.k == "modvar" else None
        if c is None:
            return None
        cr = Creation(c, it.frame.func or self.root, it.where(call.node), "bind")
        cr.operands = None if any(len(a) == 1 and one(a).k == "star" for a in call.args) else len(call.args)
        kw = dict(call.kwargs)
        unknown = "**" in kw
        kw.pop("**", None)
        cr.values = kw
        cr.attrs = None if unknown else set(kw)
        self.out.append(cr)
        return [(V(T("fresh", "op", c, it.where(call.node))), call.st)]


def creations(p, notes=None):
    r = getattr(p, "_op_creations", None)
    if r is not None:
        return r
    prims = primitives(p)
    roots = {}
    for n, m, f in all_nodes(p, ast.Call):
        if f is None or m.name.startswith(("mplang.edsl", "mplang.runtime")):
            continue    # generic machinery: the opcode is whatever the primitive or the received graph says
        hit = False
        if isinstance(n.func, ast.Attribute) and n.func.attr == "add_op":
            hit = True
        elif isinstance(n.func, ast.Attribute) and n.func.attr == "bind":
            hit = True
        elif isinstance(n.func, (ast.Name, ast.Attribute)) and dotted_of(p, n.func, m, f) in prims:
            hit = True
        if hit:
            t = f
            while t.parent is not None:
                t = t.parent
            roots[t.qual] = t
    out = []
    # functions a helper with an unresolved primitive is called from
    helpers = set()
    for q, f in sorted(roots.items()):
        n0 = len(out)
        cl = _Creations(p, out)
        cl.root = f
        try:
            Engine(p, cl).run(f)
        except Exception as e:  # budget
            if notes is not None:
                notes.append(f"{q}: creation sites not followed ({e})")
        if len(out) == n0:
            helpers.add(q)
    # callers of generic helpers (def _bind(prim, *a): return prim.bind(*a))
    if helpers:
        for n, m, f in all_nodes(p, ast.Call):
            if f is None:
                continue
            t = p.resolve_expr(n.func, m, f) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
            if t and t[0] == "func" and t[1].qual in helpers and not t[1].qual.startswith("mplang.edsl") and f.qual not in roots:
                g = f
                while g.parent is not None:
                    g = g.parent
                if g.qual in roots:
                    continue
                roots[g.qual] = g
                cl = _Creations(p, out)
                cl.root = g
                try:
                    Engine(p, cl).run(g)
                except Exception:
                    pass
    # one entry per site and attribute set
    seen, uniq = set(), []
    for c in out:
        k = (c.opcode, c.where, frozenset(c.attrs) if c.attrs is not None else None, c.operands, c.results)
        if k not in seen:
            seen.add(k)
            uniq.append(c)
    p._op_creations = uniq
    return uniq


# ------------------------------------------------------------------ implementations
class Impl:
    def __init__(self, opcode, fi, where, kind):
        self.opcode, self.fi, self.where, self.kind = opcode, fi, where, kind
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        self.params = pos[2:]
        nd = len(a.defaults)
        self.min = max(0, len(pos) - nd - 2)
        self.max = None if a.vararg else len(self.params)
        self.defaults = pos[len(pos) - nd:] if nd else []
        self.kwonly_required = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        self.required = {}    # attr -> where
        self.optional = {}    # attr -> [(default term, where)]
        self.whole = False    # the attribute dict is handed on as a whole
        self.returns = (set(), False)
        self.ret_states = None
        self.understood = False

    @property
    def ok(self):
        return self.fi is not None


class _Reads(Client):
    max_depth = 6

    def __init__(self, p, impl, missing=None):
        self.p, self.impl, self.missing = p, impl, missing
        pos = [x.arg for x in impl.fi.node.args.posonlyargs + impl.fi.node.args.args]
        self.op = T("param", ("root", impl.fi.qual), pos[1]) if len(pos) > 1 else None
        self.attrs = T("attr", self.op, "attrs") if self.op else None

    def should_inline(self, it, fi, call):
        if self.op is None or isinstance(fi.node.body, list) and len(fi.node.body) > 40:
            return False
        return any(t == self.op or t == self.attrs for v in list(call.args) + list(call.kwargs.values()) for t in v)

    def _guarded(self, it, st, key, node):
        for t, b in st.conds.items():
            if b and t.k == "cmp" and t.a[0] == "in" and t.a[1] == C(key) and t.a[2] == self.attrs:
                return True
        n = it.frame.func.node if it.frame.func else None
        if n is not None:
            for x in ast.walk(n):
                if isinstance(x, ast.Try) and x.handlers and any(y is node for s in x.body for y in ast.walk(s)):
                    return True
        return False

    def on_getitem(self, it, obj, idx, st, node, frame):
        o, i = one(obj), one(idx)
        if o is not None and o == self.attrs and i is not None and i.k == "const" and not isinstance(node, ast.Call):
            if self._guarded(it, st, cval(i), node):
                self.impl.optional.setdefault(cval(i), []).append((None, it.where(node)))
            else:
                self.impl.required.setdefault(cval(i), it.where(node))
        return None

    def on_call(self, it, call):
        r = one(call.recv) if call.recv is not None else None
        if r is not None and r == self.attrs and call.name in ("get", "pop") and call.args:
            k = one(call.args[0])
            if k is not None and k.k == "const":
                d = call.args[1] if len(call.args) > 1 else call.kwargs.get("default")
                self.impl.optional.setdefault(cval(k), []).append((one(d) if d is not None else C(None), it.where(call.node)))
                if self.missing == cval(k):
                    return [(d if d is not None else V(C(None)), call.st)]
        elif call.target is None:
            for v in list(call.args) + list(call.kwargs.values()):
                if any(t == self.attrs for t in v) and call.name not in ("len", "isinstance"):
                    self.impl.whole = True
        return None


def result_count(rets):
    """(counts that are certain, whether every return is understood): 0 nothing, n values, "1-tuple" a sequence of one."""
    out, known = set(), True

    def seq(n):
        if n is None:
            return None
        return "1-tuple" if n == 1 else n
    for v, st in rets:
        if not v:
            known = False
        for t in split(v):
            n = None
            if t.k == "const":
                n = 0 if cval(t) is None else 1
            elif t.k == "tup":
                n = None if any(isinstance(x, T) and x.k == "star" for x in t.a[0]) else seq(len(t.a[0]))
            elif t.k == "new":
                n = 1
                if t.a[0] in ("list", "tuple", "gen", "set"):
                    n = seq(_count(st, V(t)))
                    if n == 0:
                        n = None
                elif t.a[0] == "dict":
                    n = 1
            elif t.k == "call" and t.a[0].k == "class":
                n = 1
            elif t.k in ("bin", "fstr", "cmp"):
                n = 1
            if n is None:
                known = False
            else:
                out.add(n)
    return out, known


def implementations(p, notes=None):
    r = getattr(p, "_op_impls", None)
    if r is not None:
        return r
    out = []
    for c, f, w, kind in impl_entries(p):
        if f is None:
            if notes is not None:
                notes.append(f"{c}: implementation at {w} is not a function of the repository")
            continue
        im = Impl(c, f, w, kind)
        cl = _Reads(p, im)
        try:
            rets, _ = Engine(p, cl).run(f)
            im.returns = result_count(rets)
            im.ret_states = rets
            im.understood = True
            for k, v in list(im.optional.items()):
                if k not in im.required and all(d is not None and d == C(None) for d, _ in v):
                    scratch = Impl(c, f, w, kind)
                    r2, _ = Engine(p, _Reads(p, scratch, k)).run(f)
                    if not r2:
                        im.required[k] = v[0][1]
        except Exception as e:
            if notes is not None:
                notes.append(f"{f.qual}: not followed ({e})")
            im.ret_states = None
        out.append(im)
    p._op_impls = out
    return out


def loaded_modules(p):
    """Modules imported once the default backends are loaded (module-level imports are followed)."""
    roots = set()
    lb = [f for f in p.functions.values() if f.name == "load_builtins"]
    for f in lb:
        nodes = list(ast.walk(f.node))
        names = {n.id for n in nodes if isinstance(n, ast.Name)}
        for s in f.module.tree.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    if isinstance(t, ast.Name) and t.id in names:
                        nodes += list(ast.walk(s.value))
        for n in nodes:
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                v = n.value if n.value in p.modules else f.module.name + n.value if n.value.startswith(".") else f"{f.module.name}.{n.value}"
                if v in p.modules:
                    roots.add(v)
            elif isinstance(n, ast.ImportFrom) or isinstance(n, ast.Import):
                roots |= set(_imports(p, f.module, n))
    seen, todo = set(), list(roots)
    while todo:
        q = todo.pop()
        if q in seen or q not in p.modules:
            continue
        seen.add(q)
        m = p.modules[q]
        for s in _top(m.tree.body):
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                todo += _imports(p, m, s)
    return roots, seen


def _top(body):
    for s in body:
        yield s
        if isinstance(s, (ast.Try, ast.If, ast.With)):
            if isinstance(s, ast.If) and isinstance(s.test, ast.Name) and s.test.id == "TYPE_CHECKING":
                continue
            for part in ("body", "orelse", "finalbody"):
                yield from _top(getattr(s, part, []) or [])


def _imports(p, m, s):
    out = []
    if isinstance(s, ast.Import):
        out = [a.name for a in s.names]
    else:
        base = s.module or ""
        if s.level:
            pkg = m.name.split(".") if m.path.endswith("__init__.py") else m.name.split(".")[:-1]
            pkg = pkg[:len(pkg) - (s.level - 1)]
            base = ".".join(pkg + ([s.module] if s.module else []))
        out = [base] + [f"{base}.{a.name}" for a in s.names]
    return [x for x in out if x in p.modules]
