"""Interprocedural value-flow / typestate engine over Python syntax trees.

It abstractly evaluates a function's statements over *terms* (where a value
comes from), never over concrete inputs, and drives a client (the rule) with
events: calls, attribute/item writes, context managers, branch conditions,
returns and raises.  Calls that resolve to repository functions are followed
into their bodies (subject to the client's policy), so a rule sees the same
events whether or not code was moved into a helper.  Paths are joined by
intersecting their must-facts once a bound is exceeded, which is sound for
"on every path" rules.
"""
from __future__ import annotations

import ast
import builtins as _bi
from collections import OrderedDict

from .project import AnalysisBroken, ClassInfo, FuncInfo, Module, Project, norm_repo_path

# ---------------------------------------------------------------- terms


_NEVER_NONE = {"builtins." + n for n in ("list", "tuple", "set", "dict", "str", "int", "float", "bool", "bytes", "len", "sorted", "repr")}


class T:
    __slots__ = ("k", "a", "_h", "_key")
    _tab: dict = {}

    def __new__(cls, k, *a):
        key = (k, a)
        t = cls._tab.get(key)
        if t is None:
            t = object.__new__(cls)
            t.k = k
            t.a = a
            t._h = hash(key)
            t._key = None
            cls._tab[key] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


_SHOWN: dict = {}


def show(t, d=0):
    if d > 6:
        return "…"
    if isinstance(t, T):
        r = _SHOWN.get((t, d))
        if r is None:
            r = _SHOWN[(t, d)] = _show(t, d)
        return r
    return _show(t, d)


def _show(t, d):
    if not isinstance(t, T):
        if isinstance(t, (tuple, list)):
            return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        if isinstance(t, (set, frozenset)):
            return "{" + "|".join(sorted(show(x, d + 1) for x in t)) + "}"
        return repr(t)
    k, a = t.k, t.a
    if k == "const":
        return repr(a[1])
    if k == "param":
        return a[1]
    if k in ("ext", "func", "class", "mod"):
        return str(a[0])
    if k == "modvar":
        return f"{a[0]}.{a[1]}"
    if k == "attr":
        return f"{show(a[0], d + 1)}.{a[1]}"
    if k == "item":
        return f"{show(a[0], d + 1)}[{show(a[1], d + 1)}]"
    if k == "call":
        return f"{show(a[0], d + 1)}({', '.join([show(x, d + 1) for x in a[1]] + [f'{n}={show(v, d + 1)}' for n, v in a[2]])})"
    if k == "bound":
        return f"{show(a[0], d + 1)}.{a[1].rsplit('.', 1)[-1]}"
    if k == "cmp":
        return f"({show(a[1], d + 1)} {a[0]} {show(a[2], d + 1)})"
    if k == "bin":
        return f"({show(a[1], d + 1)} {a[0]} {show(a[2], d + 1)})"
    if k == "new":
        return f"<{a[0]}@{a[1][1] if isinstance(a[1], tuple) else a[1]}>"
    if k == "phi":
        return "{" + "|".join(sorted(show(x, d + 1) for x in a[0])) + "}"
    if k == "fstr":
        return "f" + show(a[0], d + 1)
    if k == "closure":
        return f"<fn {a[0]}>"
    return f"{k}({', '.join(show(x, d + 1) for x in a)})"


def C(v):
    return T("const", type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
EMPTY = frozenset()


def V(*ts):
    return frozenset(ts)


def one(v):
    if isinstance(v, T):
        return v
    if len(v) == 1:
        return next(iter(v))
    if not v:
        return T("bottom")
    return T("phi", frozenset(v))


VCAP = 16


def norm_value(v):
    out = set()
    for t in v:
        if t.k == "phi":
            out |= t.a[0]
        else:
            out.add(t)
    if len(out) > VCAP:
        return frozenset([T("phi", frozenset(out))])
    return frozenset(out)


def split(v):
    """All leaf alternatives of a value."""
    out = set()
    todo = list(v) if not isinstance(v, T) else [v]
    while todo:
        t = todo.pop()
        if t.k == "phi":
            todo.extend(t.a[0])
        else:
            out.add(t)
    return out


def subterms(x, seen=None):
    """All subterms of a term / value / tuple structure (no heap)."""
    if seen is None:
        seen = set()
    todo = [x]
    while todo:
        y = todo.pop()
        if isinstance(y, T):
            if y in seen:
                continue
            seen.add(y)
            if y.k not in ("const", "new", "param", "closure"):
                todo.extend(y.a)
        elif isinstance(y, (tuple, list, set, frozenset)):
            todo.extend(y)
    return seen


# ---------------------------------------------------------------- state


class St:
    __slots__ = ("env", "heap", "facts", "conds")

    def __init__(self, env=None, heap=None, facts=frozenset(), conds=None):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts
        self.conds = conds if conds is not None else {}

    def copy(self):
        return St(dict(self.env), dict(self.heap), self.facts, dict(self.conds))

    def with_fact(self, *f):
        s = self.copy()
        s.facts = s.facts | frozenset(f)
        return s

    def without(self, pred):
        s = self.copy()
        s.facts = frozenset(f for f in s.facts if not pred(f))
        return s

    def has(self, f):
        return f in self.facts

    def holds(self, term, truth=True):
        return self.conds.get(term) is truth

    # closure of dependencies through allocated containers / objects
    def deps(self, v):
        seen = set()
        todo = [v]
        idx = {}
        for (o, _s), val in self.heap.items():
            if o.k not in ("mod", "param", "class"):
                idx.setdefault(o, []).append(val)
        while todo:
            y = todo.pop()
            if isinstance(y, T):
                if y in seen:
                    continue
                seen.add(y)
                todo.extend(idx.get(y, ()))
                if y.k not in ("const", "param", "closure", "new"):
                    todo.extend(y.a)
            elif isinstance(y, (tuple, list, set, frozenset)):
                todo.extend(y)
        return seen

    def contents(self, obj, slot="*"):
        return self.heap.get((obj, slot), EMPTY)

    def slots(self, obj):
        return {s: v for (o, s), v in self.heap.items() if o is obj}


def merge_states(sts):
    a = sts[0].copy()
    for b in sts[1:]:
        for k, v in b.env.items():
            o = a.env.get(k)
            if o is None:
                a.env[k] = v
            elif o is not v:
                a.env[k] = norm_value(o | v)
        for k, v in b.heap.items():
            o = a.heap.get(k)
            if o is None:
                # slot absent on one side: for object attributes keep "unset" alternative implicit
                a.heap[k] = v
            elif o is not v:
                a.heap[k] = norm_value(o | v)
        a.facts = a.facts & b.facts
        a.conds = {k: t for k, t in a.conds.items() if b.conds.get(k) is t}
    return a


class Outcome:
    """kind: normal|ret|break|cont ; raises are collected on the engine's stack."""

    __slots__ = ("kind", "value", "st")

    def __init__(self, kind, st, value=None):
        self.kind = kind
        self.st = st
        self.value = value


class Frame:
    __slots__ = ("fid", "func", "parent", "module", "cls", "depth", "rets", "yields", "yield_cont", "selfterm", "caller", "site")

    def __init__(self, fid, func, parent, module, cls, depth, caller=None, site=None):
        self.fid = fid
        self.func = func
        self.parent = parent
        self.module = module
        self.cls = cls
        self.depth = depth
        self.yields = []
        self.yield_cont = None
        self.caller = caller
        self.site = site

    def chain(self):
        out = []
        f = self
        while f is not None:
            out.append(f.func.qual if f.func else "?")
            f = f.caller
        return list(reversed(out))


class Call:
    """A call event."""

    __slots__ = ("it", "node", "frame", "callee", "recv", "args", "kwargs", "st", "name", "ext", "target", "site", "cls", "star")

    def where(self):
        return f"{norm_repo_path(self.frame.module.path)}:{self.node.lineno}"

    def arg(self, i, name=None):
        if name is not None and name in self.kwargs:
            return self.kwargs[name]
        if i is not None and i < len(self.args):
            return self.args[i]
        return None

    def all_args(self):
        return list(self.args) + list(self.kwargs.values())

    def bind(self, fi=None):
        """Bind args to parameter names of the target (self excluded)."""
        fi = fi or self.target
        ps = fi.params
        if fi.cls is not None and not fi.is_static and ps and (self.recv is not None or True):
            ps = ps[1:]
        out = dict(zip(ps, self.args))
        out.update(self.kwargs)
        return out


class Client:
    max_depth = 7
    max_states = 24
    path_sensitive = False
    comp_facts = False            # record, per comprehension, the conditions under which each element value arises  # keep states apart that differ only in the conditions taken
    assume_nonempty_loops = False
    loop_conds = False            # iterations that differ only in the conditions taken are followed separately
    unroll_calls = False  # iterate enumerate/zip/range/reversed over literal sequences element by element
    orders = False  # keep the order of the parts a list display with starred parts is built from
    exact = False  # keep containers element by element (append, comprehensions, sets) where their size is known

    def should_inline(self, it, fi: FuncInfo, call: Call) -> bool:
        return True

    def on_call(self, it, call: Call):
        return None

    def after_call(self, it, call: Call, value, st):
        return st

    def quiet_call(self, it, call: Call) -> bool:
        """an uninterpreted call that cannot raise"""
        return False

    def known_type(self, it, t):
        """name of the builtin type of a term, when the client knows it"""
        return None

    def on_setattr(self, it, obj, attr, val, st, node, frame):
        return st

    def on_getattr(self, it, obj, attr, st, node, frame):
        return None

    def on_setitem(self, it, obj, idx, val, st, node, frame):
        return st

    def on_getitem(self, it, obj, idx, st, node, frame):
        return None

    def on_delitem(self, it, obj, idx, st, node, frame):
        return st

    def on_cond(self, it, term, truth, st, node, frame):
        return st

    def on_enter(self, it, v, st, node, frame):
        return st

    def on_exit(self, it, v, st, node, frame):
        return st

    def on_return(self, it, value, st, node, frame):
        return st

    def on_raise(self, it, exc, st, node, frame):
        return st

    def on_handler(self, it, exc, st, node, frame):
        return st

    def on_loop(self, it, kind, iterval, st, node, frame):
        return st

    def on_loop_exit(self, it, st, node, frame):
        return st

    def on_iter(self, it, st, node, frame):
        """start of one iteration of a loop statement"""
        return st

    def on_iter_end(self, it, st, node, frame, kind):
        """end of one iteration: kind is normal, cont or break"""
        return st


_BUILTIN_EXC = {n: getattr(_bi, n) for n in dir(_bi) if isinstance(getattr(_bi, n), type) and issubclass(getattr(_bi, n), BaseException)}

TYPE_OF_KIND = {"list": "list", "dict": "dict", "set": "set"}


class Engine:
    def __init__(self, project: Project, client: Client, step_budget: int = 400000):
        self.p = project
        self.c = client
        self.raise_stack = [[]]
        self.budget = step_budget
        self.stack = []  # inlined function quals
        self.param_types: dict = {}
        self.frame: Frame | None = None
        self._modvar_types: dict = {}
        self.inlined = set()
        self.nstmts = 0
        self._inexact = 0  # inside a loop that is not followed element by element

    # ---------------------------------------------------------- entry
    def run(self, fi: FuncInfo, args: dict | None = None, st: St | None = None, self_cls: ClassInfo | None = None, self_term: T | None = None):
        """Run a function as root.  Returns (returns:[(Value,St)], raises:[(T,St)])."""
        st = st.copy() if st is not None else St()
        fid = ("root", fi.qual)
        fr = Frame(fid, fi, None, fi.module, self_cls or fi.cls, 0)
        # closures analysed as roots: give the enclosing frames symbolic params
        if fi.parent is not None:
            fr.parent = self._symbolic_parent(fi.parent)
        args = dict(args or {})
        ps = fi.params
        if fi.cls is not None and ps and not fi.is_static and ps[0] not in args:
            t = self_term or T("param", fid, ps[0])
            cls = self_cls or fi.cls
            if fi.is_classmethod:
                args[ps[0]] = V(T("class", cls.qual))
            else:
                self.param_types[t] = cls
                args[ps[0]] = V(t)
        for p in fi.allparams:
            if p not in args:
                t = T("param", fid, p)
                args[p] = V(t)
                self._annot_type(t, fi, p)
        for k, v in args.items():
            st.env[(fid, k)] = v
        self.raise_stack.append([])
        rets = self._exec_func(fi, fr, st)
        raises = self.raise_stack.pop()
        return rets, raises

    def _symbolic_parent(self, fi):
        fid = ("root", fi.qual)
        fr = Frame(fid, fi, None, fi.module, fi.cls, 0)
        if fi.parent is not None:
            fr.parent = self._symbolic_parent(fi.parent)
        return fr

    def _annot_type(self, t, fi, p):
        a = fi.node.args
        for x in (*a.posonlyargs, *a.args, *a.kwonlyargs):
            if x.arg == p and x.annotation is not None:
                c = self.class_from_annotation(x.annotation, fi.module, fi)
                if c is not None:
                    self.param_types[t] = c

    def class_from_annotation(self, ann, module, func=None):
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            c = [self.class_from_annotation(x, module, func) for x in (ann.left, ann.right)]
            c = [x for x in c if x is not None]
            return c[0] if len(c) == 1 else None
        if isinstance(ann, ast.Subscript):
            base = self.p._dotted(ann.value)
            if base and base.split(".")[-1] in ("Optional", "ClassVar", "Annotated"):
                sl = ann.slice
                if isinstance(sl, ast.Tuple):
                    sl = sl.elts[0]
                return self.class_from_annotation(sl, module, func)
            if base and base.split(".")[-1] in ("type", "Type", "list", "List", "dict", "Dict", "Sequence", "Callable", "tuple", "set", "Iterable"):
                return None
            ann = ann.value
        r = self.p.resolve_expr(ann, module, func)
        if r and r[0] == "class":
            return r[1]
        return None

    # ---------------------------------------------------------- types
    def type_of(self, t: T, st: St | None = None) -> ClassInfo | None:
        if t in self.param_types:
            return self.param_types[t]
        if t.k == "new" and isinstance(t.a[0], str) and t.a[0].startswith("obj:"):
            return self.p.classes.get(t.a[0][4:])
        if t.k == "attr":
            bc = self.type_of(t.a[0], st)
            if bc is not None:
                return self.attr_type(bc, t.a[1])
        if t.k == "modvar":
            return self.modvar_type(t.a[0], t.a[1])
        if t.k == "call":
            cal = t.a[0]
            q = None
            if cal.k == "func":
                q = cal.a[0]
            elif cal.k == "bound":
                q = cal.a[1]
            if q is not None:
                fi = self.p.functions.get(q)
                if fi is not None and getattr(fi.node, "returns", None) is not None:
                    return self.class_from_annotation(fi.node.returns, fi.module, fi)
        if st is not None:
            for (ct, truth) in st.conds.items():
                if truth and ct.k == "isinst" and ct.a[0] is t and len(ct.a[1]) == 1:
                    q = ct.a[1][0]
                    if q in self.p.classes:
                        return self.p.classes[q]
        return None

    def modvar_type(self, mod, name):
        key = (mod, name)
        if key in self._modvar_types:
            return self._modvar_types[key]
        self._modvar_types[key] = None
        m = self.p.modules.get(mod)
        res = None
        if m is not None:
            for s in m.tree.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
                    res = self.class_from_annotation(s.annotation, m)
            if res is None:
                for v in m.assigns.get(name, []):
                    if isinstance(v, ast.Call):
                        r = self.p.resolve_expr(v.func, m)
                        if r and r[0] == "class":
                            res = r[1]
        self._modvar_types[key] = res
        return res

    def attr_type(self, cls: ClassInfo, attr: str, _seen=None) -> ClassInfo | None:
        key = ("attrtype", cls.qual, attr)
        if key in self._modvar_types:
            return self._modvar_types[key]
        self._modvar_types[key] = None
        res = None
        for k in self.p.mro(cls):
            for s in k.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == attr:
                    res = res or self.class_from_annotation(s.annotation, k.module)
            m = k.methods.get(attr)
            if m is not None and m.is_property and getattr(m.node, "returns", None) is not None:
                res = res or self.class_from_annotation(m.node.returns, k.module, m)
            for mth in k.methods.values():
                if not mth.params:
                    continue
                s0 = mth.params[0]
                for n in walk_own_cached(mth.node):
                    tgt = val = ann = None
                    if isinstance(n, ast.AnnAssign):
                        tgt, val, ann = n.target, n.value, n.annotation
                    elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                        tgt, val = n.targets[0], n.value
                    if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == s0 and tgt.attr == attr:
                        if ann is not None:
                            res = res or self.class_from_annotation(ann, k.module, mth)
                        if isinstance(val, ast.Call):
                            r = self.p.resolve_expr(val.func, k.module, mth)
                            if r and r[0] == "class":
                                res = res or r[1]
                        if isinstance(val, ast.Name) and val.id in mth.allparams:
                            a = mth.node.args
                            for x in (*a.posonlyargs, *a.args, *a.kwonlyargs):
                                if x.arg == val.id and x.annotation is not None:
                                    res = res or self.class_from_annotation(x.annotation, k.module, mth)
            if res is not None:
                break
        self._modvar_types[key] = res
        return res

    # ---------------------------------------------------------- utils
    def site(self, node):
        return (self.frame.module.name, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), self.frame.fid)

    def where(self, node, frame=None):
        fr = frame or self.frame
        return f"{norm_repo_path(fr.module.path)}:{getattr(node, 'lineno', 0)}"

    def add_raise(self, exc: T, st: St):
        lst = self.raise_stack[-1]
        # dedupe by (exc class, facts): merge the rest
        for i, (e, s) in enumerate(lst):
            if e is exc and s.facts == st.facts:
                if len(lst) > 8:
                    lst[i] = (e, merge_states([s, st]))
                    return
                if s.env == st.env and s.heap == st.heap:
                    return
        if len(lst) > 40:
            for i, (e, s) in enumerate(lst):
                if s.facts == st.facts:
                    lst[i] = (T("exc", ("?",), 0) if e is not exc else e, merge_states([s, st]))
                    return
        lst.append((exc, st))

    def reduce(self, sts):
        """Join equivalent states; bound the number of states."""
        if len(sts) <= 1:
            return sts
        groups = OrderedDict()
        for s in sts:
            groups.setdefault(s.facts, []).append(s)
        out = []
        for g in groups.values():
            uniq = []
            for s in g:
                for i, u in enumerate(uniq):
                    if u.env == s.env and u.heap == s.heap and (not self.c.path_sensitive or u.conds == s.conds):
                        uniq[i] = St(u.env, u.heap, u.facts, {k: t for k, t in u.conds.items() if s.conds.get(k) is t})
                        break
                else:
                    uniq.append(s)
            out.extend(uniq)
        if len(out) > self.c.max_states:
            out2 = []
            groups = OrderedDict()
            for s in out:
                groups.setdefault(s.facts, []).append(s)
            for g in groups.values():
                out2.append(merge_states(g) if len(g) > 1 else g[0])
            out = out2
            if len(out) > self.c.max_states:
                out = [merge_states(out)]
        return out

    # ---------------------------------------------------------- statements
    def exec_block(self, stmts, sts):
        """Returns list of Outcomes."""
        done = []
        cur = sts
        for s in stmts:
            if not cur:
                break
            nxt = []
            for st in cur:
                for o in self.exec_stmt(s, st):
                    if o.kind == "normal":
                        nxt.append(o.st)
                    else:
                        done.append(o)
            cur = self.reduce(nxt)
        return done + [Outcome("normal", st) for st in cur]

    def exec_stmt(self, s, st):
        self.budget -= 1
        self.nstmts += 1
        if self.budget < 0:
            raise AnalysisBroken(f"step budget exhausted in {self.frame.func.qual if self.frame.func else '?'}")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return [Outcome("normal", st)]
        return m(s, st)

    def s_Expr(self, s, st):
        if isinstance(s.value, (ast.Yield,)) and self.frame.yield_cont is not None:
            v = [(V(NONE), st)]
            if s.value.value is not None:
                v = self.eval(s.value.value, st)
            out = []
            for val, st2 in v:
                out.extend(self.frame.yield_cont(val, st2))
            return out
        return [Outcome("normal", st2) for _, st2 in self.eval(s.value, st)]

    def s_Pass(self, s, st):
        return [Outcome("normal", st)]

    def s_Global(self, s, st):
        return [Outcome("normal", st)]

    s_Nonlocal = s_Global

    def s_Import(self, s, st):
        st = st.copy()
        for k, dotted in self.p.imports_of_stmts(self.frame.module, s).items():
            if k == "*":
                continue
            st.env[(self.frame.fid, k)] = V(self.term_of_res(self.p.resolve_dotted(dotted), dotted))
        self.add_raise(T("exc", ("ImportError",), 0), st)
        return [Outcome("normal", st)]

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, st):
        st = st.copy()
        fi = self.p.node2func.get(id(s))
        st.env[(self.frame.fid, s.name)] = V(T("closure", fi.qual if fi else s.name, self.frame.fid))
        self._frames[self.frame.fid] = self.frame
        # decorators evaluated for events
        for d in s.decorator_list:
            for _, st2 in self.eval(d, st):
                st = st2
                break
        return [Outcome("normal", st)]

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st):
        st = st.copy()
        q = None
        for k in self.p.classes.values():
            if k.node is s:
                q = k.qual
        if q:
            st.env[(self.frame.fid, s.name)] = V(T("class", q))
        return [Outcome("normal", st)]

    _frames: dict = {}

    def s_Return(self, s, st):
        if s.value is None:
            vals = [(V(NONE), st)]
        else:
            vals = self.eval(s.value, st)
        out = []
        for v, st2 in vals:
            st3 = self.c.on_return(self, v, st2, s, self.frame)
            if st3 is not None:
                out.append(Outcome("ret", st3, v))
        return out

    def s_Break(self, s, st):
        return [Outcome("break", st)]

    def s_Continue(self, s, st):
        return [Outcome("cont", st)]

    def s_Raise(self, s, st):
        if s.exc is None:
            exc = None
            for k, v in st.env.items():
                if k == (self.frame.fid, "__exc__"):
                    exc = one(v)
            exc = exc or T("exc", ("?",), 0)
            st2 = self.c.on_raise(self, exc, st, s, self.frame)
            if st2 is not None:
                self.add_raise(exc, st2)
            return []
        for v, st2 in self.eval(s.exc, st):
            t = one(v)
            exc = self._exc_of(t)
            if s.cause is not None:
                for _, st2b in self.eval(s.cause, st2):
                    st2 = st2b
                    break
            st3 = self.c.on_raise(self, exc, st2, s, self.frame)
            if st3 is not None:
                self.add_raise(exc, st3)
        return []

    def _exc_of(self, t):
        if t.k == "exc":
            return t
        if t.k == "call":
            t = t.a[0]
        if t.k == "ext":
            return T("exc", (t.a[0].split(".")[-1],), 1)
        if t.k == "class":
            return T("exc", (t.a[0],), 1)
        if t.k == "new" and str(t.a[0]).startswith("obj:"):
            return T("exc", (t.a[0][4:],), 1)
        return T("exc", ("?",), 0)

    def s_Assert(self, s, st):
        out = []
        for truth, st2 in self.eval_cond(s.test, st):
            if truth:
                out.append(Outcome("normal", st2))
            else:
                exc = T("exc", ("AssertionError",), 1)
                st3 = self.c.on_raise(self, exc, st2, s, self.frame)
                if st3 is not None:
                    self.add_raise(exc, st3)
        return out

    def s_Assign(self, s, st):
        if isinstance(s.value, ast.Yield) and self.frame.yield_cont is not None:
            return self.s_Expr(ast.copy_location(ast.Expr(value=s.value), s), st)
        out = []
        for v, st2 in self.eval(s.value, st):
            sts = [st2]
            for t in s.targets:
                sts = [x for y in sts for x in self.assign(t, v, y, s)]
            out.extend(Outcome("normal", x) for x in sts)
        return out

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [Outcome("normal", st)]
        out = []
        for v, st2 in self.eval(s.value, st):
            if isinstance(s.target, ast.Name):
                c = self.class_from_annotation(s.annotation, self.frame.module, self.frame.func)
                if c is not None:
                    for t in v:
                        if t.k in ("call", "item", "attr", "elem", "dval") and self.type_of(t) is None:
                            self.param_types[t] = c
            for x in self.assign(s.target, v, st2, s):
                out.append(Outcome("normal", x))
        return out

    def s_AugAssign(self, s, st):
        load = ast.copy_location(_as_load(s.target), s.target)
        out = []
        for lv, st1 in self.eval(load, st):
            for rv, st2 in self.eval(s.value, st1):
                op = type(s.op).__name__
                # list += handled as extend
                if op == "Add" and len(lv) == 1 and one(lv).k == "new" and one(lv).a[0] == "list":
                    st3 = self.container_extend(one(lv), rv, st2)
                    val = lv
                else:
                    val = self.binop(op, lv, rv, s)
                    st3 = st2
                for x in self.assign(s.target, val, st3, s):
                    out.append(Outcome("normal", x))
        return out

    def s_Delete(self, s, st):
        sts = [st]
        for t in s.targets:
            nxt = []
            for x in sts:
                if isinstance(t, ast.Subscript):
                    for bv, x1 in self.eval(t.value, x):
                        for iv, x2 in self.eval(t.slice, x1):
                            y = self.c.on_delitem(self, bv, iv, x2, s, self.frame)
                            if y is not None:
                                nxt.append(y)
                elif isinstance(t, ast.Attribute):
                    for bv, x1 in self.eval(t.value, x):
                        y = self.c.on_setattr(self, bv, t.attr, EMPTY, x1, s, self.frame)
                        if y is not None:
                            y = y.copy()
                            if len(bv) == 1:
                                y.heap.pop((one(bv), ("a", t.attr)), None)
                            nxt.append(y)
                else:
                    y = x.copy()
                    if isinstance(t, ast.Name):
                        y.env.pop((self.frame.fid, t.id), None)
                    nxt.append(y)
            sts = nxt
        return [Outcome("normal", x) for x in sts]

    def s_If(self, s, st):
        t_sts, f_sts = [], []
        for truth, st2 in self.eval_cond(s.test, st):
            (t_sts if truth else f_sts).append(st2)
        out = []
        if t_sts:
            out += self.exec_block(s.body, self.reduce(t_sts))
        if f_sts:
            out += self.exec_block(s.orelse, self.reduce(f_sts)) if s.orelse else [Outcome("normal", x) for x in f_sts]
        return out

    def _sig(self, st):
        return (st.facts, frozenset(st.env.items()), frozenset(st.heap.items()), *((frozenset(st.conds.items()),) if self.c.loop_conds else ()))

    def s_For(self, s, st):
        out = []
        for iv, st1 in self.eval(s.iter, st):
            st1 = self.c.on_loop(self, "for", iv, st1, s, self.frame)
            if st1 is None:
                continue
            # unroll short literal sequences
            lit = self.literal_elems(iv, st1)
            if lit is not None:
                cur = [st1]
                brk = []
                for ev in lit:
                    nxt = []
                    for x in cur:
                        for y in self.assign(s.target, ev, x, s):
                            for o in self.exec_block(s.body, [y]):
                                if o.kind in ("normal", "cont"):
                                    nxt.append(o.st)
                                elif o.kind == "break":
                                    brk.append(o.st)
                                else:
                                    out.append(o)
                    cur = self.reduce(nxt)
                exits = []
                for x in cur:
                    if s.orelse:
                        for o in self.exec_block(s.orelse, [x]):
                            (exits.append(o.st) if o.kind == "normal" else out.append(o))
                    else:
                        exits.append(x)
                exits += brk
            else:
                exits = self._loop(s, lambda x: [z for y in self.assign(s.target, self.elem_of(iv, x), x, s) for z in [(True, y)]], st1, out, always_exit=True)
            for x in self.reduce(exits):
                y = self.c.on_loop_exit(self, x, s, self.frame)
                if y is not None:
                    out.append(Outcome("normal", y))
        return out

    s_AsyncFor = s_For

    def s_While(self, s, st):
        out = []
        st1 = self.c.on_loop(self, "while", EMPTY, st, s, self.frame)
        if st1 is None:
            return out
        exits = self._loop(s, lambda x: self.eval_cond(s.test, x), st1, out, always_exit=False)
        for x in self.reduce(exits):
            y = self.c.on_loop_exit(self, x, s, self.frame)
            if y is not None:
                out.append(Outcome("normal", y))
        return out

    def _loop(self, s, head, st, out, always_exit):
        self._inexact += 1
        try:
            return self._loop_body(s, head, st, out, always_exit)
        finally:
            self._inexact -= 1

    def _loop_body(self, s, head, st, out, always_exit):
        exits, brk = [], []
        seen, exited = set(), set()
        cur = [st]
        for _ in range(4):
            body_in = []
            for x in cur:
                sig = self._sig(x)
                if always_exit and sig not in exited and not (x is st and self.c.assume_nonempty_loops):
                    exited.add(sig)
                    exits.append(x)
                if sig in seen:
                    continue
                seen.add(sig)
                for truth, y in head(x):
                    if truth:
                        y = self.c.on_iter(self, y, s, self.frame)
                        if y is not None:
                            body_in.append(y)
                    else:
                        exits.append(y)
            if not body_in:
                break
            nxt = []
            for o in self.exec_block(s.body, self.reduce(body_in)):
                if o.kind in ("normal", "cont", "break"):
                    o.st = self.c.on_iter_end(self, o.st, s, self.frame, o.kind)
                if o.kind in ("normal", "cont"):
                    nxt.append(o.st)
                elif o.kind == "break":
                    brk.append(o.st)
                else:
                    out.append(o)
            cur = self.reduce(nxt)
        else:
            for x in cur:
                if always_exit:
                    exits.append(x)
                else:
                    for truth, y in head(x):
                        if not truth:
                            exits.append(y)
        res = []
        if s.orelse and exits:
            for o in self.exec_block(s.orelse, self.reduce(exits)):
                (res.append(o.st) if o.kind == "normal" else out.append(o))
        else:
            res = exits
        return res + brk

    def s_Try(self, s, st):
        self.raise_stack.append([])
        outs = self.exec_block(s.body, [st])
        normal = [o.st for o in outs if o.kind == "normal"]
        rest = [o for o in outs if o.kind != "normal"]
        raised = self.raise_stack.pop()
        # else clause: exceptions there are not handled by the handlers
        self.raise_stack.append([])
        if s.orelse and normal:
            o2 = self.exec_block(s.orelse, self.reduce(normal))
            normal = [o.st for o in o2 if o.kind == "normal"]
            rest += [o for o in o2 if o.kind != "normal"]
        # handlers
        pending = raised
        for h in s.handlers:
            names = self._handler_names(h)
            nxt = []
            for exc, est in pending:
                m = self._matches(exc, names)
                if m in ("yes", "maybe"):
                    hst = est.copy()
                    hst.env[(self.frame.fid, "__exc__")] = V(exc)
                    if h.name:
                        hst.env[(self.frame.fid, h.name)] = V(T("excvar", exc, (self.frame.module.name, h.lineno)))
                    hst = self.c.on_handler(self, exc, hst, h, self.frame)
                    if hst is not None:
                        for o in self.exec_block(h.body, [hst]):
                            (normal.append(o.st) if o.kind == "normal" else rest.append(o))
                if m in ("no", "maybe"):
                    nxt.append((exc, est))
            pending = nxt
        for exc, est in pending:
            self.add_raise(exc, est)
        escaped = self.raise_stack.pop()
        if not s.finalbody:
            for exc, est in escaped:
                self.add_raise(exc, est)
            return rest + [Outcome("normal", x) for x in self.reduce(normal)]
        out = []
        for x in self.reduce(normal):
            out += self.exec_block(s.finalbody, [x])
        for o in rest:
            for o2 in self.exec_block(s.finalbody, [o.st]):
                if o2.kind == "normal":
                    out.append(Outcome(o.kind, o2.st, o.value))
                else:
                    out.append(o2)
        for exc, est in escaped:
            for o2 in self.exec_block(s.finalbody, [est]):
                if o2.kind == "normal":
                    self.add_raise(exc, o2.st)
                else:
                    out.append(o2)
        return out

    s_TryStar = s_Try

    def _handler_names(self, h):
        if h.type is None:
            return None
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            r = self.p.resolve_expr(t, self.frame.module, self.frame.func)
            if r is None:
                out.append(ast.unparse(t).split(".")[-1])
            elif r[0] == "class":
                out.append(r[1].qual)
            elif r[0] == "ext":
                out.append(r[1].split(".")[-1])
            else:
                out.append(ast.unparse(t).split(".")[-1])
        return out

    def _exc_supers(self, name):
        if name in self.p.classes:
            out = set()
            for k in self.p.mro(self.p.classes[name]):
                out.add(k.qual)
                for b in k.base_exprs():
                    d = ast.unparse(b).split(".")[-1]
                    if d in _BUILTIN_EXC:
                        out |= {x.__name__ for x in _BUILTIN_EXC[d].__mro__}
            out.add("Exception")
            out.add("BaseException")
            return out
        if name in _BUILTIN_EXC:
            return {x.__name__ for x in _BUILTIN_EXC[name].__mro__}
        return {name, "Exception", "BaseException"}

    def _matches(self, exc, names):
        if names is None or "BaseException" in names:
            return "yes"
        n = exc.a[0][0] if exc.k == "exc" else "?"
        if n == "?":
            return "yes" if "Exception" in names else "maybe"
        sup = self._exc_supers(n)
        if any(h in sup for h in names):
            return "yes"
        # handler for a subclass of what may be raised
        for h in names:
            if n in self._exc_supers(h):
                return "maybe"
        return "no"

    def s_With(self, s, st):
        return self._with(s, list(s.items), st)

    s_AsyncWith = s_With

    def _with(self, s, items, st):
        if not items:
            return self.exec_block(s.body, [st])
        item = items[0]
        out = []
        # contextmanager-decorated repository function: interpret inline
        cm = self._ctxmgr_target(item.context_expr, st)
        if cm is not None:
            fi, call, st1 = cm
            return self._inline_ctxmgr(fi, call, item, items, s, st1)
        for v, st1 in self.eval(item.context_expr, st):
            st2 = self.c.on_enter(self, v, st1, item.context_expr, self.frame)
            if st2 is None:
                continue
            bound = v
            cls = None
            if len(v) == 1:
                cls = self.type_of(one(v), st2)
                ent = self.p.find_method(cls, "__enter__") if cls else None
                ex = self.p.find_method(cls, "__exit__") if cls else None
            else:
                ent = ex = None
            ents = [(v, st2)]
            if ent is not None and self._can_inline(ent):
                ents = self.inline(ent, [], {}, st2, item.context_expr, recv=v)
            for bound, st3 in ents:
                if item.optional_vars is not None:
                    sts = self.assign(item.optional_vars, bound, st3, s)
                else:
                    sts = [st3]
                for st4 in sts:
                    self.raise_stack.append([])
                    outs = self._with(s, items[1:], st4)
                    raised = self.raise_stack.pop()
                    for o in outs:
                        for x in self._do_exit(v, ex, o.st, item):
                            out.append(Outcome(o.kind, x, o.value))
                    suppress = any(isinstance(t, T) and t.k == "call" and t.a[0].k == "ext" and t.a[0].a[0] == "contextlib.suppress" for t in v)
                    for exc, est in raised:
                        for x in self._do_exit(v, ex, est, item):
                            if suppress:
                                out.append(Outcome("normal", x))
                            else:
                                self.add_raise(exc, x)
        return out

    def _do_exit(self, v, ex, st, item):
        y = self.c.on_exit(self, v, st, item.context_expr, self.frame)
        if y is None:
            return []
        if ex is not None and self._can_inline(ex):
            return [x for _, x in self.inline(ex, [V(T("exc", ("?",), 0))] * 3, {}, y, item.context_expr, recv=v)]
        return [y]

    def _ctxmgr_target(self, e, st):
        if not isinstance(e, ast.Call):
            return None
        r = self.p.resolve_expr(e.func, self.frame.module, self.frame.func)
        fi = None
        recv = None
        if r and r[0] == "func":
            fi = r[1]
        elif isinstance(e.func, ast.Attribute):
            vals = self.eval(e.func.value, st)
            if len(vals) == 1 and len(vals[0][0]) == 1:
                cls = self.type_of(one(vals[0][0]), st)
                if cls is not None:
                    m = self.p.find_method(cls, e.func.attr)
                    if m is not None:
                        fi, recv = m, vals[0][0]
        elif isinstance(e.func, ast.Name):
            v = st.env.get((self.frame.fid, e.func.id))
            if v and len(v) == 1 and one(v).k == "closure":
                fi = self.p.functions.get(one(v).a[0])
        if fi is None or not fi.is_ctxmgr or not self._can_inline(fi):
            return None
        # evaluate args
        args, kwargs, sts = self._eval_args(e, st)
        return fi, (recv, args, kwargs, e), sts

    def _inline_ctxmgr(self, fi, call, item, items, s, st):
        recv, args, kwargs, e = call
        outer = self.frame

        def cont(val, st2):
            gen = self.frame
            self.frame = outer
            try:
                sts = [st2]
                if item.optional_vars is not None:
                    sts = self.assign(item.optional_vars, val, st2, s)
                res = []
                for x in sts:
                    for o in self._with(s, items[1:], x):
                        if o.kind == "normal":
                            res.append(o)
                        else:
                            res.append(Outcome("outer:" + o.kind, o.st, o.value))
                return res
            finally:
                self.frame = gen

        outs = self._enter_inline(fi, args, kwargs, st, e, recv, yield_cont=cont, raw=True)
        res = []
        for o in outs:
            if o.kind.startswith("outer:"):
                res.append(Outcome(o.kind[6:], o.st, o.value))
            else:
                res.append(Outcome("normal", o.st))
        return res

    def s_Match(self, s, st):
        out = []
        for v, st1 in self.eval(s.subject, st):
            cur = [st1]
            for case in s.cases:
                nxt = []
                tsts = []
                for x in cur:
                    for truth, y in self._match_pat(case.pattern, v, x, s):
                        if truth and case.guard is not None:
                            for t2, z in self.eval_cond(case.guard, y):
                                (tsts if t2 else nxt).append(z)
                        else:
                            (tsts if truth else nxt).append(y)
                if tsts:
                    out += self.exec_block(case.body, self.reduce(tsts))
                cur = self.reduce(nxt)
            out += [Outcome("normal", x) for x in cur]
        return out

    def _match_pat(self, p, v, st, s):
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    st = st.copy()
                    st.env[(self.frame.fid, p.name)] = v
                return [(True, st)]
            r = []
            for truth, x in self._match_pat(p.pattern, v, st, s):
                if truth and p.name:
                    x = x.copy()
                    x.env[(self.frame.fid, p.name)] = v
                r.append((truth, x))
            return r
        if isinstance(p, ast.MatchValue):
            r = []
            for rv, x in self.eval(p.value, st):
                r += self.branch(T("cmp", "==", *sorted_pair(one(v), one(rv))), x, s)
            return r
        if isinstance(p, ast.MatchSingleton):
            return self.branch(T("cmp", "is", one(v), C(p.value)), st, s)
        if isinstance(p, ast.MatchOr):
            res, cur = [], [st]
            for q in p.patterns:
                nxt = []
                for x in cur:
                    for truth, y in self._match_pat(q, v, x, s):
                        (res.append((True, y)) if truth else nxt.append(y))
                cur = nxt
            return res + [(False, x) for x in cur]
        if isinstance(p, ast.MatchClass):
            q = self._typename(p.cls)
            r = self.branch(T("isinst", one(v), (q,)), st, s)
            for sub in [*p.patterns, *p.kwd_patterns]:
                for n in ast.walk(sub):
                    if isinstance(n, ast.MatchAs) and n.name:
                        for truth, x in r:
                            x.env[(self.frame.fid, n.name)] = V(T("attr", one(v), n.name))
            return r
        a, b = st.copy(), st.copy()
        for n in ast.walk(p):
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                a.env[(self.frame.fid, n.name)] = V(T("elem", one(v)))
        return [(True, a), (False, b)]

    # ---------------------------------------------------------- assign
    def assign(self, target, v, st, node):
        if isinstance(target, ast.Name):
            st = st.copy()
            fr = self._frame_of_name(target.id, store=True)
            if fr is None:
                st.heap[(T("mod", self.frame.module.name), ("a", target.id))] = v
                y = self.c.on_setattr(self, V(T("mod", self.frame.module.name)), target.id, v, st, node, self.frame)
                return [y] if y is not None else []
            st.env[(fr.fid, target.id)] = v
            return [st]
        if isinstance(target, (ast.Tuple, ast.List)):
            sts = [st]
            n = len(target.elts)
            star = any(isinstance(e, ast.Starred) for e in target.elts)
            for i, e in enumerate(target.elts):
                nxt = []
                for x in sts:
                    if isinstance(e, ast.Starred):
                        ev = V(T("rest", one(v), i))
                        nxt += self.assign(e.value, ev, x, node)
                        continue
                    ev = set()
                    for t in split(v):
                        if t.k == "tup" and len(t.a[0]) == n and not star:
                            ev |= split(t.a[0][i])
                        elif t.k == "new" and (t, ("i", i)) in x.heap:
                            ev |= x.heap[(t, ("i", i))]
                        elif t.k == "new" and (t, "*") in x.heap and t.a[0] in ("list", "gen", "set"):
                            ev |= x.heap[(t, "*")]
                        else:
                            ev.add(self.mk_item(t, C(i)))
                    nxt += self.assign(e, norm_value(ev), x, node)
                sts = nxt
            return sts
        if isinstance(target, ast.Attribute):
            out = []
            for bv, st1 in self.eval(target.value, st):
                st2 = st1.copy()
                props = []
                for b in bv:
                    cls = self.type_of(b, st1)
                    if cls is not None:
                        m = None
                        for k in self.p.mro(cls):
                            m = m or k.methods.get(target.attr + ".setter")
                        if m is not None and self._can_inline(m):
                            props.append((b, m))
                if props and len(bv) == 1:
                    for _, st3 in self.inline(props[0][1], [v], {}, st2, node, recv=bv):
                        out.append(st3)
                    continue
                if len(bv) == 1:
                    st2.heap[(one(bv), ("a", target.attr))] = v
                else:
                    for b in bv:
                        k = (b, ("a", target.attr))
                        st2.heap[k] = norm_value(v | st2.heap.get(k, V(T("attr", b, target.attr))))
                st3 = self.c.on_setattr(self, bv, target.attr, v, st2, node, self.frame)
                if st3 is not None:
                    out.append(st3)
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for bv, st1 in self.eval(target.value, st):
                for iv, st2 in self.eval(target.slice, st1):
                    st3 = st2.copy()
                    for b in bv:
                        self._store_item(b, iv, v, st3, strong=len(bv) == 1)
                    st4 = self.c.on_setitem(self, bv, iv, v, st3, node, self.frame)
                    if st4 is not None:
                        out.append(st4)
            return out
        if isinstance(target, ast.Starred):
            return self.assign(target.value, v, st, node)
        return [st]

    def _store_item(self, b, iv, v, st, strong=True):
        """Record an item store in the heap model (st is mutated)."""
        i = one(iv)
        if i.k == "const":
            slot = ("k", i.a[1])
            if b.k == "new" and b.a[0] == "list":
                slot = ("i", i.a[1])
            old = EMPTY if strong else st.heap.get((b, slot), EMPTY)
            st.heap[(b, slot)] = norm_value(old | v)
        else:
            st.heap[(b, "*")] = norm_value(st.heap.get((b, "*"), EMPTY) | v)
            if b.k == "new":
                st.heap[(b, "keys")] = norm_value(st.heap.get((b, "keys"), EMPTY) | iv)

    def _frame_of_name(self, name, store=False):
        fr = self.frame
        first = True
        while fr is not None:
            f = fr.func
            if f is None:
                return fr
            if name in f.locals() or (f is not None and isinstance(f.node, ast.Lambda) and name in f.allparams):
                return fr
            if first and store and not self._declared_nonlocal(f, name):
                return fr
            first = False
            fr = fr.parent
        return None

    def _declared_nonlocal(self, f, name):
        for n in walk_own_cached(f.node):
            if isinstance(n, (ast.Global, ast.Nonlocal)) and name in n.names:
                return True
        return False

    # ---------------------------------------------------------- conditions
    def eval_cond(self, e, st):
        """list of (truth, St)"""
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            res, cur = [], [st]
            for i, x in enumerate(e.values):
                last = i == len(e.values) - 1
                nxt = []
                for y in cur:
                    for truth, z in self.eval_cond(x, y):
                        if last:
                            res.append((truth, z))
                        elif truth is (not is_and):
                            res.append((truth, z))
                        else:
                            nxt.append(z)
                cur = nxt
            return self._reduce_tf(res)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not t, s) for t, s in self.eval_cond(e.operand, st)]
        if isinstance(e, ast.Constant):
            return [(bool(e.value), st)]
        if isinstance(e, ast.NamedExpr):
            out = []
            for v, s2 in self.eval(e.value, st):
                for s3 in self.assign(e.target, v, s2, e):
                    out += self._cond_on_value(v, s3, e, e.target)
            return out
        if isinstance(e, ast.Compare):
            if len(e.ops) == 1:
                return self._compare(e, st)
            # chain: a op b op c  ==  (a op b) and (b op c)
            parts = []
            left = e.left
            for op, r in zip(e.ops, e.comparators):
                parts.append(ast.copy_location(ast.Compare(left=left, ops=[op], comparators=[r]), e))
                left = r
            return self.eval_cond(ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), e), st)
        out = []
        for v, s2 in self.eval(e, st):
            out += self._cond_on_value(v, s2, e, e)
        return self._reduce_tf(out)

    def _reduce_tf(self, res):
        t = self.reduce([s for tr, s in res if tr])
        f = self.reduce([s for tr, s in res if not tr])
        return [(True, s) for s in t] + [(False, s) for s in f]

    def _cond_on_value(self, v, st, node, expr):
        out = []
        alts = split(v)
        per = {True: [], False: []}
        unknown = []
        for t in sorted(alts, key=show):
            tv = self.truth_of(t, st)
            if tv is None:
                unknown.append(t)
            else:
                per[tv].append(t)
        for tr in (True, False):
            keep = per[tr] + unknown
            if not keep:
                continue
            s2 = st.copy()
            if isinstance(expr, ast.Name):
                fr = self._frame_of_name(expr.id)
                if fr is not None and len(keep) < len(alts):
                    s2.env[(fr.fid, expr.id)] = norm_value(frozenset(keep))
            if unknown:
                if len(keep) == 1:
                    out += [(b, s) for b, s in self.branch(keep[0], s2, node) if b is tr]
                else:
                    out += [(b, s) for b, s in self.branch(T("phi", frozenset(keep)), s2, node) if b is tr]
            else:
                out.append((tr, s2))
        return out

    def truth_of(self, t, st):
        if t.k == "const":
            return bool(t.a[1])
        if t.k in ("func", "class", "mod", "closure", "bound"):
            return True
        if t.k == "tup":
            return bool(t.a[0])
        if t.k == "new" and str(t.a[0]).startswith("obj:"):
            cls = self.type_of(t)
            if cls is not None and not self.p.find_method(cls, "__bool__") and not self.p.find_method(cls, "__len__"):
                return True
        if t.k == "isinst":
            return self.fold_isinst(t.a[0], t.a[1], st)
        return None

    def fold_isinst(self, x, types, st):
        if x.k == "const":
            n = x.a[0]
            names = {y.split(".")[-1] for y in types}
            if n in names or (n == "bool" and "int" in names):
                return True
            if all(y.startswith("builtins.") for y in types):
                return False
            return None
        if x.k == "tup":
            if "builtins.tuple" in types:
                return True
            if all(y.startswith("builtins.") for y in types):
                return False
        if x.k == "new":
            k = x.a[0]
            if k in ("list", "dict", "set"):
                if "builtins." + k in types:
                    return True
                if all(y.startswith("builtins.") or y in self.p.classes for y in types):
                    return False
        kt = self.c.known_type(self, x)
        if kt is not None and all(y.startswith("builtins.") for y in types):
            return f"builtins.{kt}" in types or (kt == "bool" and "builtins.int" in types)
        cls = self.type_of(x) if x.k == "new" else None
        if cls is not None:
            quals = {k.qual for k in self.p.mro(cls)}
            if any(y in quals for y in types):
                return True
            if all(y in self.p.classes for y in types):
                return False
        return None

    def stable(self, t):
        """Terms whose truth cannot change between two tests in one activation."""
        for x in subterms(t):
            if x.k in ("attr", "item", "dval", "elem", "phi"):
                return False
        return True

    def branch(self, term, st, node):
        neg = False
        while term.k == "not":
            term = term.a[0]
            neg = not neg
        if term.k == "const":
            return [(bool(term.a[1]) ^ neg, st)]
        known = st.conds.get(term)
        out = []
        for truth in (True, False):
            if known is not None and known is not truth and self.stable(term):
                continue
            f = self.truth_of(term, st)
            if f is not None and f is not truth:
                continue
            s2 = st.copy()
            s2.conds[term] = truth
            s3 = self.c.on_cond(self, term, truth, s2, node, self.frame)
            if s3 is not None:
                out.append((truth ^ neg, s3))
        return out

    def _compare(self, e, st):
        out = []
        op = type(e.ops[0]).__name__
        for lv, s1 in self.eval(e.left, st):
            for rv, s2 in self.eval(e.comparators[0], s1):
                # enumerate left alternatives for narrowing
                lefts = sorted(split(lv), key=show)
                groups = {True: [], False: [], None: []}
                r = one(rv)
                for l in lefts:
                    t, pol = cmp_term(op, l, r)
                    f = self.fold_cmp(t, s2)
                    if f is None:
                        groups[None].append(l)
                    else:
                        groups[f is pol].append(l)
                for tr in (True, False):
                    keep = groups[tr] + groups[None]
                    if not keep:
                        continue
                    s3 = s2.copy()
                    if isinstance(e.left, ast.Name) and len(keep) < len(lefts):
                        fr = self._frame_of_name(e.left.id)
                        if fr is not None:
                            s3.env[(fr.fid, e.left.id)] = norm_value(frozenset(keep))
                    if groups[None]:
                        l = keep[0] if len(keep) == 1 else T("phi", frozenset(keep))
                        t, pol = cmp_term(op, l, r)
                        for b, s in self.branch(t, s3, e):
                            if (b is pol) is tr:
                                out.append((tr, s))
                    else:
                        out.append((tr, s3))
        return self._reduce_tf(out)

    def fold_cmp(self, t, st):
        if t.k == "const":
            return bool(t.a[1])
        op, l, r = t.a
        if op == "is":
            a, b = (l, r)
            if b is NONE or a is NONE:
                x = a if b is NONE else b
                if x is NONE:
                    return True
                if x.k in ("const", "new", "tup", "func", "class", "closure", "mod", "bound", "fstr", "isinst", "seg", "ext"):
                    return False
                if x.k == "call" and x.a[0].k == "ext" and x.a[0].a[0].split(".")[-1].startswith("from_"):
                    return False
                if x.k == "call" and x.a[0].k == "ext" and x.a[0].a[0] in _NEVER_NONE:
                    return False
                return None
            if a.k == "const" and b.k == "const":
                return a is b
            if a.k in ("func", "class") and b.k in ("func", "class"):
                return a is b
            return None
        if op == "==":
            if l.k == "const" and r.k == "const":
                try:
                    return l.a[1] == r.a[1]
                except Exception:
                    return None
            if (l.k == "const" and r.k in ("tup", "new", "func", "class")) or (r.k == "const" and l.k in ("tup", "new", "func", "class")):
                return False
            return None
        if op == "<":
            if l.k == "const" and r.k == "const":
                try:
                    return l.a[1] < r.a[1]
                except Exception:
                    return None
            return None
        if op == "in":
            if l.k == "const" and r.k == "tup" and all(isinstance(x, T) and x.k == "const" for x in r.a[0]):
                return any(x is l for x in r.a[0])
            if l.k == "const" and r.k == "const" and isinstance(r.a[1], str) and isinstance(l.a[1], str):
                return l.a[1] in r.a[1]
            if l.k == "const" and r.k == "new":
                return self.member(l, r, st)
        return None

    def closed_dict(self, b, st):
        """the constant keys of a dict all of whose keys are known, else None"""
        if b.k != "new" or b.a[0] != "dict":
            return None
        keys = set()
        for slot in st.slots(b):
            if isinstance(slot, tuple) and slot[0] == "k":
                keys.add(slot[1])
            else:
                return None
        return keys

    def member(self, l, r, st):
        keys = self.closed_dict(r, st)
        if keys is not None:
            return l.a[1] in keys
        if r.a[0] in ("list", "set"):
            vals = set()
            for slot, v in st.slots(r).items():
                if slot == "*" or (isinstance(slot, tuple) and slot[0] == "i"):
                    if slot == "*" and len(v) > 1 and r.a[0] == "list":
                        return None
                    vals |= split(v)
                else:
                    return None
            if vals and all(x.k == "const" for x in vals):
                return any(x is l for x in vals)
        return None

    # ---------------------------------------------------------- expressions
    def eval(self, e, st):
        """list of (Value, St)"""
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(V(T("unk", self.site(e))), st)]
        r = m(e, st)
        return r

    def _seq(self, exprs, st):
        """Evaluate in order: list of ([Value...], St)"""
        cur = [([], st)]
        for e in exprs:
            nxt = []
            for vs, s in cur:
                for v, s2 in self.eval(e, s):
                    nxt.append(([*vs, v], s2))
            cur = self._cap_seq(nxt)
        return cur

    def _cap_seq(self, lst):
        if len(lst) <= 8:
            return lst
        groups = OrderedDict()
        for vs, s in lst:
            groups.setdefault(s.facts, []).append((vs, s))
        out = []
        for g in groups.values():
            n = len(g[0][0])
            vs = [norm_value(frozenset().union(*[x[0][i] for x in g])) for i in range(n)]
            out.append((vs, merge_states([x[1] for x in g])))
        return out

    def e_Constant(self, e, st):
        try:
            return [(V(C(e.value)), st)]
        except TypeError:
            return [(V(T("unk", self.site(e))), st)]

    def e_Name(self, e, st):
        return [(self.load_name(e.id, st), st)]

    def load_name(self, name, st):
        fr = self.frame
        while fr is not None:
            k = (fr.fid, name)
            if k in st.env:
                return st.env[k]
            f = fr.func
            if f is not None and name in f.locals():
                if fr is not self.frame or name in f.allparams:
                    # enclosing function analysed symbolically
                    ch = f.children.get(name)
                    if isinstance(ch, FuncInfo):
                        self._frames[fr.fid] = fr
                        return V(T("closure", ch.qual, fr.fid))
                    if isinstance(ch, ClassInfo):
                        return V(T("class", ch.qual))
                    r = self.p.resolve_expr(ast.Name(id=name), f.module, f)
                    if r is not None:
                        return V(self.term_of_res(r, name))
                    t = T("param", fr.fid, name)
                    if name in f.allparams:
                        if t not in self.param_types:
                            self._annot_type(t, f, name)
                        if f.cls is not None and f.params and f.params[0] == name and not f.is_static and not f.is_classmethod:
                            self.param_types.setdefault(t, f.cls)
                    return V(t)
                return V(T("unbound", fr.fid, name))
            fr = fr.parent
        mk = (T("mod", self.frame.module.name), ("a", name))
        r = self.p.resolve_name_in_module(self.frame.module, name)
        if r is None:
            return V(T("ext", "unresolved." + name))
        t = self.term_of_res(r, name)
        if t.k == "modvar":
            return self.load_modvar(t, st)
        if mk in st.heap:
            return st.heap[mk]
        return V(t)

    def load_modvar(self, t, st):
        mk = (T("mod", t.a[0]), ("a", t.a[1]))
        if mk in st.heap:
            return st.heap[mk]
        m = self.p.modules[t.a[0]]
        vals = m.assigns.get(t.a[1], [])
        if len(vals) == 1 and not self._global_mutated(m, t.a[1]):
            v = vals[0]
            if isinstance(v, ast.Constant):
                return V(C(v.value))
            if isinstance(v, (ast.Tuple, ast.Set, ast.List)) or (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "frozenset" and len(v.args) == 1 and isinstance(v.args[0], (ast.Set, ast.Tuple, ast.List))):
                elts = v.args[0].elts if isinstance(v, ast.Call) else v.elts
                out = []
                for x in elts:
                    if isinstance(x, ast.Constant):
                        out.append(C(x.value))
                    elif isinstance(x, (ast.Name, ast.Attribute)):
                        r = self.p.resolve_expr(x, m)
                        if r is None:
                            break
                        out.append(self.term_of_res(r, ast.unparse(x)))
                    else:
                        break
                else:
                    if not isinstance(v, ast.List):
                        return V(T("tup", tuple(out)))
            if isinstance(v, ast.UnaryOp) and isinstance(v.operand, ast.Constant) and isinstance(v.op, ast.USub):
                return V(C(-v.operand.value))
        return V(t)

    def _global_mutated(self, m, name):
        key = ("glob", m.name, name)
        if key not in self._modvar_types:
            r = False
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global) and name in n.names:
                    r = True
            self._modvar_types[key] = r
        return self._modvar_types[key]

    def term_of_res(self, r, dotted):
        if r[0] == "func":
            return T("func", r[1].qual)
        if r[0] == "class":
            return T("class", r[1].qual)
        if r[0] == "mod":
            return T("mod", r[1])
        if r[0] == "modvar":
            return T("modvar", r[1], r[2])
        if r[0] == "modvarattr":
            return T("attr", T("modvar", r[1], r[2]), r[3])
        if r[0] == "clsattr":
            return T("attr", T("class", r[1]), r[2])
        if r[0] == "ext":
            return T("ext", r[1])
        return T("ext", "unk." + dotted)

    def e_Attribute(self, e, st):
        out = []
        for bv, s in self.eval(e.value, st):
            out += self.load_attr(bv, e.attr, s, e)
        return out

    def load_attr(self, bv, attr, st, node):
        h = self.c.on_getattr(self, bv, attr, st, node, self.frame)
        if h is not None:
            return h
        vals = set()
        extra = []
        for b in sorted(split(bv), key=show):
            k = (b, ("a", attr))
            if k in st.heap:
                vals |= split(st.heap[k])
                continue
            if b.k == "mod":
                r = self.p.module_attr(b.a[0], attr)
                t = self.term_of_res(r, attr)
                if t.k == "modvar":
                    vals |= split(self.load_modvar(t, st))
                else:
                    vals.add(t)
                continue
            if b.k == "ext":
                vals.add(T("ext", b.a[0] + "." + attr))
                continue
            if b.k == "class":
                c = self.p.classes[b.a[0]]
                m = self.p.find_method(c, attr)
                if m is not None:
                    if m.is_classmethod:
                        vals.add(T("bound", b, m.qual))
                    else:
                        vals.add(T("func", m.qual))
                    continue
                av = self.p.find_class_attr(c, attr)
                if av is not None and isinstance(av[1], ast.Constant):
                    vals.add(C(av[1].value))
                    continue
                vals.add(T("attr", b, attr))
                continue
            cls = self.type_of(b, st)
            if cls is not None:
                m = self.p.find_method(cls, attr)
                if m is not None and m.is_property:
                    if self._can_inline(m):
                        res = self.inline(m, [], {}, st, node, recv=V(b))
                        if len(split(bv)) == 1:
                            return [(v, s) for v, s in res]
                        for v, s in res:
                            vals |= split(v)
                        continue
                    vals.add(T("attr", b, attr))
                    continue
                if m is not None:
                    mm = self._dispatch_method(cls, m, b)
                    vals.add(T("bound", b if not m.is_static else T("class", cls.qual), mm.qual))
                    continue
                av = self.p.find_class_attr(cls, attr)
                if av is not None and isinstance(av[1], ast.Constant) and b.k == "new" and not self._attr_assigned(cls, attr):
                    vals.add(C(av[1].value))
                    continue
            vals.add(T("attr", b, attr))
        return [(norm_value(vals), st)]

    def _attr_assigned(self, cls, attr):
        for k in self.p.mro(cls):
            if k.is_dataclass and any(f[0] == attr for f in k.own_fields()):
                return True
        return False

    def _dispatch_method(self, cls, m, b):
        return m

    def mk_item(self, b, i):
        if b.k == "tup" and i.k == "const" and isinstance(i.a[1], int):
            try:
                return b.a[0][i.a[1]]
            except IndexError:
                pass
        return T("item", b, i)

    def e_Subscript(self, e, st):
        out = []
        for bv, s1 in self.eval(e.value, st):
            for iv, s2 in self.eval(e.slice, s1):
                h = self.c.on_getitem(self, bv, iv, s2, e, self.frame)
                if h is not None:
                    out += h
                    continue
                vals = set()
                i = one(iv)
                for b in split(bv):
                    vals |= self.load_item(b, i, s2)
                self.add_raise(T("exc", ("LookupError",), 0), s2)
                out.append((norm_value(vals), s2))
        return out

    def load_item(self, b, i, st):
        if b.k == "class":
            return {b}  # Generic[...] subscript
        if b.k == "ext" and b.a[0].startswith(("typing.", "builtins.")):
            return {b}
        if i.k == "const":
            for slot in (("k", i.a[1]), ("i", i.a[1])):
                if (b, slot) in st.heap:
                    return set(split(st.heap[(b, slot)]))
        if b.k == "tup" and i.k == "const" and isinstance(i.a[1], int):
            t = self.mk_item(b, i)
            return split(t)
        if b.k == "new":
            res = set()
            if (b, "*") in st.heap:
                res |= split(st.heap[(b, "*")])
            if i.k != "const":
                for (o, slot), val in st.heap.items():
                    if o is b and isinstance(slot, tuple) and slot[0] in ("k", "i"):
                        res |= split(val)
            elif b.a[0] == "list" and isinstance(i.a[1], int) and i.a[1] < 0:
                for (o, slot), val in st.heap.items():
                    if o is b and isinstance(slot, tuple) and slot[0] == "i":
                        res |= split(val)
            if res:
                return res
        return {T("item", b, i)}

    def e_Slice(self, e, st):
        parts = []
        s = st
        for x in (e.lower, e.upper, e.step):
            if x is None:
                parts.append(NONE)
            else:
                v, s = self.eval(x, s)[0]
                parts.append(one(v))
        return [(V(T("slice", *parts)), s)]

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            if self.c.exact:
                seqs = self._seq([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st)
                parts = [(self._exact_items(e.elts, vs, s), s) for vs, s in seqs]
                if all(p is not None for p, _ in parts):
                    return [(V(T("tup", tuple(one(v) for v in p))), s) for p, s in parts]
            return self._mk_list(e, st, "list")
        return [(V(T("tup", tuple(one(v) for v in vs))), s) for vs, s in self._seq(e.elts, st)]

    def _exact_items(self, elts, vs, st):
        """display elements with starred parts expanded, or None"""
        items = []
        for x, v in zip(elts, vs):
            if isinstance(x, ast.Starred):
                lit = self.literal_elems(v, st)
                if lit is None:
                    return None
                items += lit
            else:
                items.append(v)
        return items

    def _exact_obj(self, kind, items, e, st):
        """a container whose elements are known one by one"""
        self._nobj = getattr(self, "_nobj", 0) + 1
        if kind == "set":
            uniq = []
            for v in items:
                if v not in uniq:
                    uniq.append(v)
            items = uniq
        o = T("new", kind, (*self.site(e)[:3], self._nobj) if isinstance(self.site(e), tuple) else (self.site(e), self._nobj))
        st = st.copy()
        for i, v in enumerate(items):
            st.heap[(o, ("i", i))] = v
        st.heap[(o, "exact")] = V(TRUE)
        return o, st

    def _mk_list(self, e, st, kind):
        out = []
        star = any(isinstance(x, ast.Starred) for x in e.elts)
        if self.c.exact:
            for vs, s in self._seq([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st):
                items = self._exact_items(e.elts, vs, s)
                if items is None:
                    out = []
                    break
                o, s = self._exact_obj(kind, items, e, s)
                out.append((V(o), s))
            if out:
                return out
        for vs, s in self._seq([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st):
            o = T("new", kind, self.site(e))
            s = s.copy()
            self._fresh(o, s)
            if star or kind == "set":
                acc = set()
                for x, v in zip(e.elts, vs):
                    acc |= split(self.elem_of(v, s)) if isinstance(x, ast.Starred) else split(v)
                s.heap[(o, "*")] = norm_value(acc)
                if self.c.orders and kind == "list" and all(one(v) is not None for v in vs):
                    s.heap[(o, "order")] = V(T("order", tuple(T("all" if isinstance(x, ast.Starred) else "one", one(v)) for x, v in zip(e.elts, vs))))
            else:
                for i, v in enumerate(vs):
                    s.heap[(o, ("i", i))] = v
            out.append((V(o), s))
        return out

    def _fresh(self, o, s):
        for k in [k for k in s.heap if k[0] is o]:
            del s.heap[k]

    def e_List(self, e, st):
        return self._mk_list(e, st, "list")

    def e_Set(self, e, st):
        return self._mk_list(e, st, "set")

    def e_Dict(self, e, st):
        out = []
        exprs = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                exprs.append(k)
            exprs.append(v)
        for vs, s in self._seq(exprs, st):
            o = T("new", "dict", self.site(e))
            s = s.copy()
            self._fresh(o, s)
            i = 0
            for k, _v in zip(e.keys, e.values):
                if k is None:
                    src = vs[i]
                    i += 1
                    self._dict_update(o, src, s)
                else:
                    self._store_item(o, vs[i], vs[i + 1], s)
                    i += 2
            out.append((V(o), s))
        return out

    def _dict_update(self, o, src, s):
        for t in split(src):
            if t.k == "new":
                for slot, v in s.slots(t).items():
                    s.heap[(o, slot)] = v if isinstance(slot, tuple) else norm_value(s.heap.get((o, slot), EMPTY) | v)
            else:
                s.heap[(o, "**")] = norm_value(s.heap.get((o, "**"), EMPTY) | V(t))
                s.heap[(o, "*")] = norm_value(s.heap.get((o, "*"), EMPTY) | V(T("dval", t)))

    def _exact_comp(self, e, st, kind):
        """a comprehension over sequences known element by element, or None"""
        done = []

        def rec(gens, cur):
            """cur: [(items, state)] -> the same after running the remaining generators"""
            if not gens:
                out = []
                for items, s in cur:
                    if kind == "dict":
                        for vs, s2 in self._seq([e.key, e.value], s):
                            out.append((items + [(vs[0], vs[1])], s2))
                    else:
                        for v, s2 in self.eval(e.elt, s):
                            out.append((items + [v], s2))
                return out
            g = gens[0]
            out = []
            for items, s in cur:
                for iv, s1 in self.eval(g.iter, s):
                    lit = self.literal_elems(iv, s1)
                    if lit is None:
                        return None
                    s1 = self.c.on_loop(self, "comp", iv, s1, g.iter, self.frame) or s1
                    state = [(items, s1)]
                    for ev in lit:
                        nxt = []
                        for it2, s2 in state:
                            for s3 in self.assign(g.target, ev, s2, e):
                                yes, no = [s3], []
                                for c in g.ifs:
                                    nn = []
                                    for x in yes:
                                        for truth, y in self.eval_cond(c, x):
                                            (nn if truth else no).append(y)
                                    yes = nn
                                for y in yes:
                                    r = rec(gens[1:], [(it2, y)])
                                    if r is None:
                                        return None
                                    nxt += r
                                nxt += [(it2, y) for y in no]
                        state = nxt
                        if len(state) > 64:
                            return None
                    out += state
            return out

        names = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        done = rec(e.generators, [([], st.copy())])
        if done is None:
            return None
        res = []
        for items, x in done:
            x = x.copy()
            if kind == "dict":
                o, x = self._exact_obj("dict", [], e, x)
                for k, v in items:
                    self._store_item(o, k, v, x)
            else:
                o, x = self._exact_obj(kind, items, e, x)
            for n in names:
                k = (self.frame.fid, n)
                if k in st.env:
                    x.env[k] = st.env[k]
                else:
                    x.env.pop(k, None)
            res.append((V(o), x))
        return res

    def _comp(self, e, st, kind):
        if self.c.exact:
            r = self._exact_comp(e, st, kind)
            if r is not None:
                return r
        o = T("new", kind, self.site(e))
        s = st.copy()
        self._fresh(o, s)
        # comprehension variables live in the current frame env (shadowing is harmless here)
        finals = []
        facts = EMPTY

        def rec(gens, s):
            nonlocal facts
            if not gens:
                if kind == "dict":
                    for vs, s2 in self._seq([e.key, e.value], s):
                        s2 = s2.copy()
                        self._store_item(o, vs[0], vs[1], s2, strong=False)
                        finals.append(s2)
                else:
                    for v, s2 in self.eval(e.elt, s):
                        s2 = s2.copy()
                        if self.c.comp_facts:
                            new = tuple((k, t) for k, t in s2.conds.items() if st.conds.get(k) is not t)
                            facts |= V(*[T("fact", x, new) for x in split(v)])
                        s2.heap[(o, "*")] = norm_value(s2.heap.get((o, "*"), EMPTY) | v)
                        finals.append(s2)
                return
            g = gens[0]
            for iv, s1 in self.eval(g.iter, s):
                s1 = self.c.on_loop(self, "comp", iv, s1, g.iter, self.frame) or s1
                s1 = s1.copy()
                s1.heap[(o, "over")] = norm_value(s1.heap.get((o, "over"), EMPTY) | iv)
                for s2 in self.assign(g.target, self.elem_of(iv, s1), s1, e):
                    cur = [s2]
                    for c in g.ifs:
                        nxt = []
                        for x in cur:
                            for truth, y in self.eval_cond(c, x):
                                if truth:
                                    y = y.copy()
                                    y.heap[(o, "filtered")] = V(TRUE)
                                    nxt.append(y)
                        cur = nxt
                    for x in cur:
                        rec(gens[1:], x)

        # names bound by the comprehension shadow and are restored
        names = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        rec(e.generators, s)
        if not finals:
            finals = [s]
        if self.c.comp_facts:
            keep = {k: t for k, t in st.conds.items()}
            m = [merge_states(finals)]
            m[0].conds = keep
            m[0].heap[(o, "facts")] = facts
        else:
            m = self.reduce(finals)
        res = []
        for x in m:
            x = x.copy()
            for n in names:
                k = (self.frame.fid, n)
                if k in st.env:
                    x.env[k] = st.env[k]
                else:
                    x.env.pop(k, None)
            x.conds = {k: t for k, t in x.conds.items() if st.conds.get(k) is t}
            res.append((V(o), x))
        return res

    def e_ListComp(self, e, st):
        return self._comp(e, st, "list")

    def e_SetComp(self, e, st):
        return self._comp(e, st, "set")

    def e_GeneratorExp(self, e, st):
        return self._comp(e, st, "gen")

    def e_DictComp(self, e, st):
        return self._comp(e, st, "dict")

    def e_Lambda(self, e, st):
        fi = self.p.node2func.get(id(e))
        if fi is None:
            q = f"{self.frame.module.name}.<lambda@{e.lineno}:{e.col_offset}>"
            fi = FuncInfo(q, "<lambda>", e, self.frame.module, None, self.frame.func, [])
            self.p.node2func[id(e)] = fi
            self.p.functions[q] = fi
        self._frames[self.frame.fid] = self.frame
        return [(V(T("closure", fi.qual, self.frame.fid)), st)]

    def e_JoinedStr(self, e, st):
        exprs = []
        shape = []
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                exprs.append(x.value)
                shape.append(None)
            else:
                shape.append(C(x.value) if isinstance(x, ast.Constant) else T("unk", self.site(x)))
        out = []
        for vs, s in self._seq(exprs, st):
            it = iter(vs)
            out.append((V(T("fstr", tuple(one(next(it)) if y is None else y for y in shape))), s))
        return out

    def e_FormattedValue(self, e, st):
        return self.eval(e.value, st)

    def e_BinOp(self, e, st):
        out = []
        for vs, s in self._seq([e.left, e.right], st):
            out.append((self.binop(type(e.op).__name__, vs[0], vs[1], e), s))
        return out

    def binop(self, op, l, r, node):
        a, b = one(l), one(r)
        if a.k == "const" and b.k == "const":
            try:
                if op == "Add":
                    return V(C(a.a[1] + b.a[1]))
                if op == "Sub":
                    return V(C(a.a[1] - b.a[1]))
                if op == "Mult" and isinstance(a.a[1], int) and isinstance(b.a[1], int):
                    return V(C(a.a[1] * b.a[1]))
            except Exception:
                pass
        if op == "Add" and a.k == "tup" and b.k == "tup":
            return V(T("tup", a.a[0] + b.a[0]))
        return V(T("bin", op, a, b))

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            out = []
            for truth, s in self.eval_cond(e.operand, st):
                out.append((V(C(not truth)), s))
            return out
        return [(self._unary(type(e.op).__name__, v), s) for v, s in self.eval(e.operand, st)]

    def _unary(self, op, v):
        t = one(v)
        if t.k == "const" and op == "USub" and isinstance(t.a[1], (int, float)):
            return V(C(-t.a[1]))
        return V(T("un", op, t))

    def e_BoolOp(self, e, st):
        # value context: a or b / a and b
        is_and = isinstance(e.op, ast.And)
        res, cur = [], [st]
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for y in cur:
                if last:
                    res += self.eval(x, y)
                    continue
                for v, z in self.eval(x, y):
                    for truth, w in self._cond_on_value(v, z, x, x):
                        if truth is (not is_and):
                            vv = frozenset(t for t in split(v) if self.truth_of(t, w) in (None, truth))
                            res.append((norm_value(vv) or v, w))
                        else:
                            nxt.append(w)
            cur = self.reduce(nxt)
        return self._merge_vals(res)

    def _merge_vals(self, res):
        if len(res) <= 1:
            return res
        # merge results whose states are equal up to conditions
        out = []
        for v, s in res:
            for i, (v2, s2) in enumerate(out):
                if s2.facts == s.facts and s2.env == s.env and s2.heap == s.heap and v2 == v and (not self.c.path_sensitive or s2.conds == s.conds):
                    out[i] = (v2, St(s2.env, s2.heap, s2.facts, {k: t for k, t in s2.conds.items() if s.conds.get(k) is t}))
                    break
            else:
                out.append((v, s))
        if len(out) > 8:
            groups = OrderedDict()
            for v, s in out:
                groups.setdefault(s.facts, []).append((v, s))
            out = [(norm_value(frozenset().union(*[v for v, _ in g])), merge_states([s for _, s in g])) for g in groups.values()]
        return out

    def e_Compare(self, e, st):
        out = []
        for truth, s in self.eval_cond(e, st):
            out.append((V(C(truth)), s))
        return self._merge_vals(out)

    def e_IfExp(self, e, st):
        out = []
        for truth, s in self.eval_cond(e.test, st):
            out += self.eval(e.body if truth else e.orelse, s)
        return self._merge_vals(out)

    def e_Starred(self, e, st):
        return [(V(T("star", one(v))), s) for v, s in self.eval(e.value, st)]

    def e_NamedExpr(self, e, st):
        out = []
        for v, s in self.eval(e.value, st):
            for s2 in self.assign(e.target, v, s, e):
                out.append((v, s2))
        return out

    def e_Await(self, e, st):
        return self.eval(e.value, st)

    def e_Yield(self, e, st):
        if e.value is None:
            self.frame.yields.append((V(NONE), st))
            return [(V(T("sent", self.site(e))), st)]
        out = []
        for v, s in self.eval(e.value, st):
            self.frame.yields.append((v, s))
            out.append((V(T("sent", self.site(e))), s))
        return out

    def e_YieldFrom(self, e, st):
        out = []
        for v, s in self.eval(e.value, st):
            self.frame.yields.append((self.elem_of(v, s), s))
            out.append((V(T("sent", self.site(e))), s))
        return out

    # ---------------------------------------------------------- containers
    def literal_elems(self, iv, st):
        if len(iv) != 1:
            return None
        t = one(iv)
        if t.k == "tup" and len(t.a[0]) <= 8:
            return [V(*split(x)) for x in t.a[0]]
        if self.c.exact:
            if t.k == "new" and t.a[0] in ("list", "set", "gen") and (t, "exact") in st.heap and (t, "*") not in st.heap:
                sl = st.slots(t)
                n = sum(1 for k in sl if isinstance(k, tuple) and k[0] == "i")
                return [sl[("i", i)] for i in range(n)] if all(("i", i) in sl for i in range(n)) and n <= 12 else None
            if t.k in ("ditems", "dkeys", "dvalues") or t.k == "new" and t.a[0] == "dict":
                b = t if t.k == "new" else t.a[0]
                if b.k == "new" and b.a[0] == "dict":
                    sl = st.slots(b)
                    if all(k == "exact" or isinstance(k, tuple) and k[0] == "k" for k in sl):
                        kv = [(k[1], v) for k, v in sl.items() if k != "exact"]
                        if t.k == "ditems":
                            return [V(T("tup", (C(k), one(v)))) for k, v in kv]
                        return [v for _, v in kv] if t.k == "dvalues" else [V(C(k)) for k, _ in kv]
        if t.k == "new" and t.a[0] == "list":
            sl = {k: v for k, v in st.slots(t).items() if k != "exact"}
            if "*" not in sl and sl and all(isinstance(k, tuple) and k[0] == "i" for k in sl) and len(sl) <= 8:
                return [sl[("i", i)] for i in range(len(sl)) if ("i", i) in sl]
        if (self.c.unroll_calls or self.c.exact) and t.k == "call" and t.a[0].k == "ext" and not t.a[2]:
            fn, args = t.a[0].a[0], t.a[1]
            if fn == "builtins.range" and args and all(x.k == "const" and isinstance(x.a[-1], int) for x in args):
                r = range(*[x.a[-1] for x in args])
                return [V(C(i)) for i in r] if len(r) <= 8 else None
            inner = [self.literal_elems(V(x), st) for x in args]
            if not inner or None in inner:
                return None
            if fn == "builtins.enumerate" and len(inner) == 1:
                return [V(T("tup", (C(i), one(v)))) if one(v) is not None else V(T("tup", (C(i), T("elem", t)))) for i, v in enumerate(inner[0])]
            if fn == "builtins.zip" and all(one(v) is not None for xs in inner for v in xs):
                return [V(T("tup", tuple(one(v) for v in vs))) for vs in zip(*inner)]
            if fn == "builtins.reversed" and len(inner) == 1:
                return inner[0][::-1]
        return None

    def elem_of(self, v, st):
        vals = set()
        for t in split(v):
            vals |= self._elem(t, st)
        return norm_value(vals)

    def _elem(self, t, st):
        if t.k == "tup":
            r = set()
            for x in t.a[0]:
                r |= split(x)
            return r or {T("elem", t)}
        if t.k == "new":
            r = set()
            kind = t.a[0]
            for slot, val in st.slots(t).items():
                if kind == "dict":
                    if slot == "keys":
                        r |= split(val)
                    elif isinstance(slot, tuple) and slot[0] == "k":
                        r.add(C(slot[1]))
                    elif slot == "**":
                        for x in split(val):
                            r.add(T("dkey", x))
                elif slot == "*" or (isinstance(slot, tuple) and slot[0] == "i"):
                    r |= split(val)
            return r or {T("elem", t)}
        if t.k == "call" and t.a[0].k == "ext":
            fn = t.a[0].a[0]
            if fn in ("builtins.list", "builtins.tuple", "builtins.sorted", "builtins.set", "builtins.reversed", "builtins.iter", "builtins.frozenset") and t.a[1]:
                return split(self.elem_of(V(*split(t.a[1][0])), st))
            if fn == "builtins.enumerate" and t.a[1]:
                return {T("tup", (T("index", t.a[1][0]), one(self.elem_of(V(*split(t.a[1][0])), st))))}
            if fn == "builtins.zip":
                return {T("tup", tuple(one(self.elem_of(V(*split(x)), st)) for x in t.a[1]))}
            if fn == "builtins.range":
                return {T("elem", t)}
            if fn == "builtins.map" and len(t.a[1]) >= 2:
                return {T("call", t.a[1][0], tuple(one(self.elem_of(V(*split(x)), st)) for x in t.a[1][1:]), (), t.a[3])}
            if fn == "builtins.filter" and len(t.a[1]) == 2:
                return split(self.elem_of(V(*split(t.a[1][1])), st))
        if t.k == "ditems":
            b = t.a[0]
            ks, vs = self.dict_kv(b, st)
            # keep key/value correlation for constant keys
            if b.k == "new" and not any(s in ("*", "**") for s in st.slots(b)):
                return {T("tup", (C(s[1]), one(v))) for s, v in st.slots(b).items() if isinstance(s, tuple) and s[0] == "k"} or {T("tup", (T("dkey", b), T("dval", b)))}
            return {T("tup", (one(ks), one(vs)))}
        if t.k == "dkeys":
            return set(self.dict_kv(t.a[0], st)[0])
        if t.k == "dvalues":
            return set(self.dict_kv(t.a[0], st)[1])
        return {T("elem", t)}

    def dict_kv(self, b, st):
        if b.k == "new":
            ks, vs = set(), set()
            for slot, v in st.slots(b).items():
                if slot == "keys":
                    ks |= split(v)
                elif slot == "*":
                    vs |= split(v)
                elif slot == "**":
                    for x in split(v):
                        ks.add(T("dkey", x))
                elif isinstance(slot, tuple) and slot[0] == "k":
                    ks.add(C(slot[1]))
                    vs |= split(v)
            if ks or vs:
                return norm_value(ks or {T("dkey", b)}), norm_value(vs or {T("dval", b)})
        return V(T("dkey", b)), V(T("dval", b))

    def container_extend(self, o, v, st):
        st = st.copy()
        st.heap[(o, "*")] = norm_value(st.heap.get((o, "*"), EMPTY) | self.elem_of(v, st))
        return st

    # ---------------------------------------------------------- calls
    def _eval_args(self, e, st):
        exprs = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
        seqs = self._seq(exprs, st)
        if len(seqs) > 1:
            # caller wants a single binding: merge
            groups = seqs
            n = len(seqs[0][0])
            vs = [norm_value(frozenset().union(*[x[0][i] for x in groups])) for i in range(n)]
            s = merge_states([x[1] for x in groups])
        else:
            vs, s = seqs[0]
        return self._pack_args(e, vs, s) + (s,)

    def _pack_args(self, e, vs, s):
        args, kwargs = [], OrderedDict()
        n = len(e.args)
        for a, v in zip(e.args, vs[:n]):
            if isinstance(a, ast.Starred):
                lit = self.literal_elems(v, s)
                if lit is not None:
                    args.extend(lit)
                else:
                    args.append(V(T("star", one(v))))
            else:
                args.append(v)
        for k, v in zip(e.keywords, vs[n:]):
            if k.arg is None:
                t = one(v)
                if t.k == "new" and t.a[0] == "dict" and not any(x in ("*", "**") for x in s.slots(t)):
                    for slot, val in s.slots(t).items():
                        if isinstance(slot, tuple) and slot[0] == "k" and isinstance(slot[1], str):
                            kwargs[slot[1]] = val
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def e_Call(self, e, st):
        out = []
        # super().method
        f = e.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and self.frame.cls is not None:
            owner = self.frame.func
            while owner is not None and owner.cls is None:
                owner = owner.parent
            base_cls = owner.cls if owner else self.frame.cls
            m = None
            for k in self.p.mro(base_cls)[1:]:
                if f.attr in k.methods:
                    m = k.methods[f.attr]
                    break
            sp = owner.params[0] if owner and owner.params else "self"
            recv = self.load_name(sp, st)
            for vs, s in self._seq([a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords], st):
                args, kwargs = self._pack_args(e, vs, s)
                if m is not None:
                    callee = T("bound", one(recv), m.qual)
                else:
                    callee = T("attr", T("super", one(recv)), f.attr)
                out += self.call_term(callee, args, kwargs, s, e)
            return self._merge_vals(out)
        argexprs = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
        for fv, s0 in self.eval(f, st):
            for vs, s in self._seq(argexprs, s0):
                args, kwargs = self._pack_args(e, vs, s)
                callees = sorted(split(fv), key=show)
                if len(callees) == 1:
                    out += self.call_term(callees[0], args, kwargs, s, e)
                else:
                    for c in callees:
                        out += self.call_term(c, args, kwargs, s, e)
        return self._merge_vals(out)

    def _mkcall(self, callee, args, kwargs, st, node):
        c = Call()
        c.it = self
        c.node = node
        c.frame = self.frame
        c.callee = callee
        c.args = args
        c.kwargs = kwargs
        c.st = st
        c.recv = None
        c.ext = None
        c.target = None
        c.cls = None
        c.site = self.site(node)
        if callee.k == "ext":
            c.ext = callee.a[0]
            c.name = callee.a[0].split(".")[-1]
            if callee.a[0].count("."):
                c.recv = V(T("ext", callee.a[0].rsplit(".", 1)[0]))
        elif callee.k == "func":
            c.target = self.p.functions.get(callee.a[0])
            c.name = c.target.name if c.target else callee.a[0].split(".")[-1]
        elif callee.k == "bound":
            c.target = self.p.functions.get(callee.a[1])
            c.name = c.target.name
            c.recv = V(callee.a[0])
        elif callee.k == "class":
            c.cls = self.p.classes.get(callee.a[0])
            c.name = c.cls.name
        elif callee.k == "closure":
            c.target = self.p.functions.get(callee.a[0])
            c.name = c.target.name if c.target else "<closure>"
        elif callee.k == "attr":
            c.name = callee.a[1]
            c.recv = V(*split(callee.a[0]))
        else:
            c.name = ""
        return c

    def call_term(self, callee, args, kwargs, st, node):
        call = self._mkcall(callee, args, kwargs, st, node)
        r = self.c.on_call(self, call)
        if r is not None:
            return r
        res = self._call_default(call, st)
        out = []
        for v, s in res:
            s2 = self.c.after_call(self, call, v, s)
            if s2 is not None:
                out.append((v, s2))
        return out

    def _call_default(self, call, st):
        callee, args, kwargs, node = call.callee, call.args, call.kwargs, call.node
        if callee.k == "partial":
            a = [V(x) if isinstance(x, T) else x for x in callee.a[1]] + args
            kw = dict(callee.a[2])
            kw = {k: (V(v) if isinstance(v, T) else v) for k, v in kw.items()}
            kw.update(kwargs)
            return self.call_term(callee.a[0], a, kw, st, node)
        if call.target is not None and self._can_inline(call.target) and self.c.should_inline(self, call.target, call):
            if callee.k == "bound":
                return self.inline(call.target, args, kwargs, st, node, recv=V(callee.a[0]))
            if callee.k == "closure":
                return self.inline(call.target, args, kwargs, st, node, parent=self._frames.get(callee.a[1]))
            if call.target.cls is not None and not call.target.is_static and args and not call.target.is_classmethod:
                return self.inline(call.target, args[1:], kwargs, st, node, recv=args[0])
            return self.inline(call.target, args, kwargs, st, node)
        if callee.k == "class":
            return self.construct(call, st)
        if callee.k == "ext":
            r = self._builtin(call, st)
            if r is not None:
                return r
        if callee.k in ("attr",):
            r = self._method(call, st)
            if r is not None:
                return r
        if callee.k == "new" or (callee.k in ("param", "attr") and self.type_of(callee, st) is not None):
            cls = self.type_of(callee, st)
            if cls is not None:
                m = self.p.find_method(cls, "__call__")
                if m is not None and self._can_inline(m) and self.c.should_inline(self, m, call):
                    return self.inline(m, args, kwargs, st, node, recv=V(callee))
        return self.opaque(call, st)

    def opaque(self, call, st):
        if not self.c.quiet_call(self, call):
            self.add_raise(T("exc", ("?",), 0), st)
        # bound functions not inlined keep a uniform callee term
        t = T("call", call.callee, tuple(one(a) for a in call.args), tuple((k, one(v)) for k, v in call.kwargs.items()), call.site)
        return [(V(t), st)]

    def construct(self, call, st):
        cls = call.cls
        node = call.node
        ext = self.p.ext_bases(cls)
        o = T("new", "obj:" + cls.qual, call.site)
        if any(b.endswith("Enum") for b in ext):
            return self.opaque(call, st)
        st = st.copy()
        self._fresh(o, st)
        init = self.p.find_method(cls, "__init__")
        if init is not None and self._can_inline(init) and self.c.should_inline(self, init, call):
            res = self.inline(init, call.args, call.kwargs, st, node, recv=V(o))
            return [(V(o), s) for _, s in res]
        if init is None and (any(k.is_dataclass for k in self.p.mro(cls)) or "typing.NamedTuple" in ext):
            fields = self.p.dataclass_fields(cls)
            self.add_raise(T("exc", ("?",), 0), st)
            for i, (n, _a, d, _k) in enumerate(fields):
                v = call.kwargs.get(n)
                if v is None and i < len(call.args):
                    v = call.args[i]
                if v is None and "**" in call.kwargs:
                    v = V(T("item", one(call.kwargs["**"]), C(n)))
                if v is None and d is not None:
                    if isinstance(d, ast.Constant):
                        v = V(C(d.value))
                    elif isinstance(d, ast.Call):
                        fac = [k for k in d.keywords if k.arg == "default_factory"]
                        dfl = [k for k in d.keywords if k.arg == "default"]
                        if fac and isinstance(fac[0].value, ast.Name) and fac[0].value.id in ("list", "dict", "set"):
                            no = T("new", fac[0].value.id, (call.site, n))
                            self._fresh(no, st)
                            v = V(no)
                        elif dfl and isinstance(dfl[0].value, ast.Constant):
                            v = V(C(dfl[0].value.value))
                        else:
                            v = V(T("default", cls.qual, n, call.site))
                    else:
                        v = V(T("default", cls.qual, n, call.site))
                if v is not None:
                    st.heap[(o, ("a", n))] = v
            post = self.p.find_method(cls, "__post_init__")
            if post is not None and self._can_inline(post) and self.c.should_inline(self, post, call):
                return [(V(o), s) for _, s in self.inline(post, [], {}, st, node, recv=V(o))]
            return [(V(o), st)]
        # unknown constructor: remember arguments
        self.add_raise(T("exc", ("?",), 0), st)
        for i, a in enumerate(call.args):
            st.heap[(o, ("arg", i))] = a
        for k, v in call.kwargs.items():
            st.heap[(o, ("arg", k))] = v
        return [(V(o), st)]

    # -- inlining
    def _can_inline(self, fi):
        if self.frame is not None and self.frame.depth >= self.c.max_depth:
            return False
        if fi.qual in self.stack:
            return False
        if isinstance(fi.node, ast.AsyncFunctionDef) or True:
            return True

    def inline(self, fi, args, kwargs, st, node, recv=None, parent=None):
        outs = self._enter_inline(fi, args, kwargs, st, node, recv, parent=parent)
        return self._merge_vals([(o.value, o.st) for o in outs])

    def _enter_inline(self, fi, args, kwargs, st, node, recv, parent=None, yield_cont=None, raw=False):
        site = (self.frame.module.name, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        fid = (fi.qual, site, self.frame.fid if self.frame.depth < 12 else 0)
        fid = _intern_fid(fid)
        fr = Frame(fid, fi, parent, fi.module, fi.cls, self.frame.depth + 1, caller=self.frame, site=node)
        if fi.parent is not None and parent is None:
            # nested function reached without a captured frame
            f = self.frame
            while f is not None:
                if f.func is fi.parent:
                    fr.parent = f
                    break
                f = f.caller
        if fi.cls is None and fi.parent is not None and fr.parent is not None:
            fr.cls = fr.parent.cls
        st = st.copy()
        self.inlined.add(fi.qual)
        ps = list(fi.params)
        bind = {}
        if recv is not None and not fi.is_static and ps:
            bind[ps[0]] = recv
            ps = ps[1:]
        a = fi.node.args
        pos = list(args)
        star = None
        for i, p in enumerate(ps):
            if i < len(pos):
                t = one(pos[i]) if pos[i] else None
                if t is not None and t.k == "star":
                    star = t
                    for j, q in enumerate(ps[i:]):
                        if q not in kwargs:
                            bind[q] = self.elem_of(V(T("item", t.a[0], C(j))), st) if False else V(self.mk_item(t.a[0], C(j)))
                    break
                bind[p] = pos[i]
        if a.vararg:
            rest = pos[len(ps):]
            if star is not None:
                bind[a.vararg.arg] = V(T("rest", star.a[0], 0))
            elif len(rest) == 1 and rest[0] and one(rest[0]).k == "star":
                bind[a.vararg.arg] = V(one(rest[0]).a[0])
            else:
                bind[a.vararg.arg] = V(T("tup", tuple(one(x) for x in rest)))
        kwextra = {}
        names = set(fi.params) | {x.arg for x in a.kwonlyargs}
        for k, v in kwargs.items():
            if k == "**":
                for q in names:
                    if q not in bind and q not in kwargs:
                        bind[q] = V(T("item", one(v), C(q)))
                kwextra["**"] = v
            elif k in names:
                bind[k] = v
            else:
                kwextra[k] = v
        if a.kwarg:
            if set(kwextra) == {"**"}:
                bind[a.kwarg.arg] = kwextra["**"]
            else:
                o = T("new", "dict", (site, "kw", fid))
                self._fresh(o, st)
                for k, v in kwextra.items():
                    if k == "**":
                        self._dict_update(o, v, st)
                    else:
                        st.heap[(o, ("k", k))] = v
                bind[a.kwarg.arg] = V(o)
        # defaults
        alla = [*a.posonlyargs, *a.args]
        for x, d in zip(alla[len(alla) - len(a.defaults):], a.defaults):
            if x.arg not in bind:
                bind[x.arg] = self._default_val(d, fi, x.arg)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in bind and d is not None:
                bind[x.arg] = self._default_val(d, fi, x.arg)
        for p in fi.allparams:
            if p not in bind:
                bind[p] = V(T("unbound", fid, p))
        # locals of a previous activation with the same id are dropped
        for k in [k for k in st.env if k[0] is fid]:
            del st.env[k]
        for k, v in bind.items():
            st.env[(fid, k)] = v
            for t in v:
                if t.k in ("param", "call", "item", "attr", "elem", "dval") and t not in self.param_types and self.type_of(t) is None:
                    if recv is None or k != fi.params[0]:
                        self._annot_type(t, fi, k)
        fr.yield_cont = yield_cont
        saved = self.frame
        self.frame = fr
        self.stack.append(fi.qual)
        try:
            if raw:
                outs = self.exec_block(fi.body, [st])
                res = []
                for o in outs:
                    res.append(o)
                return res
            rets = self._exec_body(fi, st)
            return [Outcome("ret", s, v) for v, s in rets]
        finally:
            self.stack.pop()
            self.frame = saved

    def _default_val(self, d, fi, name):
        if isinstance(d, ast.Constant):
            return V(C(d.value))
        if isinstance(d, (ast.Name, ast.Attribute)):
            r = self.p.resolve_expr(d, fi.module, fi.parent)
            if r is not None:
                t = self.term_of_res(r, ast.unparse(d))
                return V(t)
        if isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant) and isinstance(d.op, ast.USub):
            return V(C(-d.operand.value))
        if isinstance(d, ast.Tuple) and not d.elts:
            return V(T("tup", ()))
        return V(T("default", fi.qual, name, 0))

    def _exec_func(self, fi, fr, st):
        saved = self.frame
        self.frame = fr
        self.stack.append(fi.qual)
        try:
            return self._exec_body(fi, st)
        finally:
            self.stack.pop()
            self.frame = saved

    def _exec_body(self, fi, st):
        """-> [(Value, St)]"""
        outs = self.exec_block(fi.body, [st])
        res = []
        gen = fi.is_generator and self.frame.yield_cont is None
        for o in outs:
            if o.kind == "ret":
                res.append((o.value, o.st))
            elif o.kind == "normal":
                s = self.c.on_return(self, V(NONE), o.st, fi.node, self.frame)
                if s is not None:
                    res.append((V(NONE), s))
        if gen and self.frame.yields:
            o = T("new", "gen", self.frame.fid)
            allv = norm_value(frozenset().union(*[v for v, _ in self.frame.yields]))
            res2 = []
            for _, s in res:
                s = s.copy()
                s.heap[(o, "*")] = allv
                res2.append((V(o), s))
            res = res2
        return res

    # -- modelled builtins / methods
    def _builtin(self, call, st):
        n = call.ext
        a = call.args
        if n == "builtins.isinstance" and len(a) == 2:
            x = one(a[0])
            types = self._types_of_value(a[1], st)
            t = T("isinst", x, types)
            f = self.fold_isinst(x, types, st)
            if f is not None:
                return [(V(C(f)), st)]
            return [(V(t), st)]
        if self.c.exact and n in ("builtins.list", "builtins.set", "builtins.frozenset") and len(a) <= 1 and not call.kwargs:
            lit = self.literal_elems(a[0], st) if a else []
            if lit is not None:
                o, s = self._exact_obj("set" if n.endswith("set") else "list", lit, call.node, st)
                return [(V(o), s)]
        if self.c.exact and n in ("builtins.map", "builtins.filter") and len(a) >= 2 and one(a[0]) is not None and not self._inexact:
            r = self._exact_map(n, call, st)
            if r is not None:
                return r
        if self.c.exact and n in ("builtins.len", "builtins.sorted", "builtins.any", "builtins.all", "builtins.next", "builtins.sum", "builtins.min", "builtins.max") and a:
            r = self._exact_fold(n, call, st)
            if r is not None:
                return r
        if n in ("builtins.list", "builtins.set", "builtins.dict") and not a and not call.kwargs:
            o = T("new", n.split(".")[1], call.site)
            s = st.copy()
            self._fresh(o, s)
            return [(V(o), s)]
        if n in ("collections.OrderedDict", "collections.deque", "collections.defaultdict") :
            kind = "list" if n.endswith("deque") else "dict"
            o = T("new", kind, call.site)
            s = st.copy()
            self._fresh(o, s)
            if a and n != "collections.defaultdict":
                if kind == "list":
                    s = self.container_extend(o, a[0], s)
                else:
                    self._dict_update(o, a[0], s)
            return [(V(o), s)]
        if n in ("builtins.list", "builtins.set") and len(a) == 1 and not call.kwargs:
            # a copy with the same contents
            src = one(a[0])
            if src.k == "new" and src.a[0] in ("list", "set", "gen"):
                o = T("new", n.split(".")[1], call.site)
                s = st.copy()
                self._fresh(o, s)
                for slot, v in st.slots(src).items():
                    s.heap[(o, slot)] = v
                if self.c.orders and src.a[0] == "set":
                    s.heap[(o, "order")] = V(T("order", (T("unordered", src),)))
                return [(V(o), s)]
            return None
        if n == "builtins.tuple" and len(a) == 1:
            lit = self.literal_elems(a[0], st)
            if lit is not None:
                return [(V(T("tup", tuple(one(x) for x in lit))), st)]
            return None
        if n == "builtins.dict":
            o = T("new", "dict", call.site)
            s = st.copy()
            self._fresh(o, s)
            if a:
                self._dict_update(o, a[0], s)
            for k, v in call.kwargs.items():
                if k == "**":
                    self._dict_update(o, v, s)
                else:
                    s.heap[(o, ("k", k))] = v
            return [(V(o), s)]
        if n == "builtins.getattr" and len(a) >= 2 and one(a[1]).k == "const":
            res = self.load_attr(a[0], one(a[1]).a[1], st, call.node)
            if len(a) > 2:
                res = [(norm_value(v | a[2]), s) for v, s in res]
            return res
        if n == "builtins.setattr" and len(a) == 3 and one(a[1]).k == "const":
            s = st.copy()
            for b in a[0]:
                s.heap[(b, ("a", one(a[1]).a[1]))] = a[2]
            s = self.c.on_setattr(self, a[0], one(a[1]).a[1], a[2], s, call.node, self.frame)
            return [(V(NONE), s)] if s is not None else []
        if n == "functools.partial" and a:
            return [(V(T("partial", one(a[0]), tuple(one(x) for x in a[1:]), tuple((k, one(v)) for k, v in call.kwargs.items()))), st)]
        if n == "typing.cast" and len(a) == 2:
            return [(a[1], st)]
        if n in ("copy.copy",) and a:
            return [(a[0], st)]
        if n == "dataclasses.replace" and a:
            o = T("new", "replace", call.site)
            src = one(a[0])
            cls = self.type_of(src, st)
            if cls is not None:
                o = T("new", "obj:" + cls.qual, call.site)
                s = st.copy()
                self._fresh(o, s)
                for fn, _an, _d, _k in self.p.dataclass_fields(cls):
                    s.heap[(o, ("a", fn))] = self.load_attr(a[0], fn, st, call.node)[0][0]
                for k, v in call.kwargs.items():
                    s.heap[(o, ("a", k))] = v
                return [(V(o), s)]
        return None

    def _exact_map(self, n, call, st):
        a = call.args
        lits = [self.literal_elems(v, st) for v in a[1:]]
        if None in lits or n == "builtins.filter" and len(lits) != 1:
            return None
        cur = [([], st)]
        for xs in zip(*lits):
            nxt = []
            for acc, s in cur:
                for v, s2 in self.call_term(one(a[0]), list(xs), {}, s, call.node):
                    if n == "builtins.map":
                        nxt.append((acc + [v], s2))
                        continue
                    b = self.truth_of(one(v), s2) if one(v) is not None else None
                    if b is None:
                        return None
                    nxt.append((acc + [xs[0]] if b else acc, s2))
            cur = nxt
            if len(cur) > 16:
                return None
        out = []
        for acc, s in cur:
            o, s = self._exact_obj("gen", acc, call.node, s)
            out.append((V(o), s))
        return out

    def _exact_fold(self, n, call, st):
        a = call.args
        t = one(a[0])
        if t is not None and t.k == "const" and n == "builtins.len" and isinstance(t.a[-1], (str, bytes)):
            return [(V(C(len(t.a[-1]))), st)]
        lit = self.literal_elems(a[0], st)
        if lit is None:
            return None
        if n == "builtins.len":
            return [(V(C(len(lit))), st)]
        if n == "builtins.next":
            return [(lit[0], st)] if lit else [(a[1], st)] if len(a) > 1 else None
        if n in ("builtins.any", "builtins.all"):
            vals = [self.truth_of(one(v), st) if one(v) is not None else None for v in lit]
            if n == "builtins.any":
                return [(V(C(True)), st)] if True in vals else None if None in vals else [(V(C(False)), st)]
            return [(V(C(False)), st)] if False in vals else None if None in vals else [(V(C(True)), st)]
        cs = [one(v).a[-1] if one(v) is not None and one(v).k == "const" else None for v in lit]
        if None in cs or len(a) > 1 or call.kwargs:
            return None
        try:
            if n == "builtins.sorted":
                o, s = self._exact_obj("list", [V(C(x)) for x in sorted(cs)], call.node, st)
                return [(V(o), s)]
            return [(V(C({"sum": sum, "min": min, "max": max}[n[9:]](cs))), st)]
        except (TypeError, ValueError):
            return None

    def _types_of_value(self, v, st):
        out = []
        for t in sorted(split(v), key=show):
            if t.k == "tup":
                for x in t.a[0]:
                    out += self._types_of_value(V(x), st)
            elif t.k == "bin" and t.a[0] == "BitOr":
                out += self._types_of_value(V(t.a[1]), st)
                out += self._types_of_value(V(t.a[2]), st)
            elif t.k in ("class", "ext"):
                out.append(t.a[0])
            else:
                out.append(show(t))
        return tuple(sorted(set(out)))

    def _typename(self, e):
        r = self.p.resolve_expr(e, self.frame.module, self.frame.func)
        if r is None:
            return ast.unparse(e)
        return r[1].qual if r[0] == "class" else str(r[1])

    def _method(self, call, st):
        name = call.name
        a = call.args
        recvs = split(call.recv)
        if len(recvs) != 1:
            # distribute
            return None
        b = next(iter(recvs))
        isnew = b.k == "new" and b.a[0] in ("list", "dict", "set", "gen")
        if name == "items" and not a:
            return [(V(T("ditems", b)), st)]
        if name == "keys" and not a:
            return [(V(T("dkeys", b)), st)]
        if name == "values" and not a:
            return [(V(T("dvalues", b)), st)]
        if name == "get" and a and len(a) <= 2 and not call.kwargs:
            vals = self.load_item(b, one(a[0]), st)
            d = a[1] if len(a) > 1 else V(NONE)
            if isnew and one(a[0]).k == "const" and (b, ("k", one(a[0]).a[1])) in st.heap:
                return [(norm_value(vals), st)]
            ck = self.closed_dict(b, st)
            if ck is not None and one(a[0]).k == "const" and one(a[0]).a[1] not in ck:
                return [(d, st)]
            # keep the default as a separate, path-sensitive alternative
            h = self.c.on_getitem(self, call.recv, a[0], st, call.node, self.frame)
            if h is not None:
                return [(norm_value(v | d), s) for v, s in h]
            return [(norm_value(frozenset(vals) | d), st)]
        if isnew:
            s = st.copy()
            if (b, "order") in s.heap and name in ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse"):
                od = one(s.heap[(b, "order")])
                if name in ("append", "extend") and len(a) == 1 and one(a[0]) is not None and od.k == "order" and not self._inexact:
                    s.heap[(b, "order")] = V(T("order", (*od.a[0], T("one" if name == "append" else "all", one(a[0])))))
                else:
                    s.heap[(b, "order")] = V(T("order", (T("opaque", name),)))
            if self.c.exact and b.a[0] != "dict" and (b, "exact") in s.heap and not self._inexact and name in ("append", "add", "extend", "pop"):
                lit = self.literal_elems(V(b), s)
                new = None
                if lit is not None and name in ("append", "add") and len(a) == 1:
                    new = [*lit, a[0]] if name == "append" or a[0] not in lit else lit
                elif lit is not None and name == "extend" and len(a) == 1:
                    more = self.literal_elems(a[0], s)
                    new = [*lit, *more] if more is not None else None
                elif lit and name == "pop" and (not a or one(a[0]).k == "const"):
                    i = one(a[0]).a[-1] if a else -1
                    val = lit[i]
                    new = [v for j, v in enumerate(lit) if j != i % len(lit)]
                if new is not None:
                    for k in [k for k in s.heap if k[0] is b and isinstance(k[1], tuple) and k[1][0] == "i"]:
                        del s.heap[k]
                    for i, v in enumerate(new):
                        s.heap[(b, ("i", i))] = v
                    return [(val if name == "pop" else V(NONE), s)]
            if name in ("append", "add", "appendleft") and len(a) == 1:
                s.heap[(b, "*")] = norm_value(s.heap.get((b, "*"), EMPTY) | a[0])
                return [(V(NONE), s)]
            if name == "insert" and len(a) == 2:
                s.heap[(b, "*")] = norm_value(s.heap.get((b, "*"), EMPTY) | a[1])
                return [(V(NONE), s)]
            if name in ("extend",) and len(a) == 1:
                return [(V(NONE), self.container_extend(b, a[0], s))]
            if name == "update":
                if b.a[0] == "dict":
                    if a:
                        self._dict_update(b, a[0], s)
                    for k, v in call.kwargs.items():
                        s.heap[(b, ("k", k))] = v
                else:
                    for x in a:
                        s = self.container_extend(b, x, s)
                return [(V(NONE), s)]
            if name == "copy" and not a:
                o = T("new", b.a[0], call.site)
                self._fresh(o, s)
                for slot, v in st.slots(b).items():
                    s.heap[(o, slot)] = v
                return [(V(o), s)]
            if name == "setdefault" and len(a) == 2:
                old = self.load_item(b, one(a[0]), s)
                self._store_item(b, a[0], norm_value(frozenset(x for x in old if x.k != "item") | a[1]), s)
                return [(norm_value(frozenset(x for x in old if x.k != "item") | a[1]), s)]
            if name == "pop":
                if b.a[0] == "dict" and a:
                    r = self.load_item(b, one(a[0]), s)
                    if len(a) > 1:
                        r = set(r) | set(a[1])
                    if one(a[0]).k == "const":
                        s.heap.pop((b, ("k", one(a[0]).a[1])), None)
                    return [(norm_value(r), s)]
                return [(self.elem_of(V(b), s), s)]
        if name == "setdefault" and len(a) == 2:
            return [(norm_value(frozenset({T("item", b, one(a[0]))}) | a[1]), st)]
        return None


_FIDS: dict = {}


def _intern_fid(f):
    k = _FIDS.get(f)
    if k is None:
        k = T("fid", f[0], f[1], len(_FIDS))
        _FIDS[f] = k
    return k


_WOC: dict = {}


def walk_own_cached(node):
    from .project import walk_own

    k = id(node)
    if k not in _WOC:
        _WOC[k] = (node, list(walk_own(node)))
    return _WOC[k][1]


def sorted_pair(a, b):
    """Canonical operand order for symmetric comparisons (constants on the right)."""
    if a.k == "const" and b.k != "const":
        return b, a
    if b.k == "const" and a.k != "const":
        return a, b
    return (a, b) if show(a) <= show(b) else (b, a)


def cmp_term(op, l, r):
    """Canonical comparison: (term, polarity)."""
    if op == "Eq":
        return T("cmp", "==", *sorted_pair(l, r)), True
    if op == "NotEq":
        return T("cmp", "==", *sorted_pair(l, r)), False
    if op == "Is":
        return T("cmp", "is", *sorted_pair(l, r)), True
    if op == "IsNot":
        return T("cmp", "is", *sorted_pair(l, r)), False
    if op == "Lt":
        return T("cmp", "<", l, r), True
    if op == "GtE":
        return T("cmp", "<", l, r), False
    if op == "Gt":
        return T("cmp", "<", r, l), True
    if op == "LtE":
        return T("cmp", "<", r, l), False
    if op == "In":
        return T("cmp", "in", l, r), True
    if op == "NotIn":
        return T("cmp", "in", l, r), False
    return T("cmp", op, l, r), True


def _as_load(t):
    import copy as _c

    t2 = _c.copy(t)
    t2.ctx = ast.Load()
    return t2
