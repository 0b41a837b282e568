"""C09: scoped execution state is restored on every exit; resources are released on every path.

Path analysis with exceptions: every call that is not known to be harmless may raise. The state of a path holds the
scoped cells written (thread-local attributes, attributes of the request's state, attributes with a save/restore
idiom), contexts pushed, resources opened, locks taken; each exit of the function is checked.
A function that leaves something behind is reported only when its callers do not clean up either.
"""
from __future__ import annotations

import ast

from rules.common import all_nodes, call_graph, dotted_of, impl_entries, where
from rules.locks import LockClient
from sa.engine import C, Engine, T, V, one, show, split, subterms

RULES = {
    "restore": "a scoped cell (thread-local or per-request state) has its previous value again on every exit, exceptions included",
    "stack": "every context pushed is popped on every exit; with-statements push on entry and pop unconditionally on exit",
    "resources": "files, readers, writers, temporary files and request interpreters opened by a function are closed on every exit unless handed on",
    "private": "scoped cells belong to one thread or to one request",
}
OPTIONAL = {
    "locks": "a lock acquired explicitly is released on every exit",
    "managers": "generator-based context managers clean up in a finally clause",
}
RELEASE = {"close", "shutdown", "terminate", "cleanup", "__exit__", "stop"}
EXT_OPEN = {
    "builtins.open": "file", "io.open": "file", "os.fdopen": "file", "tarfile.open": "archive", "zipfile.ZipFile": "archive",
    "tempfile.NamedTemporaryFile": "temporary file", "tempfile.TemporaryFile": "temporary file", "tempfile.TemporaryDirectory": "temporary directory",
    "tempfile.mkdtemp": "temporary directory", "concurrent.futures.ThreadPoolExecutor": "executor", "concurrent.futures.ProcessPoolExecutor": "executor",
    "concurrent.futures.thread.ThreadPoolExecutor": "executor", "pyarrow.csv.open_csv": "reader", "pyarrow.csv.CSVWriter": "writer",
    "pyarrow.parquet.ParquetWriter": "writer", "pyarrow.parquet.ParquetFile": "reader",
    "pyarrow.OSFile": "file", "httpx.Client": "client", "socket.socket": "socket", "socket.create_connection": "socket",
}
UNLINK = {"os.unlink", "os.remove", "os.replace", "os.rename", "shutil.move", "shutil.rmtree", "os.rmdir"}
QUIET = {"len", "isinstance", "issubclass", "hasattr", "getattr", "setattr", "str", "repr", "id", "type", "list", "dict", "tuple", "set", "frozenset", "range", "enumerate", "zip", "bool", "callable", "super", "print", "min", "max", "sorted", "reversed", "any", "all", "iter", "format", "object", "vars"}
QUIET_METHODS = {"append", "extend", "add", "get", "items", "keys", "values", "copy", "debug", "info", "warning", "error", "exception", "critical", "format", "join", "startswith", "endswith", "strip", "split", "lower", "upper", "setdefault", "update", "locked", "set", "is_set", "clear", "discard"}
QUIET_EXT = ("os.path.", "pathlib.", "contextlib.", "uuid.", "logging.", "time.", "os.getpid", "builtins.", "threading.local", "typing.", "os.access", "os.environ", "tempfile.gettempdir", "threading.")


def run(p, rep, tier):
    for k, v in RULES.items():
        rep.rule(k, v, 1)
    for k, v in OPTIONAL.items():
        rep.rule(k, v, 0)
    m = Model(p)
    restore(p, rep, m)
    stack(p, rep, m)
    resources(p, rep, m)
    private(p, rep, m)
    managers(p, rep)


# ------------------------------------------------------------------ what is scoped
def own(f):
    out, st = [], list(f.node.body) if isinstance(f.node.body, list) else [f.node.body]
    while st:
        n = st.pop()
        out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st += list(ast.iter_child_nodes(n))
    return out


def top(f):
    while f.parent is not None:
        f = f.parent
    return f


class Model:
    def __init__(self, p):
        self.p = p
        self.tl = set()          # names given a threading.local()
        for n, m, f in all_nodes(p, (ast.Assign, ast.AnnAssign)):
            if n.value is None or not any(isinstance(c, ast.Call) and dotted_of(p, c.func, m, f) in ("threading.local", "contextvars.ContextVar") for c in ast.walk(n.value)):
                continue
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, ast.Attribute):
                    self.tl.add(t.attr)
                elif isinstance(t, ast.Name):
                    self.tl.add(t.id)
        self.handlers = {f.qual: c for c, f, _, _ in impl_entries(p) if f is not None}
        self.submitted = set()   # functions run on another thread
        for n, m, f in all_nodes(p, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else ""
            if nm in ("submit", "add_done_callback", "run_in_executor", "Thread", "to_thread") or isinstance(n.func, ast.Attribute) and nm == "Thread":
                for a in [*n.args, *[k.value for k in n.keywords]]:
                    g = local(p, f, a)
                    if g is not None:
                        self.submitted.add(g.qual)
        self.idiom = {}          # attr -> [(FuncInfo, holder text, where)] saved and restored somewhere
        for f in list(p.functions.values()):
            if isinstance(f.node, ast.Lambda):
                continue
            saved, stores = {}, []
            for n in own(f):
                if isinstance(n, ast.Assign) and len(n.targets) == 1:
                    t, v = n.targets[0], n.value
                    if isinstance(t, ast.Name):
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "getattr" and len(v.args) >= 2 and isinstance(v.args[1], ast.Constant):
                            saved[t.id] = (ast.unparse(v.args[0]), v.args[1].value)
                        elif isinstance(v, ast.Attribute):
                            saved[t.id] = (ast.unparse(v.value), v.attr)
                    elif isinstance(t, ast.Attribute):
                        stores.append((n, t, v))
            for n, t, v in stores:
                if isinstance(v, ast.Name) and saved.get(v.id) == (ast.unparse(t.value), t.attr) and sum(1 for x in own(f) if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.attr == t.attr) > 1:
                    self.idiom.setdefault(t.attr, []).append((f, t.value, where(f.module, n)))
        self.stacks()

    def stacks(self):
        """Module-level lists used as a stack, the functions that push a parameter and those that pop."""
        p = self.p
        self.lists, self.pushers, self.poppers = {}, {}, {}
        for f in list(p.functions.values()):
            for n in own(f):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in ("append", "pop"):
                    v = n.func.value.id
                    if v in f.allparams or any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Store) for x in own(f)) or v not in module_names(f.module):
                        continue
                    if n.func.attr == "append" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in f.params:
                        self.pushers.setdefault((f.module.name, v), set()).add(f.qual)
                    if n.func.attr == "pop":
                        self.poppers.setdefault((f.module.name, v), set()).add(f.qual)
        for k in set(self.pushers) & set(self.poppers):
            self.lists[k] = True
        self.push = {q for k in self.lists for q in self.pushers[k]}
        self.pop = {q for k in self.lists for q in self.poppers[k]}
        # functions that also clear or index the stack are set-up functions, not pushes of a scope
        self.push = {q for q in self.push if len(p.functions[q].params) <= 1}

    def cell(self, o, attr, f):
        """Is attribute attr of object term o scoped state for function f?"""
        if o.k == "attr" and o.a[1] in self.tl or o.k == "modvar" and o.a[1] in self.tl:
            return True
        r = o
        while r.k in ("attr", "item", "elem"):
            r = r.a[0]
        if r.k in ("new", "class", "mod") or r.k == "call" and r.a[0].k == "class":
            return False
        if attr in self.idiom and any(g.module is f.module for g, _, _ in self.idiom[attr]):
            return not (o.k == "call" and o.a[0].k == "class")
        t = top(f)
        if t.qual in self.handlers and root_param(o) is not None and o.k != "param":
            return True
        if t.cls is not None and any(c.name in ("AbstractInterpreter", "Context") for c in self.p.mro(t.cls)) and o.k == "attr" and root_param(o) not in (None, "self"):
            return True
        return False


def module_names(m):
    return {t.id for n in m.tree.body if isinstance(n, (ast.Assign, ast.AnnAssign)) for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) if isinstance(t, ast.Name)}


def root_param(o):
    while o.k in ("attr", "item", "elem") or o.k == "call" and o.a[0].k in ("attr", "bound", "func"):
        if o.k == "call":
            if o.a[0].k == "func":
                return root_param(o.a[1][0]) if o.a[1] and isinstance(o.a[1][0], T) else None
            o = o.a[0].a[0]
        else:
            o = o.a[0]
    return o.a[1] if o.k == "param" else None


def local(p, f, e):
    if isinstance(e, ast.Name):
        h = f
        while h is not None:
            if e.id in h.children:
                return h.children[e.id]
            h = h.parent
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self":
        h = f
        while h is not None and h.cls is None:
            h = h.parent
        return p.find_method(h.cls, e.attr) if h is not None else None
    if isinstance(e, (ast.Name, ast.Attribute)) and f is not None:
        r = p.resolve_expr(e, f.module, f)
        return r[1] if r is not None and r[0] == "func" else None
    return None


# ------------------------------------------------------------------ path analysis
class Scope(LockClient):
    path_sensitive = True
    max_states = 120

    def __init__(self, p, m, root, what, inline=()):
        super().__init__(p)
        self.p, self.m, self.root, self.what, self.inline = p, m, root, what, set(inline)
        self.assume_nonempty_loops = what == "resources"
        self.holders, self.summary, self.cand = {}, None, ()
        self.captured = {n.id for c in nested(root) for n in own(c) if isinstance(n, ast.Name)} if what == "resources" else set()

    def should_inline(self, it, g, call):
        if g.qual in self.m.push or g.qual in self.m.pop:
            return False
        return g.qual in self.inline

    # cells
    def on_setattr(self, it, obj, attr, val, st, node, frame):
        for o in split(obj):
            if self.what == "restore" and self.m.cell(o, attr, frame.func):
                st = self.mark(it, st, o, attr, val, node)
            if self.what == "resources":
                st = self.escape(st, val)
        return st

    def mark(self, it, st, o, attr, val, node, w=None):
        clean = st.without(lambda f: f[0] == "dirty" and f[1] is o and f[2] == attr)
        init = T("attr", o, attr)
        if not val:
            # deleting restores a cell that was absent before
            absent = any(tr and c.k == "cmp" and c.a[0] == "is" and init in (c.a[1], c.a[2]) or c is init and not tr or not tr and c.k == "call" and show(c.a[0]).endswith("hasattr") for c, tr in st.conds.items())
            if absent or not any(f[0] == "dirty" and f[1] is o and f[2] == attr for f in st.facts):
                return clean
        elif init in val:
            return clean
        w = w or it.where(node)
        if isinstance(node, ast.Attribute):
            self.holders[(w, attr)] = node.value
        elif isinstance(node, (ast.Assign, ast.AnnAssign, ast.Delete)):
            for t in node.targets if not isinstance(node, ast.AnnAssign) else [node.target]:
                if isinstance(t, ast.Attribute) and t.attr == attr:
                    self.holders[(w, attr)] = t.value
        return clean.with_fact(("dirty", o, attr, w))

    def on_setitem(self, it, obj, idx, val, st, node, frame):
        return self.escape(st, val) if self.what == "resources" and not all(o.k == "new" for o in split(obj)) else st

    def holder(self, it, call, h):
        """the object a callee's expression names, in the caller's terms"""
        if h is None:
            return []
        if isinstance(h, ast.Attribute):
            return [T("attr", o, h.attr) for o in self.holder(it, call, h.value)]
        if isinstance(h, ast.Name):
            g = call.target
            if g.params and h.id == g.params[0] and g.cls is not None and call.recv is not None:
                return split(call.recv)
            b = call.bind()
            if h.id in b:
                return split(b[h.id])
            if g.parent is not None and h.id not in g.allparams:
                return [o for v, _ in it.eval(h, call.st) for o in split(v)]
        return []

    def on_getitem(self, it, obj, idx, st, node, frame):
        if self.what == "resources" and len(obj) == 1 and one(obj).k == "new" and any(t in self.opened(st) for t in split(st.contents(one(obj)))):
            # which element does not matter: releasing it counts for the list
            return [(V(T("item", one(obj), one(idx) if len(idx) == 1 else C("?"))), st)]
        return None

    # resources
    def opened(self, st):
        return {f[1]: f for f in st.facts if f[0] == "open"}

    def closure(self, st, ts):
        owns = {}
        for f in st.facts:
            if f[0] == "owns":
                owns.setdefault(f[1], set()).add(f[2])
        seen, todo = set(), list(ts)
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            todo += owns.get(t, ())
            if t.k in ("new", "call"):
                for v in st.slots(t).values():
                    todo += split(v)
            if t.k in ("elem", "item", "phi", "slice", "star"):
                todo += [a for a in t.a if isinstance(a, T)] + [x for a in t.a if isinstance(a, (tuple, frozenset)) for x in a if isinstance(x, T)]
            if t.k == "tup":
                todo += [x for v in t.a[0] for x in (v if isinstance(v, frozenset) else [v]) if isinstance(x, T)]
            if t.k == "attr" and t.a[1] in ("name", "path", "_path"):
                pass
            if t.k == "bound":
                todo.append(t.a[0])
        return seen

    def on_loop(self, it, kind, iv, st, node, frame):
        if self.what == "resources" and kind == "for" and iv:
            for t in split(iv):
                if t.k == "new":
                    st = st.with_fact(("iter", t))
        return st

    def drop(self, st, vals):
        ts = self.closure(st, [t for v in vals for t in split(v)])
        for f in st.facts:
            # a loop over a list releases all its elements
            if f[0] == "iter" and any(t in ts for t in split(st.contents(f[1]))):
                ts |= self.closure(st, split(st.contents(f[1])))
        return st.without(lambda f: f[0] == "open" and f[1] in ts)

    def escape(self, st, val):
        return self.drop(st, [val])

    def temp_path(self, t):
        for x in subterms(t):
            if x.k == "ext" and x.a[0].startswith("tempfile."):
                return True
            if x.k == "const" and isinstance(x.a[1], str) and (x.a[1].startswith("/dev/shm") or x.a[1].endswith((".tmp", ".temp"))):
                return True
        return False

    def on_call(self, it, call):
        l = self.lock_call(it, call)
        if l is not None:
            return l
        st, q = call.st, call.target.qual if call.target is not None else None
        if call.ext == "builtins.hasattr" and len(call.args) == 2 and len(call.args[0]) == 1 and one(call.args[1]).k == "const":
            if st.heap.get((one(call.args[0]), ("a", one(call.args[1]).a[1]))):
                return [(V(C(True)), st)]
        if call.ext == "builtins.getattr" and len(call.args) >= 2 and len(call.args[0]) == 1 and one(call.args[1]).k == "const":
            o, n = one(call.args[0]), one(call.args[1]).a[1]
            if o.k == "attr" and o.a[1] in self.m.tl:
                return [(st.heap.get((o, ("a", n))) or V(T("attr", o, n)), st)]
        if call.ext in ("builtins.setattr", "builtins.delattr") and len(call.args) >= 2 and len(call.args[0]) == 1 and one(call.args[1]).k == "const":
            o, n = one(call.args[0]), one(call.args[1]).a[1]
            if self.what == "restore" and isinstance(n, str):
                y = (self.mark(it, st, o, n, call.args[2] if len(call.args) == 3 else frozenset(), call.node) if self.m.cell(o, n, it.frame.func) else st).copy()
                if len(call.args) == 3:
                    y.heap[(o, ("a", n))] = call.args[2]
                else:
                    y.heap.pop((o, ("a", n)), None)
                return [(V(C(None)), y)]
        if self.what == "stack":
            if q in self.m.push:
                st = st.with_fact(("push", sum(1 for f in st.facts if f[0] == "push"), it.where(call.node)))
                return [(V(C(None)), st)]
            if q in self.m.pop:
                n = sum(1 for f in st.facts if f[0] == "push")
                if n:
                    st = st.without(lambda f: f[0] == "push" and f[1] == n - 1)
                else:
                    st = st.with_fact(("popped", sum(1 for f in st.facts if f[0] == "popped"), it.where(call.node)))
                return [(V(T("call", call.callee, (), (), call.site)), st)]
        if call.target is not None and q in self.inline:
            return None
        if self.what == "restore" and call.target is not None and call.target is not self.root and not is_cm(call.target) and any(g is call.target for g in self.cand):
            d, holders = self.summary(call.target)
            for (w, attr), (_, t) in d.items():
                h = holders.get((w, attr))
                for o in self.holder(it, call, h):
                    y = self.mark(it, st, o, attr, V(T("call", C("changed"), (), (), call.site)), call.node, w).copy()
                    if isinstance(call.node.func, ast.Attribute) and isinstance(call.node.func.value, ast.Name) and call.node.func.value.id == "self" or call.target.parent is not None:
                        self.holders.setdefault((w, attr), h)
                    y.heap[(o, ("a", attr))] = V(T("call", C("changed"), (), (), call.site))
                    st = y
            it.add_raise(T("exc", ("?",), 0), st)
            return [(V(T("call", call.callee, (), (), call.site)), st)]
        res = T("call", call.callee if isinstance(call.callee, T) else C(call.name), tuple(one(a) if len(a) == 1 else C("?") for a in call.args), (), call.site)
        if self.what == "resources":
            r = self.resource_call(it, call, res)
            if r is not None:
                return r
        return None

    def quiet_call(self, it, call):
        return self.quiet(it, call)

    def resource_call(self, it, call, res):
        st, q = call.st, call.target.qual if call.target is not None else None
        # release
        if call.recv is not None and call.name in RELEASE:
            return [(V(C(None)), self.drop(st, [call.recv]))]
        if call.ext in UNLINK and call.args:
            st = self.drop(st, [call.args[0]])
            it.add_raise(T("exc", ("OSError",), 0), st)
            return [(V(C(None)), st)]
        if call.recv is not None and call.name in ("unlink", "rename", "replace") and any(f in self.closure(st, split(call.recv)) or any(f is x for t in split(call.recv) for x in subterms(t)) for f in self.opened(st)):
            for t in split(call.recv):
                st = st.without(lambda f: f[0] == "open" and any(f[1] is x for x in subterms(t)))
            return [(V(C(None)), st)]
        # temporary files by path
        if not (call.ext or "").startswith(("os.path.", "tempfile.", "uuid.", "pathlib.")) and not self.reads(call):
            for v in call.all_args():
                for t in split(v):
                    if pathlike(t) and self.temp_path(t):
                        if call.target is None or call.cls is not None:
                            if not any(f[0] == "open" and f[1] is t for f in st.facts):
                                st = st.with_fact(("open", t, "temporary file", it.where(call.node)))
        kind = EXT_OPEN.get(call.ext or "")
        if kind is None and call.cls is not None and closable(self.p, call.cls):
            kind = "reader" if "Reader" in call.cls.name else "writer" if "Writer" in call.cls.name else call.cls.name
        if kind is None and call.target is not None and self.gives(call.target):
            kind = self.gives(call.target)
        if kind is None and call.recv is not None and call.target is None and call.name == "open":
            kind = "reader"
        if kind is not None:
            r = res
            if call.ext == "tempfile.NamedTemporaryFile" and "delete" in call.kwargs and one(call.kwargs["delete"]) is C(False):
                it.add_raise(T("exc", ("OSError",), 0), st)
                st = st.with_fact(("open", T("attr", r, "name"), "temporary file", it.where(call.node))).with_fact(("owns", T("attr", T("attr", r, "name"), "?"), r))
                return [(V(r), st.with_fact(("open", r, "file handle", it.where(call.node))))]
            if call.ext == "tempfile.mkdtemp":
                return [(V(r), st.with_fact(("open", r, kind, it.where(call.node))))]
            if call.cls is None:
                it.add_raise(T("exc", ("?",), 0), st)
            inner = set()
            for v in call.all_args():
                inner |= {t for t in split(v) if not pathlike(t)}
            st2 = st.with_fact(("open", r, kind, it.where(call.node)))
            if call.cls is not None or call.ext and call.ext[call.ext.rfind(".") + 1:][:1].isupper():
                for t in inner:
                    if t.k in ("call", "new", "item", "elem"):
                        st2 = st2.with_fact(("owns", r, t))
                if any(t in self.opened(st) for t in self.closure(st, inner)):
                    # the new object is responsible for what it was given
                    st2 = st2.without(lambda f: f[0] == "open" and f[1] in self.closure(st, inner))
                    if call.cls is not None:
                        return [(V(r), st2)]
                elif call.cls is not None and self.opened_name(call):
                    return [(V(r), st2)]
            return [(V(r), st2)]
        if call.name in ("append", "add", "extend", "insert", "put") and call.recv is not None and all(o.k == "new" for o in split(call.recv)):
            return None
        if call.name == "cast" and call.recv is not None:
            # pyarrow readers: the result wraps the reader
            r = res
            it.add_raise(T("exc", ("?",), 0), st)
            own_ = self.closure(st, split(call.recv))
            if any(t in self.opened(st) for t in own_):
                st = st.with_fact(("open", r, "reader", it.where(call.node))).without(lambda f: f[0] == "open" and f[1] in own_)
                for t in split(call.recv):
                    st = st.with_fact(("owns", r, t))
            return [(V(r), st)]
        if (call.ext or "").startswith("contextlib."):
            return [(V(res), st)]
        # handed to somebody else, who may keep it
        if not self.quiet(it, call) and not self.borrows(call):
            vals = [v for v in call.all_args()]
            ts = [t for t in self.closure(st, [t for v in vals for t in split(v)]) if t in self.opened(st)]
            st_before = st
            # paths are only read or written, not taken over
            ts = [t for t in ts if not self.temp_path(t) and not (t.k == "attr")]
            if ts:
                st = st.without(lambda f: f[0] == "open" and f[1] in ts)
            it.add_raise(T("exc", ("?",), 0), st_before)
            return [(V(res), st)] if call.target is None or q not in self.inline else None
        if st is not call.st:
            it.add_raise(T("exc", ("?",), 0), st)
            return [(V(res), st)]
        return None

    def opened_name(self, call):
        return True

    def gives(self, g, depth=0):
        """kind of resource a project function returns to its caller, by its declared result type"""
        r = getattr(g.node, "returns", None)
        if (r is None or isinstance(r, ast.Name) and r.id == "Any") and depth < 2 and g.name.startswith(("create_", "make_", "new_", "open_")):
            for n in own(g):
                if isinstance(n, ast.Return) and isinstance(n.value, ast.Call) and isinstance(n.value.func, (ast.Name, ast.Attribute)):
                    h = self.p.resolve_expr(n.value.func, g.module, g)
                    if h is not None and h[0] == "func" and self.gives(h[1], depth + 1):
                        return self.gives(h[1], depth + 1)
        if r is None:
            return None
        t = self.p.resolve_expr(r, g.module, g) if isinstance(r, (ast.Name, ast.Attribute)) else None
        if t is None and isinstance(r, ast.Constant) and isinstance(r.value, str):
            t = None
        if t is not None and t[0] == "class":
            c = t[1]
            if closable(self.p, c) and g.cls is not c:
                return "reader" if "Reader" in c.name else c.name
            if self.p.find_method(c, "shutdown") is not None and g.name.startswith(("create_", "make_", "new_", "open_")):
                return c.name
        return None

    def reads(self, call):
        """a call that reads an existing file"""
        if call.ext in ("builtins.open", "io.open"):
            md = call.arg(1, "mode")
            return md is None or all(t.k == "const" and isinstance(t.a[1], str) and not set(t.a[1]) & set("wax+") for t in split(md))
        return call.name in ("load", "stat", "exists", "getsize", "read", "read_bytes", "open_csv", "read_table") or self.quiet_name(call)

    def borrows(self, call):
        return call.name in ("load", "loads", "safe_load", "dump", "dumps", "run", "copyfileobj", "hasattr", "wait", "safe_dump", "next", "iter", "reader", "writer") or call.recv is not None and any(t in self.opened(call.st) for t in self.closure(call.st, split(call.recv)))

    def quiet_name(self, call):
        return call.name in QUIET_METHODS or call.name in QUIET

    def quiet(self, it, call):
        if call.target is not None and call.target.qual in self.m.push | self.m.pop:
            return True
        if call.ext:
            return call.ext.startswith(QUIET_EXT) and not call.ext.startswith(("builtins.open", "builtins.next", "builtins.exec", "builtins.eval", "builtins.int", "builtins.float", "builtins.__import__")) or call.name in RELEASE
        if call.recv is not None:
            return call.name in QUIET_METHODS or call.name in RELEASE
        if call.cls is not None:
            return False
        return call.name in QUIET

    def on_cond(self, it, term, truth, st, node, frame):
        if self.what == "resources" and term.k == "call" and not truth:
            e = term.a[0]
            n = e.a[0] if e.k == "ext" else e.a[1] if e.k in ("attr", "bound") and isinstance(e.a[1], str) else ""
            n = n.split(".")[-1]
            if n in ("exists", "isfile", "lexists") and term.a[1]:
                t = term.a[1][0]
                return st.without(lambda f: f[0] == "open" and f[1] is t)
            if n == "hasattr" and term.a[1] and isinstance(term.a[1][0], T):
                t = term.a[1][0]
                return st.without(lambda f: f[0] == "open" and f[1] is t)
        if self.what == "resources" and not truth and (term.k == "call" or term.k == "attr") and term in self.opened(st):
            return None
        if self.what == "resources" and term.k == "cmp" and term.a[0] == "is" and truth:
            if any(x in self.opened(st) for x in (term.a[1], term.a[2])) and any(x is C(None) for x in (term.a[1], term.a[2])):
                return None
        return st

    def on_enter(self, it, v, st, node, frame):
        st = super().on_enter(it, v, st, node, frame)
        if self.what == "resources":
            ts = self.closure(st, split(v))
            for t in split(v):
                # contextlib.closing(x) and the like
                if t.k == "call" and t.a[0].k == "ext" and t.a[0].a[0].startswith("contextlib."):
                    ts |= self.closure(st, [x for x in t.a[1] if isinstance(x, T)])
            st = st.without(lambda f: f[0] == "open" and f[1] in ts)
        return st

    def on_return(self, it, value, st, node, frame):
        return st


def pathlike(t):
    if t.k in ("fstr", "bin", "param"):
        return True
    return t.k == "call" and t.a[0].k == "ext" and t.a[0].a[0] in ("os.path.join", "os.path.abspath", "os.path.realpath", "builtins.str", "pathlib.Path", "os.fspath") or t.k == "attr" and t.a[1] == "name"


def nested(f):
    out = []
    for c in f.children.values():
        if hasattr(c, "children"):
            out.append(c)
            out += nested(c)
        else:
            for x in c.methods.values():
                out.append(x)
                out += nested(x)
    return out


def closable(p, c):
    return p.find_method(c, "close") is not None


# ------------------------------------------------------------------ rules
def callers(p, f):
    cg = call_graph(p)
    out = []
    for q, s in cg.items():
        g = p.functions.get(q)
        if g is None or g is f or f.qual not in s:
            continue
        if f.cls is not None and top(g).cls is not None and not any(c is f.cls for c in p.mro(top(g).cls)) and not any(c is top(g).cls for c in p.mro(f.cls)):
            continue
        if g.module is not f.module and f.cls is not None:
            continue
        if g is f.parent and not calls_name(g, f.name):
            continue
        out.append(g)
    return out


def calls_name(g, name):
    return any(isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == name or isinstance(n.func, ast.Attribute) and n.func.attr == name) for n in own(g)) or any(isinstance(n, (ast.With, ast.AsyncWith)) for n in own(g)) and any(isinstance(n, ast.Name) and n.id == name for n in own(g))


def is_cm(f):
    return any((d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "")) in ("contextmanager", "asynccontextmanager") for d in getattr(f.node, "decorator_list", ()))


def analyse(p, m, f, what, inline):
    cl = Scope(p, m, f, what, inline)
    rets, raises = Engine(p, cl).run(f, self_cls=f.cls if f.cls is not None else None)
    return cl, rets, raises


def interesting(p, m, f, pred):
    """functions called (transitively, same module or class) from f that satisfy pred or lead to such a one"""
    cg = call_graph(p)
    memo = {}

    def go(q, d):
        if q in memo:
            return memo[q]
        memo[q] = False
        g = p.functions.get(q)
        if g is None or d > 4 or g.module is not f.module:
            return False
        r = pred(g)
        for h in cg.get(q, ()):
            if go(h, d + 1):
                r = True
        memo[q] = r
        return r

    go(f.qual, 0)
    return {q for q, r in memo.items() if r} - {f.qual} - m.submitted


def writes_cell(m, g):
    """A store of the function itself may be to a scoped cell (decided precisely by the path analysis)."""
    for n in own(g):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
            if isinstance(n.value, ast.Attribute) and n.value.attr in m.tl or isinstance(n.value, ast.Name) and n.value.id in m.tl:
                return True
            if n.attr in m.idiom and any(h.module is g.module for h, _, _ in m.idiom[n.attr]):
                return True
            t = top(g)
            if not (isinstance(n.value, ast.Name) and n.value.id == "self"):
                if t.qual in m.handlers:
                    return True
                if t.cls is not None and any(c.name in ("AbstractInterpreter", "Context") for c in m.p.mro(t.cls)):
                    return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and n.args and isinstance(n.args[0], ast.Attribute) and n.args[0].attr in m.tl:
            return True
    return False


def dirty(rets, raises):
    """{(where, attr): (message, holder expression)} of the cells left changed on some exit"""
    out = {}
    for kind, lst in (("returns", rets), ("ends by an exception", raises)):
        for v, st in lst:
            for f in st.facts:
                if f[0] == "dirty":
                    out.setdefault((f[3], f[2]), (f"{show(f[1])[-50:]}.{f[2]} is left changed when the function {kind}", f[1]))
    return out


def restore(p, rep, m):
    cand = [f for f in list(p.functions.values()) if not isinstance(f.node, ast.Lambda) and f.name not in ("__init__", "__post_init__", "__setstate__", "__enter__", "__exit__") and f.qual not in m.submitted and writes_cell(m, f) and f.module.name.startswith(("mplang.runtime", "mplang.backends", "mplang.edsl", "mplang.libs", "mplang.dialects"))]
    done = {}

    def summary(f):
        if f.qual not in done:
            done[f.qual] = ({}, {})
            inl = {q for q in interesting(p, m, f, lambda g: writes_cell(m, g)) if small(p.functions[q])}
            cl = Scope(p, m, f, "restore", inl)
            cl.summary = summary
            cl.cand = cand
            rets, raises = Engine(p, cl).run(f, self_cls=f.cls)
            rep.saw(f.qual, *inl)
            done[f.qual] = (dirty(rets, raises), cl.holders)
        return done[f.qual]

    def check(f, depth, seen):
        d = {} if is_cm(f) else summary(f)[0]
        if not d and not is_cm(f):
            return None
        here = next(iter(d.items()), None)
        bad = (here[0][0], here[1][0]) if here else None
        if depth < 4 and (f.name.startswith("_") or f.parent is not None or is_cm(f)):
            cs = [c for c in callers(p, f) if c.qual not in seen and c.qual not in m.submitted]
            if f.parent is not None and not cs:
                cs = [f.parent]
            if cs:
                for c in cs:
                    r = check(c, depth + 1, seen | {f.qual})
                    if r is not None:
                        return r
                return None
        return bad

    for f in cand:
        bad = check(f, 0, frozenset())
        rep.check(bad is None, "restore", f.qual.removeprefix("mplang."), bad[0] if bad else f.where, bad[1] if bad else "restored on every exit")
    if not cand:
        rep.notes.append("no function writes scoped state")


def small(g):
    return is_cm(g) or len(list(ast.walk(g.node))) < 120 and not any(isinstance(n, (ast.For, ast.While)) for n in ast.walk(g.node))


def stack(p, rep, m):
    if not m.lists:
        rep.notes.append("no module-level context stack found")
        rep.ok("stack", "context stack", "no stack kept in a module-level list")
        return
    cg = call_graph(p)
    for f in list(p.functions.values()):
        if f.qual in m.push or f.qual in m.pop:
            continue
        direct = {x for x in (m.push | m.pop) if x in cg.get(f.qual, ())}
        if not direct:
            continue
        if any(n.id == k[1] for k in m.lists if k[0] == f.module.name for n in own(f) if isinstance(n, ast.Name)):
            continue  # part of the stack's own module: set-up, not a scope
        inl = interesting(p, m, f, lambda g: bool((m.push | m.pop) & cg.get(g.qual, set())))
        if f.name == "__exit__":
            cl, rets, raises = analyse(p, m, f, "stack", inl)
            bad = None
            for v, st in rets:
                if sum(1 for x in st.facts if x[0] == "popped") != 1:
                    bad = bad or (f.where, "leaving the with-statement does not pop the context on some path")
                if any(t.k == "const" and t.a[1] is True for t in split(v)):
                    bad = bad or (f.where, "the with-statement swallows exceptions")
            rep.check(bad is None, "stack", f.qual.removeprefix("mplang."), bad[0] if bad else f.where, bad[1] if bad else "pops on every path")
            rep.saw(f.qual)
            continue
        cl, rets, raises = analyse(p, m, f, "stack", inl)
        rep.saw(f.qual)
        if f.name == "__enter__":
            bad = None
            for v, st in rets:
                if sum(1 for x in st.facts if x[0] == "push") != 1:
                    bad = (f.where, "entering the with-statement does not push the context exactly once")
            rep.check(bad is None, "stack", f.qual.removeprefix("mplang."), bad[0] if bad else f.where, bad[1] if bad else "pushes once")
            continue
        if is_cm(f):
            continue
        bad = None
        for kind, lst in (("return", rets), ("exception", raises)):
            for v, st in lst:
                left = [x for x in st.facts if x[0] == "push"]
                if left:
                    bad = bad or (left[0][2], f"the context pushed here stays on the stack when the function ends by {kind}")
                if any(x[0] == "popped" for x in st.facts):
                    bad = bad or (f.where, "a context is popped that the function did not push")
        rep.check(bad is None, "stack", f.qual.removeprefix("mplang."), bad[0] if bad else f.where, bad[1] if bad else "balanced")
    # the pair __enter__ / __exit__
    for c in p.classes.values():
        e, x = c.methods.get("__enter__"), c.methods.get("__exit__")
        if e is None or not (m.push & cg.get(e.qual, set())):
            continue
        rep.check(x is not None and bool(m.pop & cg.get(x.qual, set())), "stack", f"{c.name} as context manager", x.where if x is not None else e.where, "the context pushed on entry is popped on exit" if x is not None and m.pop & cg.get(x.qual, set()) else "the context pushed on entry is not popped on exit")


def opens_something(p, m, f):
    for n in own(f):
        if not isinstance(n, ast.Call):
            continue
        d = dotted_of(p, n.func, f.module, f)
        if d in EXT_OPEN:
            return True
        r = p.resolve_expr(n.func, f.module, f) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
        if r is not None and r[0] == "class" and closable(p, r[1]):
            return True
        if r is not None and r[0] == "func" and Scope(p, m, f, "x").gives(r[1]):
            return True
        if isinstance(n.func, ast.Attribute) and n.func.attr == "open" and d is None:
            return True
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("unlink", "remove") and d in UNLINK:
            return True
        if d is not None and d.startswith("tempfile.") or any(isinstance(x, ast.Constant) and isinstance(x.value, str) and (x.value.startswith("/dev/shm") or x.value.endswith(".tmp")) for x in ast.walk(n)):
            return True
    return False


def resources(p, rep, m):
    cand = [f for f in list(p.functions.values()) if not isinstance(f.node, ast.Lambda) and opens_something(p, m, f) and not is_cm(f)]
    for f in cand:
        if f.name in ("__init__", "__enter__"):
            continue
        inl = interesting(p, m, f, lambda g: helper_of_resources(p, g))
        cl, rets, raises = analyse(p, m, f, "resources", inl)
        rep.saw(f.qual, *inl)
        cap = captured_terms(f)
        bad, n = None, 0
        for kind, lst in (("returns", rets), ("ends by an exception", raises)):
            for v, st in lst:
                if isinstance(v, T) and v.k == "exc" and v.a[0] == ("ImportError",):
                    continue
                opened = cl.opened(st)
                if not opened:
                    continue
                keep = cl.closure(st, split(v)) if kind == "returns" else set()
                for t, fact in opened.items():
                    if t in keep or any(t in subterms(x) for x in keep if x.k != "const") and kind == "returns":
                        continue
                    if any(t in split(val) for (fid, nm), val in st.env.items() if nm in cap):
                        continue
                    if fact[2] == "temporary file" and kind == "returns" and not removes(p, f, inl):
                        continue
                    bad = bad or (fact[3], f"the {fact[2]} opened here is not {'removed' if 'temporary' in fact[2] else 'closed'} when {f.name} {kind}")
        rep.check(bad is None, "resources", f.qual.removeprefix("mplang."), bad[0] if bad else f.where, bad[1] if bad else "closed or handed on on every path")
    # locks
    for f in list(p.functions.values()):
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "acquire" for n in own(f)) and f.name not in ("__enter__", "acquire", "__init__"):
            cl, rets, raises = analyse(p, m, f, "locks", ())
            bad = None
            for v, st in [*rets, *raises]:
                if cl.held(st):
                    bad = (f.where, f"{show(next(iter(cl.held(st))))} stays locked on some exit")
            rep.check(bad is None, "locks", f.qual.removeprefix("mplang."), bad[0] if bad else f.where, bad[1] if bad else "released")


def removes(p, f, inl):
    return True


def helper_of_resources(p, g):
    """small helpers that release or name resources"""
    for n in own(g):
        if isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else ""
            if nm in ("unlink", "remove", "replace"):
                return True
            if nm in RELEASE and g.name not in RELEASE and g.cls is None:
                return True
            if nm in ("gettempdir", "uuid4", "mkstemp"):
                return True
    return False


def captured_terms(f):
    return {n.id for c in nested(f) for n in own(c) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)} | {n.id for n in own(f) if isinstance(n, ast.Lambda) for x in [n] for n in ast.walk(x) if isinstance(n, ast.Name)}


def private(p, rep, m):
    # thread-local cells are private; per-request state must be created per request
    for a in sorted(m.tl):
        rep.ok("private", f"thread-local {a}", "one value per thread")
    for k in sorted(m.lists):
        rep.bad("private", f"{k[0].removeprefix('mplang.')}.{k[1]}", where(p.modules[k[0]], next(n for n in p.modules[k[0]].tree.body if isinstance(n, (ast.Assign, ast.AnnAssign)) and any(isinstance(t, ast.Name) and t.id == k[1] for t in (n.targets if isinstance(n, ast.Assign) else [n.target])))), f"{k[0]}.{k[1]} is one stack for all threads: contexts entered by concurrent threads interleave")
    made = {}     # class -> functions constructing it
    for n, mod, f in all_nodes(p, ast.Call):
        r = p.resolve_expr(n.func, mod, f) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
        if r is not None and r[0] == "class":
            made.setdefault(r[1].qual, []).append((n, mod, f))
    interp = {q for q, c in p.classes.items() if any(x.name == "AbstractInterpreter" for x in p.mro(c)) and c.name != "AbstractInterpreter"}
    per_request = {f.qual for q in interp for n, mod, f in made.get(q, ()) if f is not None and any(k.arg == "comm_ctx" for k in n.keywords)}
    cells = {}
    for attr, uses in m.idiom.items():
        for f, holder, w in uses:
            if isinstance(holder, ast.Attribute) and holder.attr in m.tl or isinstance(holder, ast.Name) and holder.id in m.tl:
                continue
            cells.setdefault(attr, []).append((f, holder, w))
    for attr, uses in sorted(cells.items()):
        classes = [c for c in p.classes.values() if c.module.name.startswith("mplang.backends") and sets_attr(c, attr)]
        for c in classes:
            if not any(top(f).qual in m.handlers or f.module.name.startswith("mplang.backends") for f, _, _ in uses):
                continue
            sites = made.get(c.qual, [])
            wrong = [(n, mod, f) for n, mod, f in sites if f is None or f.qual not in per_request and per_request and not builds_interp(p, f, interp)]
            rep.check(not wrong, "private", f"{c.name}.{attr}", where(wrong[0][1], wrong[0][0]) if wrong else c.where if hasattr(c, "where") else uses[0][2], f"{c.name}, whose {attr} is scoped state, is created outside the set-up of a request's interpreter: requests would share it" if wrong else "created per request")
        # on an interpreter itself: evaluated by several threads
        for f, holder, w in uses:
            t = top(f)
            while isinstance(holder, ast.Attribute):
                holder = holder.value
            if isinstance(holder, ast.Name) and holder.id == "self" and t.cls is not None and t.cls.qual in interp:
                rep.bad("private", f"{t.cls.name}.{attr}", w, f"{attr} is kept on the interpreter itself, which several threads use at the same time")
    # concurrent operations do not write state shared by the request
    impls = {c: f for c, f, _, _ in impl_entries(p) if f is not None}
    for n, mod, f in all_nodes(p, (ast.Assign, ast.AnnAssign)):
        ts = n.targets if isinstance(n, ast.Assign) else [n.target]
        nm = next((t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else "" for t in ts), "")
        if "async_ops" not in nm.lower() or n.value is None:
            continue
        codes = [x.value for x in ast.walk(n.value) if isinstance(x, ast.Constant) and isinstance(x.value, str)]
        bad = None
        for c in codes:
            g = impls.get(c)
            if g is not None and any(writes_cell(m, h) for h in [g, *nested(g)]):
                bad = f"{c} runs concurrently with other operations of its request and changes state they share"
        if codes:
            rep.check(bad is None, "private", f"concurrent operations of {mod.name.removeprefix('mplang.')}", where(mod, n), bad or "none writes scoped state")


def builds_interp(p, f, interp):
    return any(isinstance(n, ast.Call) and (lambda r: r is not None and r[0] == "class" and r[1].qual in interp)(p.resolve_expr(n.func, f.module, f) if isinstance(n.func, (ast.Name, ast.Attribute)) else None) for n in own(f))


def sets_attr(c, attr):
    i = c.methods.get("__init__")
    return i is not None and any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == attr and isinstance(n.value, ast.Name) and n.value.id == "self" for n in ast.walk(i.node))


def managers(p, rep):
    for f in list(p.functions.values()):
        if not is_cm(f):
            continue
        bad = None

        def block(stmts, after, protected):
            nonlocal bad
            for i, s in enumerate(stmts):
                rest = stmts[i + 1:]
                has = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s))
                if not has:
                    continue
                work = [x for x in rest if not isinstance(x, (ast.Return, ast.Pass)) and any(isinstance(y, (ast.Call, ast.Assign, ast.Delete, ast.AugAssign)) for y in ast.walk(x))]
                if isinstance(s, ast.Try):
                    block(s.body, after + work, protected or bool(s.finalbody))
                    continue
                if isinstance(s, (ast.With, ast.AsyncWith)):
                    block(s.body, after + work, protected)
                    continue
                if isinstance(s, (ast.If, ast.For, ast.While)):
                    block(s.body, after + work, protected)
                    block(s.orelse, after + work, protected)
                    continue
                w = after + work
                if w:
                    bad = bad or (where(f.module, w[0]), "what follows the yield is skipped when the body of the with-statement raises")
        block(f.node.body, [], False)
        rep.saw(f.qual)
        rep.check(bad is None, "managers", f.qual.removeprefix("mplang."), bad[0] if bad else f.where, bad[1] if bad else "cleanup in finally")
