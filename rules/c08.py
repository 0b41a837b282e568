"""C08: graph execution respects data dependencies under any scheduling.

The graph evaluators are found by what they do: a function that walks `<graph>.operations` and dispatches each
operation to its implementation with `*args`. The sequential one is analysed as a whole; the concurrent one is
analysed function by function (set-up and main loop, start of one operation, task body, completion), with the state
they share named by the cells (closure variables or attributes) through which they share it.
"""
from __future__ import annotations

import ast

from rules.common import all_nodes, strip_sites, where
from rules.locks import LockClient
from sa.engine import C, Engine, T, V, one, show, split, subterms

RULES = {
    "bind": "the graph's inputs are bound to the given values one to one",
    "once": "every operation of the graph is dispatched exactly once, in graph order or when it is ready",
    "operands": "an operation receives all its operands, in declared order, and itself as second argument",
    "results": "every declared result of an operation is stored under its own value",
    "release": "a value is dropped only when its count of remaining consumers, graph outputs included, has reached zero",
    "outputs": "the graph's outputs are returned completely and in declared order",
    "same": "both evaluators choose an operation's implementation in the same way",
    "errors": "an exception of an operation is not turned into a normal continuation",
}
ASYNC = {
    "ready": "an operation is made ready only when its last missing operand has been stored, and then always",
    "pending": "an operation waits for as many results as there are registrations of it as a consumer",
    "lock": "completions run on executor threads: they touch the shared state under one lock",
    "finish": "the end is announced exactly when the last operation completed, after its results are stored",
    "wake": "every failure of a started operation reaches the waiting main loop, which raises it",
    "eager": "an eagerly bound operation is executed unless tracing it recorded nothing",
    "nested": "no operation handed to the executor waits for other operations of the same executor",
}


def run(p, rep, tier):
    for k, v in RULES.items():
        rep.rule(k, v, 1)
    for k, v in ASYNC.items():
        rep.rule(k, v, 0)
    ev = [f for f in p.functions.values() if f.module.name.startswith("mplang.runtime") and f.parent is None and walks_ops(f) and family_dispatches(p, f)]
    styles = {}
    n_sync = n_async = 0
    for f in ev:
        fam = family(p, f)
        waits = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("submit", "add_done_callback") for g in fam for n in ast.walk(g.node))
        if waits:
            n_async += 1
            Async(p, rep, f, fam, styles).check()
        else:
            n_sync += 1
            sequential(p, rep, f, styles)
    if not n_sync:
        rep.notes.append("no sequential evaluator found")
    if not n_async:
        rep.notes.append("no concurrent evaluator found: the concurrency rules have nothing to check")
    if len(styles) > 1:
        vals = {frozenset(v) for v in styles.values()}
        rep.check(len(vals) == 1, "same", "choice of implementation", next(iter(ev)).where, "; ".join(f"{k}: {', '.join(sorted(v))}" for k, v in styles.items()))
    else:
        rep.ok("same", "choice of implementation", "only one evaluator")
    nested(p, rep)
    eager(p, rep)


# ------------------------------------------------------------------ discovery
def own_nodes(f):
    out, st = [], list(f.node.body) if isinstance(f.node.body, list) else [f.node.body]
    while st:
        n = st.pop()
        out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st += list(ast.iter_child_nodes(n))
    return out


def walks_ops(f):
    """A loop of the function itself runs over <something>.operations."""
    for n in own_nodes(f):
        if isinstance(n, (ast.For, ast.While)):
            if any(isinstance(x, ast.Attribute) and x.attr == "operations" for x in ast.walk(n.iter if isinstance(n, ast.For) else n.test)):
                return True
    return any(isinstance(n, ast.Assign) and any(isinstance(x, ast.Attribute) and x.attr == "operations" for x in ast.walk(n.value)) for n in own_nodes(f)) and any(isinstance(n, (ast.For, ast.While)) for n in own_nodes(f))


def is_dispatch(n):
    return isinstance(n, ast.Call) and len(n.args) >= 2 and isinstance(n.args[-1], ast.Starred) and not isinstance(n.args[0], ast.Starred) and isinstance(n.args[0], ast.Name) and n.args[0].id == "self"


def called(p, f):
    out = []
    for n in own_nodes(f):
        if not isinstance(n, ast.Call):
            continue
        if isinstance(n.func, ast.Name):
            h, g = f, None
            while h is not None and g is None:
                g = h.children.get(n.func.id)
                h = h.parent
            if g is not None:
                out.append(g)
        elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and f.cls is not None:
            g = p.find_method(f.cls, n.func.attr)
            if g is not None:
                out.append(g)
        elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self":
            h = f
            while h is not None and h.cls is None:
                h = h.parent
            g = p.find_method(h.cls, n.func.attr) if h is not None else None
            if g is not None:
                out.append(g)
    return out


def nested_of(f):
    out = []
    for c in f.children.values():
        out.append(c)
        out += nested_of(c)
    return out


def family(p, f):
    fam, todo = [], [f]
    while todo:
        g = todo.pop()
        if g in fam or g.module is not f.module or (g is not f and g.parent is None and walks_ops(g)):
            continue
        fam.append(g)
        todo += nested_of(g) + called(p, g)
    return fam


def family_dispatches(p, f):
    return any(is_dispatch(n) for g in family(p, f) for n in own_nodes(g))


# ------------------------------------------------------------------ recording client
def base(t):
    """op for op.inputs / elem(...) chains"""
    return t


def home(f):
    """the class a function belongs to, nested functions included"""
    while f is not None and f.cls is None:
        f = f.parent
    return f.cls if f is not None else None


class Rec(LockClient):
    """Records stores, reads, releases, dispatches, queue operations as ordered facts of a path."""

    path_sensitive = True
    max_states = 200

    def __init__(self, p, inline=lambda g: True):
        super().__init__(p)
        self.inline = inline
        self.iters = []      # (loop node, kind, st) at the end of iterations over operations
        self.breaks = []
        self.raised = set()
        self.loops = set()

    def should_inline(self, it, g, call):
        return self.inline(g)

    def ev(self, it, st, node, *a):
        key = (*a, it.where(node))
        if any(f[0] == "ev" and f[2] == key for f in st.facts):
            return st
        n = sum(1 for f in st.facts if f[0] == "ev")
        return st.with_fact(("ev", n, key, frozenset(self.held(st))))

    def on_getitem(self, it, obj, idx, st, node, frame):
        if len(obj) == 1 and len(idx) == 1 and any(x.k == "elem" for x in subterms(one(idx))) and one(obj).k in ("new", "param", "call", "attr"):
            it.add_raise(T("exc", ("KeyError",), 0), st)
            st = self.ev(it, st, node, "get", one(obj), one(idx))
            return [(V(T("item", one(obj), one(idx))), st)]
        return None

    def on_setitem(self, it, obj, idx, val, st, node, frame):
        for o in split(obj):
            for i in split(idx):
                for v in split(val):
                    st = self.ev(it, st, node, "set", o, i, v)
        return st

    def on_delitem(self, it, obj, idx, st, node, frame):
        for o in split(obj):
            for i in split(idx):
                st = self.ev(it, st, node, "del", o, i)
        return st

    def on_call(self, it, call):
        l = self.lock_call(it, call)
        if l is not None:
            return l
        st = call.st
        if is_dispatch(call.node):
            seqs = [x for a in call.args for t in split(a) for x in [t] if t.k == "star"]
            ops = [t for t in split(call.args[1])]
            src = one(call.callee) if call.callee is not None else C(call.name)
            starred = one(V(*seqs)) if seqs else C(None)
            res = T("call", src, tuple(one(a) for a in call.args), (), call.site)
            seq = seqs[0].a[0] if seqs else None
            elems = tuple(sorted((x for x in split(st.slots(seq).get("*", frozenset()))), key=show)) if seq is not None else ()
            filt = seq is not None and bool(split(st.slots(seq).get("filtered", frozenset())))
            over = tuple(split(st.slots(seq).get("over", frozenset()))) if seq is not None else ()
            st = self.ev(it, st, call.node, "disp", ops[0] if ops else C(None), src, seq, elems, filt, over, res)
            it.add_raise(T("exc", ("?",), 0), st)
            return [(V(res), st)]
        if call.name in ("pop", "popitem", "clear") and call.recv is not None:
            for o in split(call.recv):
                for i in (split(call.args[0]) if call.args else [C("*")]):
                    st = self.ev(it, st, call.node, "del", o, i)
            if call.name == "pop" and len(call.args) == 1 and len(call.recv) == 1:
                it.add_raise(T("exc", ("KeyError",), 0), call.st)
                return [(V(T("item", one(call.recv), one(call.args[0]))), st)]
            return [(V(T("call", one(call.callee) if call.callee is not None else C("pop"), tuple(one(a) for a in call.args), (), call.site)), st)]
        if call.name == "get" and call.recv is not None and len(call.args) == 2 and len(call.recv) == 1 and one(call.recv).k in ("param", "attr"):
            d = one(call.args[1])
            if d.k in ("tup", "new") and not split(st.contents(d) if d.k == "new" else frozenset()) and not (d.k == "tup" and d.a[0]):
                k = one(call.args[0])
                st = self.ev(it, st, call.node, "get", one(call.recv), k)
                return [(V(T("item", one(call.recv), k)), st)]
        if call.name in ("put", "put_nowait") and call.recv is not None and call.args:
            for i in split(call.args[0]):
                st = self.ev(it, st, call.node, "put", one(call.recv), i)
            return [(V(C(None)), st)]
        if call.name in ("append", "add") and call.recv is not None and call.args and any(x.k == "elem" for x in subterms(one(call.recv))):
            st = st.with_fact(("ev", sum(1 for f in st.facts if f[0] == "ev"), ("append", one(call.recv), one(call.args[0]), (it.where(call.node), sum(1 for f in st.facts if f[0] == "ev"))), frozenset(self.held(st))))
            return [(V(C(None)), st)]
        if call.ext in ("builtins.reversed", "builtins.set", "builtins.frozenset", "builtins.sorted") and len(call.args) == 1:
            a = one(call.args[0])
            if a.k in ("attr", "item", "param", "call"):
                return [(V(T("call", T("ext", call.ext.replace("builtins.", "order.")), (a,), (), call.site)), st)]
        if call.name == "zip":
            strict = "strict" in call.kwargs and one(call.kwargs["strict"]) is C(True)
            if not strict:
                st = self.ev(it, st, call.node, "zip", tuple(one(a) for a in call.args))
                return None if st is call.st else [(V(T("call", T("ext", "builtins.zip"), tuple(one(a) for a in call.args), tuple(), call.site)), st)]
        return self.extra(it, call)

    def extra(self, it, call):
        return None

    def on_loop(self, it, kind, iv, st, node, frame):
        if iv:
            for t in split(iv):
                self.loops.add(t)
                st = self.ev(it, st, node, "loop", t)
        return st

    def on_iter(self, it, st, node, frame):
        if self.over_ops(node):
            return st.without(lambda f: f[0] == "ev")
        return st

    def over_ops(self, node):
        return isinstance(node, ast.For) and any(isinstance(x, ast.Attribute) and x.attr == "operations" for x in ast.walk(node.iter))

    def on_iter_end(self, it, st, node, frame, kind):
        if self.over_ops(node):
            self.iters.append((node, kind, st))
        if kind == "break":
            self.breaks.append((it.where(node), node))
        return st

    def on_handler(self, it, exc, st, node, frame):
        top = frame
        while getattr(top, "caller", None) is not None:
            top = top.caller
        a, b = home(frame.func), home(top.func)
        if a is not None and b is not None and a is not b:
            return st  # another object's own business (a profiler that fails to write its file)
        return self.ev(it, st, node, "caught")

    def on_raise(self, it, exc, st, node, frame):
        e = node.exc if isinstance(node, ast.Raise) else None
        if isinstance(e, (ast.Name, ast.Attribute, ast.Subscript)):
            for v, _ in it.eval(e, st):
                self.raised |= set(split(v))
        return st


def events(st, *kinds):
    return [(f[1], *f[2], f[3]) for f in sorted((f for f in st.facts if f[0] == "ev"), key=lambda f: f[1]) if not kinds or f[2][0] in kinds]


def of(t, attr):
    """X when t is X.attr"""
    return t.a[0] if t.k == "attr" and t.a[1] == attr else None


def elem_of(t, attr):
    """X when t is an element of X.attr (all of it, in order)"""
    if t.k == "elem":
        return of(t.a[0], attr)
    return None


def mentions(t, x):
    return any(y is x for y in subterms(t))


def size_range(st, coll):
    """What the path's conditions say about len(coll): (low, high or None)."""
    lo, hi, ne = 0, None, set()
    for c, tr in st.conds.items():
        if c is coll or c.k == "call" and show(c.a[0]).endswith("len") and c.a[1] and c.a[1][0] is coll:
            if tr:
                lo = max(lo, 1)
            else:
                hi = 0
            continue
        if c.k != "cmp":
            continue
        x, y = c.a[1], c.a[2]
        def is_len(t):
            return t.k == "call" and show(t.a[0]).endswith("len") and t.a[1] and t.a[1][0] is coll
        if is_len(x) and y.k == "const" and isinstance(y.a[1], int):
            k = y.a[1]
            if c.a[0] == "==":
                if tr:
                    lo, hi = max(lo, k), k if hi is None else min(hi, k)
                else:
                    ne.add(k)
            elif c.a[0] == "<":
                if tr:
                    hi = k - 1 if hi is None else min(hi, k - 1)
                else:
                    lo = max(lo, k)
        elif is_len(y) and x.k == "const" and isinstance(x.a[1], int):
            k = x.a[1]
            if c.a[0] == "==":
                if tr:
                    lo, hi = max(lo, k), k if hi is None else min(hi, k)
                else:
                    ne.add(k)
            elif c.a[0] == "<":
                if tr:
                    lo = max(lo, k + 1)
                else:
                    hi = k if hi is None else min(hi, k)
    while lo in ne:
        lo += 1
    while hi is not None and hi in ne and hi >= 0:
        hi -= 1
    return lo, hi


def only_one(st, coll):
    return size_range(st, coll) == (1, 1)


def empty(st, coll):
    return size_range(st, coll)[1] == 0


def stored(st, env, op, res):
    """None when the results of op are stored as declared on this path, else what is wrong; '' when undecided."""
    outs = T("attr", op, "outputs")
    sets = [e for e in events(st, "set") if is_cell(e[2], env)]
    for e in sets:
        i, v = e[3], e[4]
        if res is not None and not mentions(v, res):
            if v.k in ("const",):
                return f"{show(v)} is stored as a result of the operation", e[-2]
            continue
        if i.k == "item" and i.a[0] is outs:
            k = i.a[1]
            whole = v is res
            if whole and not only_one(st, outs):
                return "all results together are stored under one of several values", e[-2]
            if v.k == "item" and v.a[0] is res and v.a[1] is not k:
                return f"result {show(v.a[1])} is stored under value {show(k)}", e[-2]
        elif i.k == "elem":
            if i.a[0] is not outs:
                return f"results are stored under {show(i)[:60]}, not under all of the operation's values in order", e[-2]
            if v is res and not only_one(st, outs):
                return "all results together are stored under each of several values", e[-2]
            if v.k == "elem" and v.a[0] is not res and mentions(v, res) and v.a[0].k == "call" and any(w in show(v.a[0].a[0]) for w in ("reversed", "sorted", "set")):
                return f"the results are stored in the order of {show(v.a[0])[:60]}", e[-2]
            if v.k == "elem" and v.a[0].k in ("item", "slice") and mentions(v.a[0], res):
                return f"only {show(v.a[0])[:60]} of the results is stored", e[-2]
    for e in events(st, "zip"):
        if outs in e[2] and not any(c.k == "cmp" and any(mentions(c, x) for x in [T("call", T("ext", "builtins.len"), (outs,), (), None)]) for c in ()) and not length_checked(st, outs, res):
            return "more or fewer results than declared are accepted silently (zip without strict)", e[-2]
    if not sets and not empty(st, outs):
        if not any(mentions(e[2], outs) for e in events(st, "loop")):
            return "the results of the operation are not stored", None
    return None


def length_checked(st, outs, res):
    for c in st.conds:
        if c.k == "cmp" and c.a[0] == "==":
            ls = [x for x in subterms(c) if x.k == "call" and show(x.a[0]).endswith("len") and x.a[1]]
            if any(x.a[1][0] is outs for x in ls) and any(mentions(x.a[1][0], res) for x in ls if x.a[1][0] is not outs):
                return True
    return False


def is_cell(t, name):
    if isinstance(name, T):
        return t is name
    return cell(t) == name


def cell(t):
    if t.k == "param":
        return t.a[1]
    if t.k == "attr" and t.a[0].k == "param" and t.a[0].a[1] == "self":
        return "self." + t.a[1]
    return None


def releases(st, env, rem, op):
    """What is wrong with the releases on this path."""
    ins = T("attr", op, "inputs")
    evs = events(st)
    for e in evs:
        if e[1] != "del" or not is_cell(e[2], env):
            continue
        k = e[3]
        if elem_of(k, "inputs") is not op:
            return f"{show(k)[:60]} is dropped, which is not an operand of the operation that completed", e[-2]
        decs = [d for d in evs if d[1] == "set" and d[3] is k and d[0] < e[0] and d[4].k == "bin"]
        # the count must have been tested
        zero = False
        for c, tr in st.conds.items():
            if c.k != "cmp" and not tr and any(x.k == "item" and x.a[1] is k and not is_cell(x.a[0], env) for x in subterms(c)) and c.k == "item":
                zero = True
            if c.k == "cmp" and any(x.k == "item" and x.a[1] is k and not is_cell(x.a[0], env) for x in subterms(c)):
                kc = [y.a[1] for y in c.a[1:] if y.k == "const"]
                if kc and (c.a[0] == "==" and kc[0] == 0 and tr or c.a[0] == "==" and kc[0] == 1 and tr and not decs):
                    zero = True
                if kc and c.a[0] == "<" and c.a[1].k != "const" and kc[0] == 1 and tr or kc and c.a[0] == "<" and c.a[1].k == "const" and kc[0] == 0 and not tr:
                    zero = True
        if not zero:
            return "an operand is dropped without its count of remaining consumers being zero: later consumers, or the caller, still need it", e[-2]
    # one decrement per occurrence
    seen = {}
    for d in evs:
        if d[1] == "set" and elem_of(d[3], "inputs") is op and d[4].k == "bin" and d[4].a[0] == "Sub":
            if d[4].a[2] is not C(1) or not (d[4].a[1].k == "item" and d[4].a[1].a[1] is d[3]):
                return f"the count of remaining consumers changes to {show(d[4])[:60]}", d[-2]
            if (d[2], d[3]) in seen and seen[d[2], d[3]] != d[-2]:
                return "the count of remaining consumers is reduced twice for one use", d[-2]
            seen[d[2], d[3]] = d[-2]
    return None


# ------------------------------------------------------------------ sequential
def sequential(p, rep, f, styles):
    rep.saw(f.qual)
    cl = Rec(p, lambda g: g.module is f.module and not walks_ops_dispatch(p, g) and not recursive(p, g))
    rets, raises = Engine(p, cl).run(f, self_cls=f.cls)
    for q in getattr(cl, "seen", ()):
        rep.saw(q)
    env, graph = outputs(rep, f, rets)
    if env is None:
        return
    bind(p, rep, f, rets, env, graph)
    opsT = T("attr", graph, "operations")
    op = T("elem", opsT)
    ends = [(n, k, st) for n, k, st in cl.iters if any(e[1] == "disp" for e in events(st)) or True]
    ends = [(n, k, st) for n, k, st in ends if any(is_dispatch(x) or True for x in ast.walk(n))]
    loops = {n for n, k, st in cl.iters if any(e[1] == "disp" for e in events(st))}
    ends = [(k, st) for n, k, st in cl.iters if n in loops]
    # once
    bad = None
    for n in loops:
        it = {e for e in ()}
        src = n.iter
        txt = ast.unparse(src)
        if any(isinstance(x, (ast.Subscript, ast.Slice)) for x in ast.walk(src)) or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("reversed", "set", "filter", "sorted", "islice") for x in ast.walk(src)):
            bad = bad or (where(f.module, n), f"the operations run are those of {txt}, not the graph's in order")
    for k, st in ends:
        d = events(st, "disp")
        if k == "break":
            bad = bad or (d[-1][-2] if d else f.where, "the loop over the operations can be left before the last one")
        elif len(d) > 1:
            bad = bad or (d[1][-2], "an operation is dispatched twice")
        elif not d:
            bad = bad or (f.where, "an operation is skipped on some path: it is never dispatched")
        for x in d:
            if x[2] is not op:
                bad = bad or (x[-2], f"the operation dispatched is {show(x[2])}, not the current one")
    for v, st in rets:
        pass
    if not loops:
        rep.notes.append(f"{f.name}: the loop that dispatches the operations was not recognised")
        return
    rep.check(bad is None, "once", f.name, bad[0] if bad else f.where, bad[1] if bad else "")
    early(rep, f, loops)
    bad = resb = relb = err = None
    style = set()
    for k, st in ends:
        for x in events(st, "disp"):
            bad = bad or operands(x, op, env)
            style.add(generic(x[3], op))
            resb = resb or stored(st, env, op, x[-3])
        relb = relb or releases(st, env, None, op) or early_release(st, env)
        if any(e[1] == "caught" for e in events(st)):
            c = [e for e in events(st) if e[1] == "caught"][0]
            err = err or (c[-2], "the exception is caught and the evaluation goes on")
    styles[f.name] = style
    rep.check(bad is None, "operands", f.name, bad[1] if bad else f.where, bad[0] if bad else "")
    rep.check(resb is None, "results", f.name, (resb[1] or f.where) if resb else f.where, resb[0] if resb else "")
    rep.check(relb is None, "release", f.name, relb[1] if relb else f.where, relb[0] if relb else "")
    cs, u = decrements([st for _, st in ends], op)
    init_counts(p, rep, f, [st for _, st in rets] + [st for _, _, st in cl.iters], graph, next(iter(cs), None), u, cl.loops)
    for v, st in rets:
        for e in events(st, "caught"):
            err = err or (e[-2], "the exception is caught and outputs are returned")
    rep.check(err is None, "errors", f.name, err[0] if err else f.where, err[1] if err else "")


def recursive(p, g):
    """The function, or one defined in it, calls itself: its value is opaque here."""
    return any(h in called(p, h) for h in (g, *nested_of(g)))


def walks_ops_dispatch(p, g):
    return walks_ops(g) and any(is_dispatch(n) for n in ast.walk(g.node)) and g.parent is None


def early(rep, f, loops):
    for n in loops:
        for x in ast.walk(n):
            if isinstance(x, ast.Return):
                rep.bad("once", f"{f.name}: early return", where(f.module, x), "the function returns inside the loop over the operations")


def early_release(st, env):
    d = events(st, "disp")
    for e in events(st, "del"):
        if is_cell(e[2], env) and d and e[0] < d[0][0]:
            return "operands are dropped before the operation ran", e[-2]
    return None


def operands(x, op, env):
    _, _, o, src, seq, elems, filt, over, res = x[:9]
    want = T("elem", T("attr", op, "inputs"))
    if o is not op:
        return f"the implementation is called with {show(o)} as the operation", x[-2]
    if filt:
        return "some operands are left out", x[-2]
    if not elems:
        return None
    for v in elems:
        if v.k == "item" and (env is None or is_cell(v.a[0], env)):
            if v.a[1] is not want:
                return f"operands are read with {show(v.a[1])[:60]}, not with all of the operation's inputs in order", x[-2]
        elif v.k == "const":
            return f"a missing operand becomes {show(v)}", x[-2]
    return None


def outputs(rep, f, rets):
    """Find the environment from what is returned, and check that all outputs are, in order."""
    env = graph = None
    bad = None
    for v, st in rets:
        for t in split(v):
            sl = st.slots(t)
            els = split(sl.get("*", frozenset()))
            if split(sl.get("filtered", frozenset())):
                bad = bad or "some outputs are left out"
            for e in els:
                if e.k == "item" and e.a[1].k == "elem":
                    g = e.a[1].a[0]
                    if of(g, "outputs") is not None:
                        env, graph = e.a[0], of(g, "outputs")
                    else:
                        inner = [of(y, "outputs") for y in subterms(g) if of(y, "outputs") is not None]
                        if inner:
                            env, graph = e.a[0], inner[0]
                            bad = bad or f"the values returned are those of {show(g)[:60]}, not of the outputs in order"
                elif e.k == "const":
                    bad = bad or f"{show(e)} is returned as an output"
            if not els and t.k == "const":
                bad = bad or f"{show(t)} is returned instead of the outputs"
            if els and t.k == "new" and t.a[0] in ("set", "dict"):
                bad = bad or f"the outputs are returned as a {t.a[0]}"
    if env is None:
        rep.notes.append(f"{f.name}: what it returns was not recognised")
        return None, None
    rep.check(bad is None, "outputs", f.name, f.where, bad or "")
    return env, graph


def bind(p, rep, f, rets, env, graph):
    """env starts as graph.inputs -> inputs, one to one."""
    bad = None
    _, st = rets[0]
    known = False
    ins = T("attr", graph, "inputs")
    srcs = [t for s, v in st.slots(env).items() for t in split(v)]
    zips = [y for t in srcs for y in subterms(t) if y.k == "call" and show(y.a[0]).endswith("zip")]
    for z in zips:
        known = True
        if ins not in z.a[1]:
            if any(mentions(a, ins) for a in z.a[1]):
                bad = bad or f"inputs are bound as {show(z)[:80]}"
            continue
        kw = dict(z.a[2]) if z.a[2] and isinstance(z.a[2][0], tuple) else {}
        strict = any("strict" in str(k) for k in z.a[2]) or "strict" in show(z)
        if not strict and not any(c.k == "cmp" and "len" in show(c) and mentions(c, ins) for c in st.conds):
            bad = bad or "fewer or more inputs than declared are accepted silently (zip without strict)"
        if any(a.k == "call" and any(w in show(a.a[0]) for w in ("reversed", "sorted", "set")) for a in z.a[1]):
            bad = bad or f"inputs are bound as {show(z)[:80]}"
    if not known:
        rep.notes.append(f"{f.name}: binding of the inputs not recognised")
        rep.ok("bind", f.name, "not decided: see notes")
        return
    rep.check(bad is None, "bind", f.name, f.where, bad or "")


def init_counts(p, rep, f, st_all, graph, counter, dec_unique, loops=()):
    """Consumer counts are built from every operand occurrence of every operation, plus the graph's outputs."""
    if counter is None:
        rep.ok("release", f"{f.name}: counts", "no value is dropped, or the counting was not recognised (see notes)")
        return
    bad = None
    outs = T("attr", graph, "outputs")
    ops = T("elem", T("attr", graph, "operations"))
    ins = T("attr", ops, "inputs")
    plus, seen_in, unique = False, False, False
    for st in st_all:
        for e in events(st, "set"):
            if is_cell(e[2], counter) and e[3].k == "elem" and e[3].a[0] is outs:
                if e[4].k == "bin" and e[4].a[0] == "Add" or e[4].k == "const":
                    plus = True
            if is_cell(e[2], counter) and e[3].k == "elem" and mentions(e[3], ins):
                seen_in = True
                unique = unique or e[4].k == "const" or "set" in show(e[3].a[0]).split("(")[0]
    for t in loops:
        if mentions(t, outs) and t is not outs:
            plus = True
        if mentions(t, ins):
            seen_in = True
            if t is not ins and t.k == "call" and any(w in show(t.a[0]) for w in ("set", "fromkeys")):
                unique = True
    if not plus:
        used = any(e[2] is outs for st in st_all for e in events(st, "loop")) and any(mentions(y, outs) for y in subterms(counter))
        if not used and not any(outs_in_counter(st, counter, outs) for st in st_all):
            bad = "the graph's outputs are not counted as consumers: an output that is also an operand is dropped before it is returned"
    if unique and not dec_unique:
        bad = bad or "an operand used twice by one operation is counted once but released twice"
    if not seen_in:
        rep.notes.append(f"{f.name}: counting of the operands not recognised")
    rep.check(bad is None, "release", f"{f.name}: counts", f.where, bad or "")


def outs_in_counter(st, counter, outs):
    todo, seen = [counter], set()
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        for y in subterms(t):
            if y is outs:
                return True
            for s, v in st.slots(y).items():
                todo += [z for z in split(v)]
    return False


def decrements(sts, op):
    """The counter cells reduced per operand, and whether that is done once per distinct operand."""
    cells, unique = set(), False
    ins = T("attr", op, "inputs")
    for st in sts:
        for e in events(st, "set"):
            if e[3].k == "elem" and mentions(e[3], ins) and e[4].k == "bin" and e[4].a[0] == "Sub":
                cells.add(e[2])
                if e[3].a[0] is not ins and e[3].a[0].k == "call":
                    unique = True
    return cells, unique


# ------------------------------------------------------------------ concurrent
class Async:
    def __init__(self, p, rep, f, fam, styles):
        self.p, self.rep, self.f, self.fam, self.styles = p, rep, f, fam, styles
        self.disp = [g for g in fam if any(is_dispatch(n) for n in own_nodes(g))]
        cbs = set()
        for g in fam:
            for n in own_nodes(g):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_done_callback" and n.args:
                    cbs |= {x.id for x in ast.walk(n.args[0]) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(n.args[0]) if isinstance(x, ast.Attribute)}
        self.callbacks = [g for g in fam if g.name in cbs and g not in self.disp]
        starters = [g for g in self.disp if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "submit" for n in own_nodes(g))]
        self.starters = starters or [g for g in fam if g is not f and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "submit" for n in own_nodes(g))]
        self.tasks = [g for g in self.disp if g not in self.starters and g is not f]
        puts = {g for g in fam if g is not f and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("put", "put_nowait") for n in own_nodes(g))}
        reach = set(puts)
        changed = True
        while changed:
            changed = False
            for g in fam:
                if g not in reach and g is not f and g not in self.disp and g not in self.callbacks and any(h in reach for h in called(p, g)):
                    reach.add(g)
                    changed = True
        users = [h for g in [*self.disp, *self.callbacks] for h in called(p, g)]
        self.compl = [g for g in reach if g in users and g not in self.disp and g not in self.callbacks]

    def note(self, s):
        self.rep.notes.append(f"{self.f.name}: {s}")

    def check(self):
        for g in self.fam:
            self.rep.saw(g.qual)
        if not self.starters or not self.compl or not self.callbacks:
            self.note("its parts (start, completion, callback) were not recognised: the concurrency rules are not decided")
            return
        self.main()
        self.completion()
        self.start()
        self.callback()

    # -- set-up and main loop
    def main(self):
        p, rep, f = self.p, self.rep, self.f
        stop = set(self.disp) | set(self.compl) | set(self.callbacks)
        me = self

        class M(Rec):
            started = []

            def extra(self, it, call):
                n = call.node.func
                nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
                if nm in {g.name for g in me.starters}:
                    self.started = [*self.started, (call.st, [one(a) for a in call.args], it.where(call.node))]
                    it.add_raise(T("exc", ("?",), 0), call.st)
                    return [(V(C(None)), call.st)]
                if call.name == "get" and call.recv is not None and not call.args and show(one(call.recv)).find("ueue") >= 0:
                    return [(V(T("call", one(call.callee), (), (), call.site)), call.st)]
                return None

        cl = M(p, lambda g: g.module is f.module and g not in stop and not walks_ops_dispatch(p, g) and not recursive(p, g))
        rets, raises = Engine(p, cl).run(f, self_cls=f.cls)
        self.env = self.graph = None
        env, graph = outputs(rep, f, rets)
        if env is None:
            return
        bind(p, rep, f, rets, env, graph)
        self.graph = graph
        self.names = {}
        for _, st in rets:
            for (fid, name), v in st.env.items():
                if len(v) == 1:
                    self.names.setdefault(one(v), set()).add(name)
            for t in split(T("param", ("root", f.qual), "self") and V(T("param", ("root", f.qual), "self"))):
                for s, v in st.slots(t).items():
                    if len(v) == 1 and isinstance(s, str):
                        self.names.setdefault(one(v), set()).add("self." + s)
        self.env = env
        self.envcells = self.names.get(env, set())
        self.main_rets, self.main_cl = rets, cl
        # an operand occurrence registered = one pending result
        bad = None
        got = False
        self.pending = set()
        op = T("elem", T("attr", graph, "operations"))
        for n, k, st in cl.iters:
            sets = [e for e in events(st, "set") if e[3] is op and not is_cell(e[2], env) and e[4].k == "const" and isinstance(e[4].a[1], int)]
            apps = [e for e in events(st, "append") if e[3] is op]
            if sets:
                got = True
                self.pending |= {x for e in sets for x in self.names.get(e[2], {cell(e[2])}) if x}
                if len(apps) != sets[-1][4].a[1]:
                    bad = bad or (sets[-1][-2], f"an operation registered {len(apps)} times as a consumer waits for {sets[-1][4].a[1]} results")
        if got:
            rep.check(bad is None, "pending", f.name, bad[0] if bad else f.where, bad[1] if bad else "")
        else:
            self.note("pending counts were not recognised")
        self.initial(cl, rets)
        # main loop: what is started is what was taken; failures are raised; the end is the sentinel
        bad = None
        for st, args, w in cl.started:
            if args and not (args[-1].k == "call" and show(args[-1].a[0]).endswith("get")) and not (args[0].k == "call" and show(args[0].a[0]).endswith("get")):
                if args[0].k == "elem":
                    continue
                bad = bad or (w, f"the operation started is {show(args[0])[:50]}")
        gots = {a for st, args, w in cl.started for a in args if a.k == "call" and show(a.a[0]).endswith("get")}
        if gots:
            g = next(iter(gots))
            isx = [c for c in {c for st, _, _ in cl.started for c in st.conds} | {c for _, st in rets for c in st.conds} if mentions(c, g) and ("isinst" == c.k or "isinstance" in show(c))]
            if not isx:
                bad = bad or (f.where, "failures taken from the queue are not told from operations")
            if not any(mentions(e, g) for e in cl.raised):
                bad = bad or (f.where, "a failure taken from the queue is not raised")
            tested = any(isinstance(n, ast.While) and not isinstance(n.test, ast.Constant) for n in ast.walk(f.node))
            for _, st in rets:
                if not tested and not any(any(mentions(c, x) for x in gots | {g}) and (c.k == "cmp" and c.a[0] == "is" and tr) for c, tr in st.conds.items()) and not any(c.k == "cmp" and c.a[0] in ("==", "<") for c in st.conds):
                    bad = bad or (f.where, "the outputs are returned before the end was announced")
            rep.check(bad is None, "wake", f"{f.name}: main loop", bad[0] if bad else f.where, bad[1] if bad else "")
        else:
            self.note("main loop not recognised")

    def initial(self, cl, rets):
        """What is put into the queue before the main loop: exactly the operations that wait for nothing."""
        rep, f = self.rep, self.f
        bad = None
        sts = [st for _, st in rets] + [st for _, _, st in cl.iters] + [st for st, _, _ in cl.started]
        nones = [e for st in sts for e in events(st, "put") if e[3] is C(None)]
        loops = {n for n in ast.walk(f.node) if isinstance(n, ast.While)}
        sentinel = any(isinstance(x, ast.Constant) and x.value is None for n in loops for x in ast.walk(n))
        if sentinel and not nones and not any(any(isinstance(x, ast.Return) for x in ast.walk(n)) for n in f.node.body if isinstance(n, ast.If)):
            bad = bad or (f.where, "nothing ends the main loop when the graph has no operations: the caller waits forever")
        for n in ast.walk(f.node):
            # a selection of (operation, count) pairs by count
            if isinstance(n, ast.comprehension):
                cmps, tgt, itr, body = n.ifs, n.target, n.iter, None
            elif isinstance(n, ast.For):
                cmps, tgt, itr, body = [x.test for x in n.body if isinstance(x, ast.If)], n.target, n.iter, n
            else:
                continue
            if not (isinstance(itr, ast.Call) and isinstance(itr.func, ast.Attribute) and itr.func.attr == "items" and isinstance(itr.func.value, ast.Name)) or not isinstance(tgt, ast.Tuple) or len(tgt.elts) != 2 or not isinstance(tgt.elts[1], ast.Name):
                continue
            if itr.func.value.id not in self.pending:
                continue
            cnt = tgt.elts[1].id
            for c in cmps:
                for x in ast.walk(c):
                    if isinstance(x, ast.Compare) and isinstance(x.left, ast.Name) and x.left.id == cnt and len(x.ops) == 1 and isinstance(x.comparators[0], ast.Constant):
                        k, o = x.comparators[0].value, type(x.ops[0]).__name__
                        if not isinstance(k, int):
                            continue
                        picked = {m: holds(o, m, k) for m in range(4)}
                        if len(cmps) == 1 and isinstance(c, ast.Compare) and isinstance(n, ast.comprehension) and (picked[1] or picked[2] or picked[3]):
                            bad = bad or (where(f.module, c), "operations that still wait for results are started")
        rep.check(bad is None, "ready", f"{f.name}: first operations", bad[0] if bad else f.where, bad[1] if bad else "")

    # -- completion of one operation
    def completion(self):
        p, rep, f = self.p, self.rep, self.f
        if self.graph is None:
            return
        counters = set()
        decu = False
        fin_cells = set()
        for g in self.compl:
            rep.saw(g.qual)
            cl = Rec(p, lambda h: h.module is f.module and h not in self.disp and h not in self.compl and not recursive(p, h))
            rets, raises = Engine(p, cl).run(g, self_cls=g.cls)
            ops = {x for _, st in rets for e in events(st) for y in e[2:-2] if isinstance(y, T) for z in subterms(y) if z.k == "attr" and z.a[1] in ("outputs", "inputs") and z.a[0].k == "param" for x in [z.a[0]]}
            env = self.envcells
            isenv = lambda t: cell(t) in env
            stores = any(isenv(e[2]) for _, st in rets for e in events(st, "set"))
            readyb = finb = lockb = resb = relb = wakeb = None
            storing = set()
            for _, st in rets:
                for e in events(st, "set"):
                    if isenv(e[2]):
                        ls = [x for x in events(st, "loop") if x[0] < e[0]]
                        if ls and e[3].k == "elem":
                            storing.add(ls[-1][-2])
            for b, n in cl.breaks:
                readyb = readyb or (b, "the loop over results, consumers or operands is left early")
            for v, st in rets:
                evs = events(st)
                ss = [e for e in evs if e[1] == "set" and isenv(e[2])]
                puts = [e for e in evs if e[1] == "put"]
                ready = [e for e in puts if e[3].k == "elem"]
                end = [e for e in puts if e[3] is C(None)]
                errs = [e for e in puts if e not in ready and e not in end]
                unlocked = [e for e in evs if e[1] in ("set", "del", "put") and not e[-1]]
                if unlocked:
                    lockb = lockb or (unlocked[0][-2], "shared state is changed without the lock: completions of other operations run at the same time")
                if len({frozenset(e[-1]) for e in evs if e[1] in ("set", "del", "put")}) > 1 and not unlocked:
                    common = frozenset.intersection(*[e[-1] for e in evs if e[1] in ("set", "del", "put")])
                    if not common:
                        lockb = lockb or (g.where, "different parts of the shared state are guarded by different locks")
                for e in ready:
                    if not ss:
                        o = next(iter(ops), None)
                        if o is not None and not empty(st, T("attr", o, "outputs")) and not any(x[1] == "loop" and x[-2] in storing for x in evs):
                            readyb = readyb or (e[-2], "consumers are made ready although no result is stored")
                    elif ss[0][0] > e[0]:
                        readyb = readyb or (e[-2], "consumers are made ready before the result is stored")
                    decs = [d for d in evs if d[1] == "set" and d[3] is e[3] and d[0] < e[0] and d[4].k == "bin" and d[4].a[0] == "Sub"]
                    if not decs:
                        readyb = readyb or (e[-2], "a consumer is made ready without one of its pending results being taken off")
                    elif decs[0][4].a[2] is not C(1):
                        readyb = readyb or (decs[0][-2], f"one result takes {show(decs[0][4].a[2])} off the pending count")
                    elif len({d[-2] for d in decs}) > 1:
                        readyb = readyb or (decs[1][-2], "one result is taken off the pending count twice")
                    else:
                        zero = [c for c, tr in st.conds.items() if pending_zero(c, tr, decs[0][2], e[3])]
                        if not zero:
                            readyb = readyb or (e[-2], "a consumer is made ready although it may still wait for other results")
                for d in evs:
                    if d[1] == "set" and d[4].k == "bin" and d[4].a[0] == "Sub" and d[3].k == "elem" and d[3].a[0].k in ("item", "call") and not isenv(d[2]):
                        over = d[3].a[0]
                        o = [y for y in subterms(over) if y.k == "attr" and y.a[1] == "outputs"]
                        if over.k == "call" and any(w in show(over.a[0]) for w in ("set", "fromkeys")):
                            readyb = readyb or (d[-2], "an operation that uses the same result twice is told only once")
                        sl = [y for y in subterms(over) if y.k == "elem" and y.a[0].k != "attr" and o and mentions(y, o[0])]
                        if sl:
                            readyb = readyb or (d[-2], f"only the consumers of {show(sl[0])[:50]} are told")
                # success paths
                if ss or ready or end:
                    dec = [(fc, c) for c, tr in st.conds.items() for fc in [finish_cond(c, tr)] if fc]
                    hit = [fc for fc, c in dec if fc[1]]
                    for fc, c in dec:
                        fin_cells.add(fc[0])
                    if end and not hit:
                        finb = finb or (end[0][-2], "the end is announced although operations may still be outstanding")
                    if end and ss and ss[0][0] > end[0][0]:
                        finb = finb or (end[0][-2], "the end is announced before the last result is stored")
                    if not end and hit:
                        finb = finb or (g.where, "the last operation completes and nobody is told: the caller waits forever")
                if errs and ss:
                    wakeb = wakeb or (errs[0][-2], "a failed operation stores a result")
            # every successful completion reduces the outstanding count by one
            for v, st in rets:
                evs = events(st)
                if any(e[1] == "set" and isenv(e[2]) for e in evs) or stores and fin_cells and not any(e[1] == "put" for e in evs) and not any(tr and failure_cond(c) for c, tr in st.conds.items()):
                    for c_ in fin_cells:
                        if not any(finish_cond(c, tr) and finish_cond(c, tr)[0] is c_ for c, tr in st.conds.items()):
                            finb = finb or (g.where, "a path completes an operation without counting it: the end is never announced")
            for o in ops:
                for v, st in rets:
                    evs = events(st)
                    if not stores:
                        continue
                    if any(e[1] == "put" and e[3].k != "elem" and e[3] is not C(None) for e in evs) or not any(e[1] in ("put", "set", "del") for e in evs):
                        # failure, or nothing done at all: only allowed when a failure is known
                        if not any(e[1] in ("put", "set", "del") for e in evs) and not any(finish_cond(c, tr) for c, tr in st.conds.items()) and not any(tr and failure_cond(c) for c, tr in st.conds.items()) and not empty(st, T("attr", o, "outputs")):
                            finb = finb or (g.where, "a path completes an operation without storing, counting or reporting anything")
                        continue
                    res = result_param(g, o)
                    for e in self.envcells:
                        b = stored(st, e, o, res)
                        if b and not (b[1] is None and not any(is_cell(x[2], e) for _, s2 in rets for x in events(s2, "set"))):
                            resb = resb or b
                        relb = relb or releases(st, e, None, o)
                        break
                cs, u = decrements([st for _, st in rets], o)
                counters |= {cell(c) for c in cs if cell(c)}
                decu = decu or u
            nm = g.name
            rep.check(lockb is None, "lock", nm, lockb[0] if lockb else g.where, lockb[1] if lockb else "")
            if stores:
                rep.check(readyb is None, "ready", nm, readyb[0] if readyb else g.where, readyb[1] if readyb else "")
                rep.check(finb is None, "finish", nm, finb[0] if finb else g.where, finb[1] if finb else "")
                rep.check(resb is None, "results", nm, (resb[1] or g.where) if resb else g.where, resb[0] if resb else "")
                rep.check(relb is None, "release", nm, relb[1] if relb else g.where, relb[0] if relb else "")
            # failures
            fails = [x for x in g.params if "err" in x or "exc" in x]
            self.fail_params = {**getattr(self, "fail_params", {}), g.name: fails}
            for x in fails:
                px = T("param", ("root", g.qual), x)
                for v, st in rets:
                    truth = [tr for c, tr in st.conds.items() if c is px] + [not tr for c, tr in st.conds.items() if c.k == "cmp" and c.a[0] == "is" and px in c.a[1:] and C(None) in c.a[1:]]
                    if (truth and truth[0]) or (not any(c is px or px in getattr(c, "a", ()) for c in st.conds) and len(g.params) <= 2):
                        put = any(e[1] == "put" and mentions(e[3], px) for e in events(st))
                        known = any(tr and failure_cond(c) and c is not px for c, tr in st.conds.items())
                        if not put and not known:
                            wakeb = wakeb or (g.where, "a failure is not put into the queue: the caller waits forever")
            if fails or wakeb:
                rep.check(wakeb is None, "wake", f"{nm}: failures", wakeb[0] if wakeb else g.where, wakeb[1] if wakeb else "")
        # counts
        cterm = None
        for c in counters:
            for t, ns in self.names.items():
                if c in ns:
                    cterm = t
        init_counts(p, rep, f, [st for _, st in self.main_rets] + [st for _, _, st in self.main_cl.iters], self.graph, cterm, decu, self.main_cl.loops)
        # the outstanding count starts with the number of operations
        bad = None
        opsT = T("attr", self.graph, "operations")
        for c in fin_cells:
            nm = cell(c)
            for _, st in self.main_rets:
                for (fid, name), v in st.env.items():
                    if name == nm and not any(y.k == "call" and show(y.a[0]).endswith("len") and y.a[1] and (y.a[1][0] is opsT or mentions(y.a[1][0], opsT) or y.a[1][0].k in ("new", "call")) for t in split(v) for y in subterms(t)):
                        if any(t.k == "const" and isinstance(t.a[1], int) for t in split(v)):
                            bad = f"the number of outstanding operations starts as {show(next(iter(split(v))))[:40]}"
                        ls = [t for t in split(v) if t.k == "bin"]
                        if ls:
                            bad = f"the number of outstanding operations starts as {show(ls[0])[:40]}"
                    elif name == nm and any(t.k == "bin" for t in split(v)):
                        bad = f"the number of outstanding operations starts as {show(next(iter(split(v))))[:60]}"
        if fin_cells:
            rep.check(bad is None, "finish", f"{f.name}: outstanding operations", f.where, bad or "")
        else:
            self.note("the count of outstanding operations was not recognised")

    # -- start of one operation
    def start(self):
        p, rep, f = self.p, self.rep, self.f
        names = {g.name for g in self.compl}
        style = set()
        for g in self.starters:
            me = self

            class S(Rec):
                def extra(self, it, call):
                    n = call.node.func
                    nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
                    if nm in names:
                        a = [one(x) for x in call.args] + [one(x) for x in call.kwargs.values()]
                        st = self.ev(it, call.st, call.node, "done", *a)
                        it.add_raise(T("exc", ("?",), 0), st)
                        return [(V(C(None)), st)]
                    if nm == "submit":
                        t = T("fresh", "future", call.site)
                        it.add_raise(T("exc", ("?",), 0), call.st)
                        return [(V(t), self.ev(it, call.st, call.node, "submit", *[one(x) for x in call.args]))]
                    if nm == "add_done_callback":
                        return [(V(C(None)), self.ev(it, call.st, call.node, "callback", one(call.args[0]) if call.args else C(None)))]
                    if nm in ("spawn", "log_start", "log_end", "log_schedule"):
                        it.add_raise(T("exc", ("?",), 0), call.st)
                        return [(V(T("fresh", nm, call.site)), call.st)]
                    return None

            cl = S(p, lambda h: h.module is f.module and h not in self.compl and h not in self.tasks and h not in self.callbacks and not recursive(p, h))
            rets, raises = Engine(p, cl).run(g, self_cls=g.cls)
            bad = opb = err = None
            for v, st in rets:
                evs = events(st)
                sub = [e for e in evs if e[1] == "submit"]
                cb = [e for e in evs if e[1] == "callback"]
                dis = [e for e in evs if e[1] == "disp"]
                done = [e for e in evs if e[1] == "done"]
                if len(sub) + (1 if dis else 0) > 1 or len(dis) > 1:
                    bad = bad or ((sub or dis)[-1][-2], "an operation is started twice")
                if not sub and not dis and not done:
                    bad = bad or (g.where, "a path neither starts the operation nor reports its failure: the caller waits forever")
                if sub and not cb:
                    bad = bad or (sub[0][-2], "nobody is told when the submitted operation completes")
                if dis and not done:
                    bad = bad or (dis[0][-2], "the completion of an operation that ran is not recorded")
                for e in evs:
                    if e[1] == "del" and cell(e[2]) in self.envcells:
                        opb = opb or ("an operand is dropped before the operation ran: other operations may still need it", e[-2])
                for d in dis:
                    b = operands(d, d[2], None)
                    opb = opb or b or self.operand_reads(d[6], d[-2], d[2])
                    style.add(generic(d[3], d[2]))
                    ok = [x for x in done if any(y is d[-3] for y in x[2:-2])]
                    caught = any(e[1] == "caught" for e in evs)
                    if done and not ok and not caught:
                        bad = bad or (done[0][-2], "what is recorded as the result is not what the operation returned")
                if any(e[1] == "caught" for e in evs):
                    c = [e for e in evs if e[1] == "caught"][-1]
                    after = [x for x in done if x[0] > c[0]]
                    if not after:
                        err = err or (c[-2], "a failure of the operation is caught and not recorded")
                    elif not any(any(y.k in ("exc", "excobj") or "exc" in show(y) for y in x[2:-2] if isinstance(y, T)) for x in after):
                        err = err or (after[0][-2], "a failure of the operation is recorded without its exception")
            # the arguments and implementation used by the task
            self.locals = {}
            for _, st in rets:
                for (fid, name), v in st.env.items():
                    self.locals.setdefault(name, set()).update(split(v))
                self.start_st = st
                for name in ("args", ):
                    pass
                for (fid, name), v in st.env.items():
                    for t in split(v):
                        els = st.slots(t).get("*", frozenset())
                        if els and any(x.k == "item" for x in split(els)):
                            self.locals[name + "/*"] = (split(els), bool(split(st.slots(t).get("filtered", frozenset()))))
            rep.check(bad is None, "once", g.name, bad[0] if bad else g.where, bad[1] if bad else "")
            gop = None
            for tk in self.tasks:
                cl2 = Rec(p, lambda h: False)
                r2, _ = Engine(p, cl2).run(tk, self_cls=tk.cls)
                tb = None
                for v, st in r2:
                    d = events(st, "disp")
                    if len(d) != 1:
                        tb = tb or (tk.where, f"the task runs the operation {len(d)} times")
                        continue
                    if not any(t is d[0][-3] for t in split(v)):
                        tb = tb or (d[0][-2], "the task does not return what the operation returned")
                    if any(e[1] == "caught" for e in events(st)):
                        tb = tb or (d[0][-2], "the task hides a failure of the operation")
                    seq = d[0][4]
                    nm = cell(seq) if seq is not None else None
                    els = self.locals.get(f"{nm}/*") if nm else None
                    if els:
                        for x in els[0]:
                            if x.k == "item" and not (x.a[1].k == "elem" and of(x.a[1].a[0], "inputs") is not None):
                                opb = opb or (f"operands are read with {show(x.a[1])[:60]}, not with all of the operation's inputs in order", d[0][-2])
                        if els[1]:
                            opb = opb or ("some operands are left out", d[0][-2])
                    hs = cell(d[0][3])
                    if hs:
                        for t in self.locals.get(hs, ()):
                            for y in split(V(t)):
                                style.add(generic_any(y))
                    else:
                        style.add(generic_any(d[0][3]))
                rep.check(tb is None, "once", f"{g.name}.{tk.name}", tb[0] if tb else tk.where, tb[1] if tb else "")
            rep.check(opb is None, "operands", g.name, opb[1] if opb else g.where, opb[0] if opb else "")
            rep.check(err is None, "errors", g.name, err[0] if err else g.where, err[1] if err else "")
        if style:
            self.styles[self.f.name] = {x for x in style if "None" not in x}

    def operand_reads(self, elems, w, op):
        for v in elems or ():
            if isinstance(v, T) and v.k == "item" and v.a[1].k == "elem" and elem_of(v.a[1], "inputs") is None:
                return f"operands are read with {show(v.a[1])[:60]}, not with all of the operation's inputs in order", w
        return None

    # -- completion on an executor thread
    def callback(self):
        p, rep, f = self.p, self.rep, self.f
        names = {g.name for g in self.compl}
        for g in self.callbacks:
            class K(Rec):
                def extra(self, it, call):
                    n = call.node.func
                    nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
                    if nm in names:
                        a = [one(x) for x in call.args] + [one(x) for x in call.kwargs.values()]
                        st = self.ev(it, call.st, call.node, "done", *a)
                        it.add_raise(T("exc", ("?",), 0), st)
                        return [(V(C(None)), st)]
                    if nm == "result":
                        it.add_raise(T("exc", ("?",), 0), call.st)
                        return [(V(T("fresh", "result", call.site)), call.st)]
                    if nm == "exception":
                        return [(V(T("fresh", "exception", call.site)), call.st)]
                    return None

            cl = K(p, lambda h: h.module is f.module and h not in self.compl and h not in self.disp and not recursive(p, h))
            rets, raises = Engine(p, cl).run(g, self_cls=g.cls)
            bad = None
            for v, st in rets:
                evs = events(st)
                done = [e for e in evs if e[1] == "done"]
                if not done:
                    bad = bad or (g.where, "a path records neither a result nor a failure: the caller waits forever")
                caught = [e for e in evs if e[1] == "caught"]
                if caught:
                    after = [x for x in done if x[0] > caught[-1][0]]
                    if not after:
                        bad = bad or (caught[-1][-2], "a failure is caught and not recorded")
                    elif not any(any("exc" in show(y) for y in x[2:-2] if isinstance(y, T)) for x in after):
                        bad = bad or (after[0][-2], "a failure is recorded without its exception")
                sites = {x[-2] for x in done}
                if len(sites) > 1 and not caught:
                    bad = bad or (done[-1][-2], "a completion is recorded twice")
            for exc, st in raises:
                if not events(st, "done"):
                    bad = bad or (g.where, "an exception leaves the callback without being recorded: the caller waits forever")
                elif not events(st, "caught") and not guarded(g):
                    bad = bad or (g.where, "an exception while recording a result is lost: the caller waits forever")
            rep.check(bad is None, "wake", f"{g.name}: completion", bad[0] if bad else g.where, bad[1] if bad else "")


def holds(op, a, b):
    return {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b, "Is": a == b, "IsNot": a != b}.get(op, True)


def guarded(g):
    return any(isinstance(n, ast.Try) and n.handlers for n in own_nodes(g))


def generic_any(t):
    """The term with the operation it is about replaced by a fixed one, and call sites dropped."""
    OP = T("const", "str", "<op>")

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x.k == "attr" and x.a[1] == "opcode":
            return T("attr", OP, "opcode")
        if x.k == "param" and x.a[1] == "self" or x.k == "attr" and cell(x) == "self":
            return T("param", "self", "self")
        if x.k in ("const", "param", "new", "closure"):
            return x
        return T(x.k, *[go(y) for y in x.a])
    return show(go(strip_sites(t))).replace("\"<op>\"", "op").replace("'<op>'", "op")


def generic(t, op):
    return generic_any(t)


def result_param(g, op):
    for x in g.params:
        t = T("param", ("root", g.qual), x)
        if x in ("result", "results", "res", "value", "values", "output", "outputs", "ret", "out"):
            return t
    return None


def pending_zero(c, tr, store, key):
    """The condition says that store[key] (after one decrement) is zero."""
    if c.k == "cmp":
        ks = [y.a[1] for y in c.a[1:] if y.k == "const"]
        xs = [y for y in c.a[1:] if y.k != "const"]
        if not ks or not xs:
            return False
        x = xs[0]
        base = any(y.k == "item" and y.a[0] is store and y.a[1] is key for y in subterms(x))
        if not base:
            return False
        if c.a[0] == "==":
            return tr and (ks[0] == 0 or ks[0] == 1 and x.k == "item" and False)
        if c.a[0] == "<":
            return c.a[2].k == "const" and tr and ks[0] in (1,) or c.a[1].k == "const" and not tr and ks[0] == 0
        return False
    if not tr:
        return any(y.k == "item" and y.a[0] is store and y.a[1] is key for y in subterms(c)) and c.k in ("bin", "item")
    return False


def finish_cond(c, tr):
    """(cell, is zero) for a test of an outstanding count that was reduced by one."""
    def red(x):
        return x.k == "bin" and x.a[0] == "Sub" and x.a[2] is C(1) and cell(x.a[1]) is not None
    if c.k == "cmp":
        xs = [y for y in c.a[1:] if red(y)]
        ks = [y.a[1] for y in c.a[1:] if y.k == "const"]
        if xs and ks and ks[0] == 0 and c.a[0] == "==":
            return xs[0].a[1], tr
        if xs and ks and c.a[0] == "<":
            if c.a[2].k == "const" and ks[0] == 1:
                return xs[0].a[1], tr
            if c.a[1].k == "const" and ks[0] == 0:
                return xs[0].a[1], not tr
        return None
    if red(c):
        return c.a[1], not tr
    return None


def failure_cond(c):
    s = show(c)
    return any(w in s for w in ("err", "exc", "fail", "abort", "cancel", "stop"))


# ------------------------------------------------------------------ nested waits
def nested(p, rep):
    """Operations offered to the executor do not evaluate nested graphs."""
    sets = []
    for n, m, f in all_nodes(p, (ast.Assign, ast.AnnAssign)):
        ts = n.targets if isinstance(n, ast.Assign) else [n.target]
        nm = next((t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else "" for t in ts), "")
        if "async_ops" in nm.lower() and n.value is not None:
            sets.append((n, m, [x.value for x in ast.walk(n.value) if isinstance(x, ast.Constant) and isinstance(x.value, str)]))
    impls = {}
    from rules.common import impl_table
    for code, fi in impl_table(p).items():
        impls[code] = fi
    for n, m, codes in sets:
        if not codes:
            continue
        bad = None
        for c in codes:
            fi = impls.get(c)
            if fi is None:
                rep.notes.append(f"{c} is in the list of concurrent operations but nothing implements it")
                continue
            if reaches(p, fi, "evaluate_graph", set(), 0):
                bad = bad or f"{c} evaluates a nested graph: with all executor threads waiting for their nested operations, none is left to run them"
        rep.check(bad is None, "nested", f"{m.name}", where(m, n), bad or "")


def reaches(p, f, name, seen, d):
    if f.qual in seen or d > 4:
        return False
    seen.add(f.qual)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
            if nm == name:
                return True
            r = p.resolve_expr(n.func, f.module, f)
            if r and r[0] == "func" and reaches(p, r[1], name, seen, d + 1):
                return True
    return False


class Eager(LockClient):
    path_sensitive = True
    max_states = 60

    def should_inline(self, it, g, call):
        return g.cls is not None and self.root.cls is not None and g.cls is self.root.cls and g.name != "evaluate_graph" and len(list(ast.walk(g.node))) < 300 and not recursive(it.p, g)

    def on_call(self, it, call):
        if call.name == "evaluate_graph":
            return [(V(T("call", C("evaluated"), (), (), call.site)), call.st.with_fact(("evaluated",)))]
        return None


def eager(p, rep):
    """Methods of an interpreter that trace with a Tracer and run the result."""
    for f in list(p.functions.values()):
        if f.cls is None or f.parent is not None or not any(c.name == "AbstractInterpreter" for c in p.mro(f.cls)) or f.name != "bind_primitive":
            continue
        if not any(isinstance(n, ast.Call) for n in own_nodes(f)):
            continue
        cl = Eager(p)
        cl.root = f
        rets, raises = Engine(p, cl).run(f, self_cls=f.cls)
        rep.saw(f.qual)
        bad, n = None, 0
        for v, st in rets:
            if ("evaluated",) in st.facts:
                n += 1
                continue
            ok = False
            for c, tr in st.conds.items():
                if any(x.k == "attr" and x.a[1] == "operations" for x in subterms(c)):
                    ok = ok or not tr or c.k == "cmp"
            if not ok:
                bad = (f.where, "on some path the traced graph is not executed although it may contain operations: an operation bound for its effects is lost")
        if not n:
            rep.notes.append(f"{f.qual}: no path evaluates the traced graph here (it may delegate)")
            continue
        rep.check(bad is None, "eager", f.qual.removeprefix("mplang."), bad[0] if bad else f.where, bad[1] if bad else "")
