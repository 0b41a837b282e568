"""C17: concurrent requests share no mutable execution state."""
from __future__ import annotations

import ast

from rules.common import all_nodes, call_graph, qualname, where
from rules.locks import LockClient, lock_names
from sa.engine import Client, Engine, C, T, V, one, show, split, subterms

RULES = {
    "cache": "the key of a cache determines the cached object: every input the object is made from is part of the key",
    "ambient": "a process-wide cache of traced values is separated by the context they belong to",
    "own": "the execution state of a request is created by its factory; what it shares is never changed through it",
    "each": "every job is evaluated by an interpreter made for it, under its own identifier",
    "spawned": "a request's secure runtime runs on a link of its own, spawned from the shared one",
    "locked": "a container that is changed under a lock is never changed without it, and the test that precedes the change is made under the same hold",
    "classlevel": "no instance changes a container that belongs to its class or to a default argument",
}
FACTORY = "mplang.backends.simp_worker.request.create_request_interpreter"
MUTATORS = {"append", "add", "update", "setdefault", "pop", "clear", "extend", "remove", "insert", "popitem", "discard", "appendleft", "popleft"}
# process-lifetime objects: every request of a worker sees the same one
AMBIENT = {"interpreter", "communicator"}
LOSSY = {"builtins.len", "builtins.bool", "builtins.type", "builtins.isinstance", "builtins.min", "builtins.max", "builtins.any", "builtins.all", "builtins.hasattr", "builtins.callable"}


def run(p, rep, tier):
    for r, t in RULES.items():
        rep.rule(r, t, 0)
    if FACTORY not in p.functions:
        rep.broken("the factory of per-request interpreters was not found")
        return
    caches(p, rep)
    factory(p, rep)
    jobs(p, rep)
    locked(p, rep)
    classlevel(p, rep)


# ---------------------------------------------------------------- caches

def persistent_stores(p):
    """functions that put something, by subscript or setdefault, into a module-level container or an attribute of self, and also read it"""
    out = {}
    for fi in p.functions.values():
        if fi.name == "__init__" or not fi.module.name.startswith(("mplang.backends", "mplang.libs", "mplang.dialects", "mplang.utils", "mplang.kernels")):
            continue
        sets, reads = set(), set()
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Subscript):
                (sets if isinstance(n.ctx, ast.Store) else reads).add(ast.unparse(n.value))
            elif isinstance(n, ast.Compare) and isinstance(n.ops[0], (ast.In, ast.NotIn)):
                reads.add(ast.unparse(n.comparators[0]))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "setdefault"):
                reads.add(ast.unparse(n.func.value))
                if n.func.attr == "setdefault":
                    sets.add(ast.unparse(n.func.value))
        top = {t.id for st in fi.module.tree.body for t in (st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, ast.AnnAssign) else []) if isinstance(t, ast.Name)}
        if sets & reads and any(x.startswith("self.") or x.split(".")[0].split("[")[0] in top or any(y in top for y in names(fi.node)) for x in sets & reads):
            out[fi.qual] = fi
    return out


def names(node):
    return {n.func.value.id for n in ast.walk(node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "setdefault") and isinstance(n.func.value, ast.Name)}


class Memo(Client):
    max_states = 24
    max_depth = 7
    assume_nonempty_loops = True

    def __init__(self, p, modules):
        self.p, self.modules, self.stores, self.hits = p, modules, [], []

    def should_inline(self, it, fi, call):
        return fi.module.name in self.modules

    def quiet_call(self, it, call):
        return True

    def on_call(self, it, call):
        r = one(call.recv) if call.recv is not None else None
        if call.name == "setdefault" and r is not None and rooted(r) and len(call.args) > 1:
            self.stores.append((r, one(call.args[0]), call.args[1], call.st, it.where(call.node)))
            return None
        # what is handed to a method of a library object may be kept by it
        if r is not None and r.k == "call" and r.a[0].k == "ext" and call.target is None and call.args:
            st = call.st.copy()
            k = (r, ("a", "+"))
            st.heap[k] = st.heap.get(k, frozenset()).union(*call.args, *call.kwargs.values())
            return [(V(T("call", T("attr", r, call.name), tuple(one(a) if one(a) is not None else T("phi", frozenset(a)) for a in call.args), (), call.site)), st)]
        return None

    def on_setitem(self, it, obj, idx, val, st, node, frame):
        for o in split(obj):
            if rooted(o):
                self.stores.append((o, one(idx), val, st, it.where(node)))
        return st


def rooted(o):
    """lives longer than the call: a module variable or an attribute of a parameter"""
    while o.k in ("attr", "item") or o.k == "call" and o.a[0].k == "attr" and o.a[0].a[1] in ("setdefault", "get"):
        if o.k == "attr" and o.a[0].k == "param":
            return o.a[0].a[1] == "self"
        o = o.a[0] if o.k != "call" else o.a[0].a[0]
    return o.k == "modvar"


def determining(key):
    """subterms of the key that it determines"""
    out, raw = set(), set()

    def go(t):
        if isinstance(t, (tuple, frozenset)):
            for y in t:
                go(y)
            return
        if not isinstance(t, T) or t in out:
            return
        if t.k in ("cmp", "isinst") or t.k == "call" and show(t.a[0]) in LOSSY:
            return
        out.add(t)
        if t.k == "attr" or t.k == "item" and t.a[1].k == "const" or t.k in ("elem", "index"):
            return          # a part does not determine the whole
        if t.k == "call" and t.a[0].k == "attr":
            # a method: what it is applied to, and its arguments
            if t.a[0].a[1] in ("tobytes", "tostring"):
                raw.add(t.a[0].a[0])
            elif t.a[0].a[1] not in ("count", "index", "startswith", "endswith", "bit_length", "isdigit"):
                go(t.a[0].a[0])
            go(t.a[1])
            go(t.a[2])
            return
        for y in t.a:
            go(y)
    go(key)
    # bytes, element type and shape together determine an array
    for x in raw:
        if {"dtype", "shape"} <= {y.a[1] for y in out if y.k == "attr" and y.a[0] == x}:
            go(x)
    return out


def missing(v, st, known, same):
    """inputs of the value that the key does not determine"""
    seen, out = set(), {}

    def path(t):
        x = t
        while x.k == "attr" or x.k == "item" and x.a[1].k == "const":
            x = x.a[0]
        return x.k == "param"

    def go(t):
        if not isinstance(t, T) or t in seen:
            return
        seen.add(t)
        if t in known:
            return
        if path(t):
            x = t
            while x.k in ("attr", "item"):
                if x in known:
                    return
                x = x.a[0]
            if st.conds.get(t) is False:
                return          # one of the empty values, which one the key can tell
            if x in known or x.a[1] in AMBIENT or same is not None and x == same:
                return
            out[t] = 1
            return
        if t.k in ("new", "call"):
            for kk, w in st.slots(t).items():
                if isinstance(w, frozenset):
                    for y in w:
                        go(y)
        if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[0].k == "item":
            pass
        if t.k == "item" and rooted(t.a[0]):
            go(t.a[1])
            return
        for y in t.a:
            for z in y if isinstance(y, (tuple, frozenset)) else (y,):
                if isinstance(z, tuple):
                    for w in z:
                        go(w)
                else:
                    go(z)
    for t in split(v):
        go(t)
    return list(out)


def label(o):
    x = show(o)
    return x.split(".")[-1] if "[" not in x else x.split("[")[0].split(".")[-1]


def caches(p, rep):
    done = set()
    callers = {}
    for q, outs in call_graph(p).items():
        for o in outs:
            callers.setdefault(o, set()).add(q)
    for q, fi in sorted(persistent_stores(p).items()):
        roots, level = [fi], 0
        while roots and level < 3:
            nxt = []
            for r in roots:
                for inst, w, miss, o, bare in analysed(p, rep, r, q):
                    up = [p.functions[x] for x in sorted(callers.get(r.qual, ())) if x in p.functions and p.functions[x].module is r.module and x != r.qual]
                    if miss and bare and up and level < 2:
                        nxt += [u for u in up if u not in nxt]
                        continue
                    if (inst, w, r.qual) in done:
                        continue
                    done.add((inst, w, r.qual))
                    if miss:
                        rep.bad("cache", inst, w, f"{show(miss[0])[:80]} determines what is stored in {show(o)[:60]}, but is not part of the key")
                    else:
                        rep.ok("cache", inst, w)
            roots, level = nxt, level + 1


def analysed(p, rep, root, store):
    mods = {root.module.name if not root.module.name.startswith("mplang.runtime.") else "", "mplang.backends.simp_worker.infra", "mplang.backends.spu_impl", "mplang.runtime.value"}
    c = Memo(p, mods)
    it = Engine(p, c)
    try:
        rets, _ = it.run(root)
    except Exception as e:
        rep.notes.append(f"{root.qual}: not followed ({type(e).__name__})")
        return
    rep.saw(root.qual)
    events = {}
    for o, k, v, st, w in c.stores:
        if k is None or k.k in ("elem", "index", "dkey"):
            continue
        # a cache: what is stored may be what the function gives back
        if not given_back(v, rets, o, st):
            continue
        known = determining(k) | determining(o)
        param_key = k.k == "param"
        base = o
        while base.k in ("attr", "item"):
            base = base.a[0]
        same = base if o.k == "attr" and o.a[0] == base else None
        m = missing(v, st, known, same)
        bare = bool(m) and all(x.k == "param" for x in m) or param_key
        if param_key and not any(x.k == "param" and x.a[1] not in ("self", k.a[1]) for x in m):
            m = []
        if param_key and m:
            # the caller chose the key together with the way the object is made
            m, bare = ([] if o.k == "attr" else m), True
            if not m:
                continue
        key = (label(o), w)
        if key not in events or m and not events[key][0]:
            events[key] = (m, o, bare)
        if process_wide(o) and traced(v):
            ambient(rep, label(o), w, o, k, rets)
    for (inst, w), (m, o, bare) in sorted(events.items()):
        yield inst, w, m, o, bare


def given_back(v, rets, o, st):
    """what is read from the container is handed out"""
    for r, s in rets:
        for x in s.deps(r):
            if x.k == "item" and x.a[0] == o or x.k == "call" and x.a[0].k == "attr" and x.a[0].a[0] == o and x.a[0].a[1] in ("get", "setdefault", "pop"):
                return True
    return False


def process_wide(o):
    while o.k in ("attr", "item"):
        o = o.a[0]
    return o.k == "modvar"


def traced(v):
    return any(x.k == "call" and (show(x.a[0]).startswith("mplang.dialects.") or x.a[0].k == "attr" and x.a[0].a[1] == "bind") for t in split(v) for x in subterms(t))


CONTEXT = ("get_current_context", "get_root_context", "_current_tracer")


def ambient(rep, inst, w, o, k, rets):
    def names_context(t):
        return any(x.k == "call" and show(x.a[0]).split(".")[-1] in CONTEXT for x in subterms(t))
    if names_context(o) or names_context(k):
        rep.ok("ambient", inst, w)
        return
    hits = [(r, s) for r, s in rets if any(x.k == "item" and x.a[0] == o for t in split(r) for x in subterms(t))]
    for r, s in hits:
        if not any(truth and t.k == "cmp" and t.a[0] in ("==", "is") and names_context(t) for t, truth in s.conds.items()):
            rep.bad("ambient", inst, w, f"what {show(o)} holds is handed out without regard to the context it was traced in")
            return
    if hits:
        rep.ok("ambient", inst, w)


# ---------------------------------------------------------------- the factory of request state

class Build(Client):
    max_states = 12
    max_depth = 6

    def __init__(self, p):
        self.p, self.made = p, []

    def should_inline(self, it, fi, call):
        return fi.name in ("__init__", "__post_init__", "set_dialect_state", "set_state", "get_state") or fi.module.name == FACTORY.rsplit(".", 1)[0]

    def quiet_call(self, it, call):
        return True


def memoised(fi):
    return any("cache" in ast.unparse(d) for d in getattr(fi.node, "decorator_list", []))


def factory(p, rep):
    fi = p.functions[FACTORY]
    rep.saw(fi.qual)
    if memoised(fi):
        rep.bad("own", "factory", fi.where, "the factory remembers its results, so that requests get the same interpreter")
        return
    c = Build(p)
    it = Engine(p, c)
    rets, _ = it.run(fi)
    infra, job = fi.params[0], fi.params[1] if len(fi.params) > 1 else None
    job = T("param", ("root", fi.qual), job) if job else None
    mut = mutated_attributes(p)
    for v, st in rets:
        r = one(v)
        if r is None or r.k != "new":
            if r is not None and any(x.k in ("modvar",) or x.k == "param" and x.a[1] == infra for x in subterms(r)) and r.k != "call":
                rep.bad("own", "interpreter", fi.where, f"the interpreter of the request, {show(r)[:80]}, is not made for it")
            continue
        rep.ok("own", "interpreter", fi.where)
        seen, todo = set(), [r]
        while todo:
            o = todo.pop()
            if o in seen:
                continue
            seen.add(o)
            cls = p.classes.get(str(o.a[0])[4:]) if str(o.a[0]).startswith("obj:") else None
            if cls is not None and cls.name == "CommContext":
                identified(p, rep, fi, o, cls, st, job)
            for slot, w in sorted(st.slots(o).items(), key=lambda kv: str(kv[0])):
                if not isinstance(w, frozenset) or slot in ("over", "keys", "filtered", "exact", "init"):
                    continue
                name = slot[1] if isinstance(slot, tuple) and slot[0] == "a" else None
                for t in w:
                    if t.k == "new":
                        todo.append(t)
                        continue
                    shared = source(t, infra)
                    if shared is None:
                        continue
                    if name is None:
                        # an entry of a container of the request: a state
                        if held_state(o, st, r):
                            rep.bad("own", f"state {show(shared)[:40]}", fi.where, f"the request is given {show(shared)[:80]}, which other requests use too")
                        continue
                    site = next((s for s in mut.get(name, ()) if cls is None or relevant(p, s, cls)), None)
                    inst = f"{cls.name if cls else 'object'}.{name}"
                    if site is not None:
                        rep.bad("own", inst, site[2], f"{site[3]} changes {show(shared)[:60]}, which requests share")
                    else:
                        rep.ok("own", inst, fi.where)


def held_state(o, st, r):
    return any(o in w for s, w in st.slots(r).items() if isinstance(w, frozenset) and s == ("a", "_states"))


def source(t, infra):
    """the shared object a slot holds, None if it is made or copied here"""
    x = t
    while x.k in ("attr", "item") or x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] in ("get", "setdefault"):
        x = x.a[0] if x.k != "call" else x.a[0].a[0]
    if t.k == "item" and x.k == "modvar":
        return t
    if t.k == "attr" and x.k == "param" and x.a[1] == infra:
        return t
    if t.k == "modvar" or t.k == "attr" and x.k in ("modvar", "class"):
        return t
    if t.k == "default":
        return t
    return None


def identified(p, rep, fi, o, cls, st, job):
    vals = [t for s, w in st.slots(o).items() if isinstance(w, frozenset) for t in w]
    if not vals or job is None:
        rep.notes.append("identifier of the request's communication context not followed")
    elif any(job in list(subterms(t)) for t in vals):
        rep.ok("own", "context identifier", fi.where)
    else:
        rep.bad("own", "context identifier", fi.where, "messages of the request are not tagged with its identifier")


def mutated_attributes(p):
    """attribute name -> sites that change the container it holds"""
    r = getattr(p, "_mutated_attributes", None)
    if r is not None:
        return r
    out = {}

    def add(attr, n, m, f, text):
        out.setdefault(attr, []).append((attr, f, where(m, n), text, n))
    for n, m, f in all_nodes(p, (ast.Subscript, ast.Call, ast.AugAssign)):
        b = None
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            b = n.value
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            b = n.func.value
        if isinstance(b, ast.Attribute):
            add(b.attr, n, m, f, ast.unparse(n)[:60])
    p._mutated_attributes = out
    return out


def relevant(p, site, cls):
    """the site changes the attribute of an instance of cls (by its own method, or through a variable named after it)"""
    f = site[1]
    n = site[4]
    b = n.value if isinstance(n, ast.Subscript) else n.func.value
    base = b.value
    if isinstance(base, ast.Name) and base.id == "self":
        k = f.cls if f is not None else None
        x = f
        while k is None and x is not None and x.parent is not None:
            x = x.parent
            k = x.cls
        return f is not None and f.name not in ("__init__", "__post_init__") and k is not None and (k is cls or k in p.mro(cls))
    name = base.id if isinstance(base, ast.Name) else base.attr if isinstance(base, ast.Attribute) else ""
    words = {"Interpreter": ("interp", "interpreter", "request_interp"), "SimpWorker": ("worker", "worker_state", "state"), "SPUState": ("spu_state",), "CommContext": ("comm_ctx", "ctx")}
    return name in words.get(cls.name, ())


# ---------------------------------------------------------------- every job has its own interpreter

class Job(Client):
    max_states = 16
    max_depth = 3

    def __init__(self, p, fi):
        self.p, self.fi, self.evals, self.runtimes, self.submits = p, fi, [], [], []

    def should_inline(self, it, fi, call):
        return fi.module is self.fi.module and fi.qual != FACTORY

    def quiet_call(self, it, call):
        return True

    def on_call(self, it, call):
        if call.name == "evaluate_graph" and call.recv is not None:
            self.evals.append((call.recv, call.args, call.kwargs, it.where(call.node), call.st))
        if call.name == "submit" and (call.kwargs.get("job_id") is not None or len(call.args) == 4) and self.fi.module.name.startswith("mplang.backends.simp_driver"):
            self.submits.append((call, it.where(call.node)))
        if (call.ext or "").endswith("api.Runtime") and call.args:
            self.runtimes.append((call.args[0], it.where(call.node), call.st))
        return None


def jobs(p, rep):
    n = 0
    for fi in sorted(p.functions.values(), key=lambda f: f.qual):
        m = fi.module.name
        if m.startswith(("mplang.backends.simp_worker", "mplang.backends.simp_driver")) and any(isinstance(x, ast.Attribute) and x.attr == "evaluate_graph" and not m.endswith(".ops") or isinstance(x, ast.keyword) and x.arg == "job_id" for x in own_nodes(fi.node)):
            rep.saw(fi.qual)
            c = Job(p, fi)
            it = Engine(p, c)
            it.run(fi)
            for recv, args, kw, w, st in c.evals:
                n += 1
                one_job(p, rep, fi, recv, w, st)
            for c1, w in c.submits:
                submitted(rep, fi, c1, w)
        if m == "mplang.backends.spu_state" and any(isinstance(x, ast.Attribute) and x.attr == "Runtime" for x in own_nodes(fi.node)):
            rep.saw(fi.qual)
            c = Job(p, fi)
            it = Engine(p, c)
            it.run(fi)
            for link, w, st in c.runtimes:
                for t in split(link):
                    spawn = t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == "spawn"
                    shared = t.k == "item" or t.k == "call" and (show(t.a[0]).endswith(("get_or_create_spu_link", ".get", ".setdefault")) or "link.create_" in show(t.a[0]))
                    if spawn:
                        rep.ok("spawned", fi.name, w)
                    elif shared:
                        rep.bad("spawned", fi.name, w, f"the runtime runs on {show(t)[:80]}, a link other requests use, instead of one spawned from it")
                    else:
                        rep.notes.append(f"spawned: link {show(t)[:60]} not decided")
    if not n:
        rep.notes.append("no job evaluation found in the workers")


def own_nodes(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        yield n
        todo.extend(ast.iter_child_nodes(n))


def submitted(rep, fi, call, w):
    """the identifier under which the parts of one job are sent to the workers"""
    v = call.kwargs.get("job_id")
    for t in split(v if v is not None else call.args[3]):
        if any(x.k == "param" and "job" in x.a[1] for x in subterms(t)) or any(x.k == "call" and show(x.a[0]).startswith(("uuid.", "secrets.", "os.urandom", "itertools", "builtins.next")) for x in subterms(t)):
            rep.ok("each", fi.name, w)
        elif t.k == "const" or all(x.k in ("attr", "param", "const", "modvar", "item", "fstr", "mod") for x in subterms(t)):
            rep.bad("each", fi.name, w, f"the job is submitted under {show(t)[:60]}, which other jobs have too")
        else:
            rep.notes.append(f"each: identifier {show(t)[:60]} not decided")


def one_job(p, rep, fi, recv, w, st):
    for t in split(recv):
        f = t.a[0] if t.k == "call" else None
        if f is not None and f.k == "func" and f.a[0] == FACTORY or t.k == "new" and "Interpreter" in str(t.a[0]):
            args = [*t.a[1], *[v for _, v in t.a[2]]] if t.k == "call" else []
            none = any(truth is False and c.k == "param" and "job" in c.a[1] for c, truth in st.conds.items())
            if t.k == "call" and not none and not any(x.k == "param" and x.a[1] not in ("self", "graph", "inputs", "rank") and (x.a[0] == ("root", fi.qual) or True) and "job" in x.a[1] or x.k == "call" and "uuid" in show(x) for a in args for x in subterms(a)):
                rep.bad("each", fi.name, w, f"the interpreter of the job is made under {show(args[1])[:60] if len(args) > 1 else 'no identifier'}, which is not the identifier of the job")
            else:
                rep.ok("each", fi.name, w)
        elif any(x.k == "call" and x.a[0].k == "func" and x.a[0].a[0] == FACTORY for x in subterms(t)):
            rep.ok("each", fi.name, w)
        elif t.k in ("modvar", "attr", "item", "unbound") or t.k == "param" and t.a[0] != ("root", fi.qual) or t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] in ("get", "setdefault"):
            rep.bad("each", fi.name, w, f"the job is evaluated by {show(t)[:80]}, which other jobs use too")
        else:
            rep.notes.append(f"each: interpreter {show(t)[:60]} of {fi.name} not decided")


# ---------------------------------------------------------------- locks

class Guard(LockClient):
    max_states = 24
    max_depth = 4

    def __init__(self, p, cls):
        super().__init__(p)
        self.p, self.cls, self.acc = p, cls, []

    def should_inline(self, it, fi, call):
        return fi.cls is self.cls

    def quiet_call(self, it, call):
        return False

    def on_unlock(self, it, lock, st, node, frame):
        return st.without(lambda f: f[0] == "tested")

    def field(self, v):
        for t in split(v):
            while t.k in ("item",):
                t = t.a[0]
            if t.k == "attr" and t.a[0].k == "param" and t.a[0].a[1] == "self":
                return t
        return None

    def note(self, obj, st, w):
        t = self.field(obj)
        if t is not None:
            tested = [c for c in st.conds if any(x == t for x in subterms(c))]
            self.acc.append((t.a[1], self.held(st), w, bool(tested), any(f[0] == "tested" and f[1] in tested for f in st.facts)))

    def on_call(self, it, call):
        r = self.lock_call(it, call)
        if r is not None:
            return r
        if call.recv is not None and call.name in MUTATORS and call.target is None:
            self.note(call.recv, call.st, it.where(call.node))
        return None

    def on_setitem(self, it, obj, idx, val, st, node, frame):
        self.note(obj, st, it.where(node))
        return st

    def on_delitem(self, it, obj, idx, st, node, frame):
        self.note(obj, st, it.where(node))
        return st

    def on_setattr(self, it, obj, name, val, st, node, frame):
        if isinstance(node, ast.AugAssign) or self.held(st):
            for t in split(obj):
                if t.k == "param" and t.a[1] == "self":
                    self.acc.append((name, self.held(st), it.where(node), False, False))
        return st

    def on_cond(self, it, term, truth, st, node, frame):
        if self.held(st) and any(x.k == "attr" and x.a[0].k == "param" for x in subterms(term)):
            return st.with_fact(("tested", term))
        return st


def locked(p, rep):
    names = set(lock_names(p))
    for q, cls in sorted(p.classes.items()):
        own = {n.attr for f in cls.methods.values() for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr in names}
        if not own:
            continue
        called = {n.func.attr for f in cls.methods.values() for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self"}
        acc = []
        for name, f in sorted(cls.methods.items()):
            if name in ("__init__", "__post_init__") or name.startswith("_") and name in called and not referenced(cls, name):
                continue
            rep.saw(f.qual)
            c = Guard(p, cls)
            it = Engine(p, c)
            try:
                it.run(f, self_cls=cls)
            except Exception as e:
                rep.notes.append(f"{f.qual}: not followed ({type(e).__name__})")
                continue
            acc += [(name, *a) for a in c.acc]
        guarded = {}
        for name, attr, held, w, tested, under in acc:
            if held:
                guarded.setdefault(attr, set()).update(held)
        for name, attr, held, w, tested, under in sorted(acc, key=lambda a: (a[1], a[3])):
            if attr not in guarded:
                continue
            inst = f"{cls.name}.{attr}@{name}"
            if not held:
                rep.bad("locked", inst, w, f"{name} changes {attr} without the lock {show(sorted(guarded[attr], key=show)[0])} that protects it elsewhere")
            elif tested and not under:
                rep.bad("locked", inst, w, f"{name} changes {attr} under the lock on the strength of a test made before taking it")
            else:
                rep.ok("locked", inst, w)


def referenced(cls, name):
    """handed out as a callback"""
    for f in cls.methods.values():
        calls = {id(n.func) for n in ast.walk(f.node) if isinstance(n, ast.Call)}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.value, ast.Name) and n.value.id == "self" and id(n) not in calls:
                return True
    return False


# ---------------------------------------------------------------- containers of the class

def container(e):
    return isinstance(e, (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp, ast.SetComp)) or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("dict", "list", "set", "defaultdict", "deque", "Counter", "OrderedDict")


def classlevel(p, rep):
    n = 0
    for q, cls in sorted(p.classes.items()):
        if not cls.module.name.startswith(("mplang.runtime", "mplang.backends")):
            continue
        n += 1
        body = {}
        for st in cls.node.body:
            t = st.targets[0] if isinstance(st, ast.Assign) else st.target if isinstance(st, ast.AnnAssign) else None
            if isinstance(t, ast.Name) and st.value is not None and container(st.value):
                body[t.id] = st
        init = {x.attr for f in cls.methods.values() if f.name in ("__init__", "__post_init__", "__new__") for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
        shared = {a: ("the class", s) for a, s in body.items() if a not in init}
        ini = cls.methods.get("__init__")
        if ini is not None:
            a = ini.node.args
            for arg, d in [*zip(reversed(a.args), reversed(a.defaults)), *[(k, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]]:
                if container(d):
                    for x in ast.walk(ini.node):
                        if isinstance(x, (ast.Assign, ast.AnnAssign)) and isinstance(x.value, ast.Name) and x.value.id == arg.arg:
                            for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                                if isinstance(t, ast.Attribute):
                                    shared[t.attr] = ("the default argument", x)
        ok = True
        for a, (what, s) in shared.items():
            for f in cls.methods.values():
                for x in ast.walk(f.node):
                    b = x.value if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) else x.func.value if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS else None
                    if isinstance(b, ast.Attribute) and b.attr == a and isinstance(b.value, ast.Name) and b.value.id in ("self",):
                        ok = False
                        rep.bad("classlevel", f"{cls.name}.{a}", where(cls.module, x), f"{f.name} changes {a}, a container of {what} that all instances share")
        if ok and (body or shared):
            rep.ok("classlevel", cls.name, where(cls.module, cls.node))
    rep.notes.append(f"classlevel: {n} classes of the runtime and the backends looked at")
