"""C07: a finished job's outcome is published whole, and failures are never hidden."""
from __future__ import annotations

import ast

from rules.common import abstract, all_nodes, where
from rules.locks import LockClient
from sa.engine import C, Client, Engine, T, V, one, show, split, subterms
from sa.project import AnalysisBroken, norm_repo_path
from sa.roles import D, Ext, Fn, Hooks, Obj, Roles, Undecided

OPEN = {"PENDING", "RUNNING", "QUEUED", "CREATED", "SUBMITTED", "STARTED", "WAITING", "NEW", "INIT"}
GOOD = {"SUCCESS", "COMPLETED", "DONE", "SUCCEEDED", "FINISHED", "OK"}
JOBMODS = ("mplang.backends.simp_driver", "mplang.backends.simp_worker.http", "mplang.backends.simp_worker.mem", "mplang.backends.simp_worker.request", "mplang.backends.simp_worker.ops", "mplang.backends.simp_worker.infra")
STEPS = {"loads_b64", "dumps_b64", "loads", "dumps", "evaluate_graph", "result", "post", "raise_for_status", "submit", "collect", "exception", "json", "loads_binary", "dumps_binary"}


def run(p, rep, tier):
    rep.rule("publish", "a job's result or error is stored before its status becomes terminal, and neither changes afterwards", 1)
    rep.rule("terminal", "every way out of the code that runs a job leaves it in a terminal status with its result or error", 1)
    rep.rule("register", "a job is registered before it is handed to the executor", 1)
    rep.rule("observe", "a poller reads the status it reports before it reads the outcome, and reports the outcome of every terminal status", 1)
    rep.rule("propagate", "no handler on a job's way turns an exception into a normal return, unless it records the failure", 4)
    rep.rule("status", "error responses carry an error status code, and the driver checks the status before it uses a response", 2)
    rep.rule("whole", "a job's outcome consists of all results of all workers, in order, and is not reported while a worker failed", 3)
    states = task_classes(p)
    for cls, sattr, enum in states:
        tasks(p, rep, cls, sattr, enum)
    if not states:
        rep.notes.append("no class with a status enumeration found: jobs are not polled")
    handlers(p, rep, states)
    codes(p, rep)
    shapes(p, rep)


# ------------------------------------------------------------------ task states
def task_classes(p):
    out = []
    for c in p.classes.values():
        if not c.module.name.startswith("mplang.backends"):
            continue
        for n in c.node.body:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                r = p.resolve_expr(n.annotation, c.module, None)
                if r and r[0] == "class" and any("Enum" in ast.unparse(b) for b in r[1].node.bases):
                    mem = [x.targets[0].id for x in r[1].node.body if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name)]
                    if any(m in GOOD for m in mem):
                        out.append((c, n.target.id, mem))
    return out


def member(v, members):
    """The enumeration member a value is."""
    for t in split(v) if not isinstance(v, T) else [v]:
        s = show(t)
        for m in members:
            if s == m or s.endswith("." + m) or t.k == "const" and str(t.a[1]).upper() == m:
                return m
    return None


class Writer(LockClient):
    path_sensitive = True
    max_states = 64

    def __init__(self, p, cls, sattr, members, payload):
        super().__init__(p)
        self.cls, self.sattr, self.members, self.payload = cls, sattr, members, payload
        self.late = []
        self.seen = False
        self.nested = ()

    def should_inline(self, it, g, call):
        return touches(g, {self.sattr, *self.payload}, self.cls) or g.name in self.nested

    def on_call(self, it, call):
        l = self.lock_call(it, call)
        if l is not None:
            return l
        if call.cls is self.cls or call.name == "replace" and self.sattr in call.kwargs:
            t = T("fresh", "task", call.site)
            fields = dict(call.kwargs)
            names = [n.target.id for n in self.cls.node.body if isinstance(n, ast.AnnAssign)]
            if call.cls is self.cls:
                fields.update(dict(zip(names, call.args)))
            return [(V(t), call.st.with_fact(("made", t, tuple(sorted((k, one(v)) for k, v in fields.items())))))]
        if call.name in ("debug", "info", "warning", "error", "exception", "str", "repr", "format", "time", "monotonic"):
            return [(V(T("call", one(call.callee) if call.callee is not None else C(call.name), tuple(call.args and (one(call.args[0]),) or ()), (), call.site)), call.st)]
        return None

    def stored(self, it, kind, name, val, st, node):
        held = frozenset(self.held(st))
        evs = [f for f in st.facts if f[0] == "ev"]
        st = st.with_fact(("ev", len(evs), kind, name, val, it.where(node), held))
        return st

    def on_setattr(self, it, obj, attr, val, st, node, frame):
        if attr == self.sattr:
            m = member(val, self.members)
            self.seen = True
            return self.stored(it, "status", m or "?", None, st, node)
        if attr in self.payload:
            self.seen = True
            return self.stored(it, "payload", attr, one(val), st, node)
        return st

    def on_setitem(self, it, obj, idx, val, st, node, frame):
        for t in split(val):
            for f in st.facts:
                if f[0] == "made" and f[1] is t:
                    d = dict(f[2])
                    for a in self.payload:
                        if a in d and not (d[a].k == "const" and d[a].a[1] is None):
                            st = self.stored(it, "payload", a, d[a], st, node)
                    if self.sattr in d:
                        self.seen = True
                        st = self.stored(it, "status", member(d[self.sattr], self.members) or "?", None, st, node)
        return st

    def on_handler(self, it, exc, st, node, frame):
        return st.with_fact(("caught", it.where(node)))


def touches(g, attrs, cls, _depth=0):
    for n in ast.walk(g.node):
        if isinstance(n, ast.Attribute) and n.attr in attrs:
            return True
        if isinstance(n, ast.Name) and n.id == cls.name:
            return True
    return False


def tasks(p, rep, cls, sattr, members):
    rep.saw(cls.qual)
    payload = [n.target.id for n in cls.node.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id != sattr]
    term = [m for m in members if m not in OPEN]
    writers, readers = {}, {}
    for f in p.functions.values():
        if f.module is not cls.module or f.cls is cls:
            continue
        own = [n for n in ast.walk(f.node)]
        called = {id(n.func) for n in own if isinstance(n, ast.Call)}
        st = any(isinstance(n, ast.Attribute) and n.attr == sattr and isinstance(n.ctx, ast.Store) for n in own)
        mk = any(isinstance(n, ast.Call) and (r := p.resolve_expr(n.func, f.module, f)) and r[0] == "class" and r[1] is cls for n in own)
        rd = any(isinstance(n, ast.Attribute) and n.attr in payload and isinstance(n.ctx, ast.Load) and id(n) not in called for n in own) and any(isinstance(n, ast.Attribute) and n.attr == sattr and isinstance(n.ctx, ast.Load) for n in own)
        if f.children and any(c.module is f.module for c in f.children.values()) and f.parent is None:
            continue  # the routes are defined inside; they are looked at one by one
        if st or mk:
            writers[f.qual] = f
        if rd:
            readers[f.qual] = f
    produced = set()
    # writers that run a job: they reach an open status and a terminal one, directly or through helpers
    helpers = set()
    for f in writers.values():
        for g in writers.values():
            if g is not f and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == f.name for n in own_nodes(g)):
                helpers.add(f.qual)
    locks_w = None
    runners = []
    for q, f in writers.items():
        if q in helpers:
            continue
        cl = Writer(p, cls, sattr, members, payload)
        cl.nested = {writers[h].name for h in helpers}
        rets, raises = Engine(p, cl).run(f, self_cls=f.cls)
        if not cl.seen:
            continue
        rep.saw(q)
        allev = [[e for e in sorted((x for x in st.facts if x[0] == "ev"), key=lambda e: e[1])] for _, st in rets]
        isrunner = any(e[2] == "status" and e[3] in term for evs in allev for e in evs)
        if isrunner:
            runners.append(f)
        bad = None
        held_all = None
        for evs in allev:
            done = None
            for e in evs:
                h = e[6]
                if e[2] == "payload":
                    produced.add(e[3])
                if e[2] == "status" and e[3] in term:
                    if done is not None and done[3] != e[3]:
                        bad = bad or (e[5], f"the status is set to {e[3]} after it was {done[3]}", done[6] & h)
                    done = done or e
                elif done is not None and e[2] == "status":
                    bad = bad or (e[5], f"the status goes back to {e[3]} after it was {done[3]}", done[6] & h)
                elif done is not None and e[2] == "payload":
                    bad = bad or (e[5], f"{e[3]} is stored after the status became {done[3]}: a poller in between sees a finished job without it", done[6] & h)
        locked = bad is not None and bool(bad[2]) and reader_locked(p, readers, cls, sattr, payload, bad[2])
        rep.check(bad is None or locked, "publish", f.name, bad[0] if bad else f.where, bad[1] if bad else "")
        if not isrunner:
            continue
        bad = None
        for (_, st), evs in zip(rets, allev):
            stt = [e for e in evs if e[2] == "status"]
            last = stt[-1] if stt else None
            pl = {e[3]: e[4] for e in evs if e[2] == "payload"}
            caught = [x for x in st.facts if x[0] == "caught"]
            if last is None or last[3] not in term:
                bad = bad or (f.where, f"a path ends with the job {last[3] if last else 'untouched'}: it never becomes terminal and pollers wait forever")
            elif last[3] in GOOD:
                if not any("result" in x or "value" in x or "output" in x for x in pl):
                    bad = bad or (last[5], f"the job becomes {last[3]} without a stored result")
                if caught:
                    bad = bad or (last[5], f"the job becomes {last[3]} although an exception was caught at {caught[0][1]}")
            else:
                er = [v for k, v in pl.items() if "err" in k or "exc" in k or "detail" in k or "message" in k]
                if not er or any(v.k == "const" and not v.a[1] for v in er):
                    bad = bad or (last[5], f"the job becomes {last[3]} without a stored error")
        for exc, st in raises:
            evs = [e for e in sorted((x for x in st.facts if x[0] == "ev"), key=lambda e: e[1]) if e[2] == "status"]
            if exc.k == "exc" and exc.a[0] and set(exc.a[0]) <= {"LookupError", "KeyError", "IndexError"}:
                continue  # the job's own table entry
            if not evs or evs[-1][3] not in term:
                bad = bad or (f.where, f"an exception ({show(exc)[:50]}) escapes while the job is {evs[-1][3] if evs else 'untouched'}: it never becomes terminal")
        rep.check(bad is None, "terminal", f.name, bad[0] if bad else f.where, bad[1] if bad else "")
    if not runners:
        rep.bad("terminal", f"{cls.name}: runner", cls.where if hasattr(cls, "where") else "", "no code sets a terminal status")
    registers(p, rep, cls, sattr, members, payload, runners, writers)
    observers(p, rep, cls, sattr, members, payload, readers, produced, term)


def reader_locked(p, readers, cls, sattr, payload, locks):
    """All readers hold one of the writer's locks while they read."""
    for f in readers.values():
        class R(LockClient):
            free = False

            def on_getattr(self, it, obj, attr, st, node, frame):
                if attr == sattr or attr in payload:
                    if not self.held(st):
                        self.free = True
                return None

            def on_call(self, it, call):
                return self.lock_call(it, call)

        cl = R(p)
        Engine(p, cl).run(f, self_cls=f.cls)
        if cl.free:
            return False
    return bool(readers)


def registers(p, rep, cls, sattr, members, payload, runners, writers):
    names = {f.name: f for f in runners}
    for q, f in list(writers.items()) + [(g.qual, g) for g in p.functions.values() if g.module is cls.module]:
        if f in runners or f.children:
            continue
        hands = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and any(hands_over(a, names) for a in (*n.args, *[k.value for k in n.keywords]))]
        lams = {id(a): a for n in hands for a in ast.walk(n) if isinstance(a, ast.Lambda)}
        if not hands or getattr(f, "_c07", None) is rep:
            continue
        f._c07 = rep
        rep.saw(f.qual)

        class R(Writer):
            handed = None

            def on_call(self, it, call):
                vals = [*call.args, *call.kwargs.values()]
                for v in vals:
                    for t in split(v):
                        if any(y.k in ("closure", "func") and (any(n in show(y) for n in names) or "lambda" in show(y) and lams) for y in subterms(t)):
                            reg = [x for x in call.st.facts if x[0] == "ev" and x[2] == "status"]
                            self.handed = self.handed or []
                            self.handed.append((bool(reg), it.where(call.node)))
                            return [(V(T("fresh", "future", call.site)), call.st)]
                return super().on_call(it, call)

        cl = R(p, cls, sattr, members, payload)
        Engine(p, cl).run(f, self_cls=f.cls)
        if not cl.handed:
            # the engine does not see the callable: fall back on the order of statements
            rep.notes.append(f"{f.name}: hand-over of the runner not resolved")
            continue
        late = [w for ok, w in cl.handed if not ok]
        rep.check(not late, "register", f.name, late[0] if late else f.where, "the job is handed to the executor before it is registered: it may finish first, and its entry is missing or overwritten as not started")


def hands_over(a, names):
    if isinstance(a, ast.Name):
        return a.id in names
    if isinstance(a, ast.Lambda):
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in names for n in ast.walk(a.body))
    if isinstance(a, ast.Call) and "partial" in ast.unparse(a.func):
        return any(hands_over(x, names) for x in a.args)
    return False


def possible(st, sread, m, members):
    """May this path be taken while every read of the status gives m?"""
    for c, tr in st.conds.items():
        if c.k != "cmp" or len(c.a) < 3 or not any(x in sread or any(y in sread for y in subterms(x)) for x in c.a[1:3] if isinstance(x, T)):
            continue
        a, b = c.a[1], c.a[2]
        if b in sread or any(y in sread for y in subterms(b)):
            a, b = b, a
        if c.a[0] in ("==", "is"):
            k = member(b, members)
            if k is not None and (k == m) != tr:
                return False
        elif c.a[0] == "in" and b.k in ("tup", "list", "set", "seq"):
            ks = {member(y, members) for x in b.a for y in (x if isinstance(x, (tuple, frozenset)) else (x,)) if isinstance(y, T)}
            if None not in ks and ks and (m in ks) != tr:
                return False
    return True


def observers(p, rep, cls, sattr, members, payload, readers, produced, term):
    if not readers:
        rep.notes.append(f"no reader of {cls.name}")
    n_rep = 0
    for f in readers.values():
        if f.children:
            continue

        class R(LockClient):
            path_sensitive = True

            def __init__(self):
                super().__init__(p)

            def on_call(self, it, call):
                return self.lock_call(it, call)

            def on_getattr(self, it, obj, attr, st, node, frame):
                if attr == sattr or attr in payload:
                    if any(t.k in ("fresh",) and t.a[0] in ("read",) for t in split(obj)):
                        return None
                    n = sum(1 for x in st.facts if x[0] == "read")
                    t = T("fresh", "read", (attr, n, it.site(node) if hasattr(it, "site") else id(node)))
                    return [(V(t), st.with_fact(("read", n, attr, t, it.where(node), frozenset(self.held(st)))))]
                return None

        cl = R()
        rets, _ = Engine(p, cl).run(f, self_cls=f.cls)
        rep.saw(f.qual)
        bad = None
        reported = set()
        reports = False
        for v, st in rets:
            reads = sorted((x for x in st.facts if x[0] == "read"), key=lambda x: x[1])
            if not reads:
                continue
            inside = set()
            for t in split(v):
                inside |= set(subterms(t))
                for s, x in st.slots(t).items():
                    for y in split(x):
                        inside |= set(subterms(y))
                for y in st.deps(V(t)):
                    if isinstance(y, T):
                        inside |= set(subterms(y))
            out = [r for r in reads if r[3] in inside]
            for r in out:
                if r[2] in payload:
                    reported.add(r[2])
            stat = [r for r in out if r[2] == sattr]
            if not stat:
                continue
            reports = True
            locked = frozenset.intersection(*[r[5] for r in reads])
            first = stat[0]
            before = [r for r in reads if r[1] < first[1]]
            if before and not locked:
                bad = bad or (first[4], f"the reported status is read after {before[0][2]} ({before[0][4]}): a job that finishes in between is reported finished without its outcome")
            sread = {r[3] for r in reads if r[2] == sattr}
            for m in term:
                if not possible(st, sread, m, members):
                    continue
                want = "err" if m not in GOOD else "res"
                named = [a for a in payload if want in a]
                if named and not any(r[2] in named for r in out):
                    bad = bad or (f.where, f"a job that is {m} can be reported without its {named[0]}")
        if not reports:
            continue
        n_rep += 1
        rep.check(bad is None, "observe", f.name, bad[0] if bad else f.where, bad[1] if bad else "")
        missing = [a for a in produced if a not in reported and ("err" in a or "res" in a)]
        rep.check(not missing, "observe", f"{f.name}: outcome reported", f.where, f"{', '.join(missing)} is stored by the worker but never reported")


# ------------------------------------------------------------------ swallowed exceptions
CLEANUP = ("shutdown", "close", "stop", "__del__", "__exit__", "wait_pending", "cleanup", "_drain")


def step_calls(p, f, body, memo, depth=0):
    """Does the code under a try run a step of a job?"""
    for s in body:
        for n in ast.walk(s):
            if not isinstance(n, ast.Call):
                continue
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
            if nm in STEPS:
                return nm
            if nm in ("get", "put") and isinstance(n.func, ast.Attribute) and "store" in ast.unparse(n.func.value):
                return nm
            if nm == "run_in_executor":
                return nm
            g = None
            if isinstance(n.func, ast.Name):
                h = f
                while h is not None and g is None:
                    g = h.children.get(n.func.id)
                    h = h.parent
                if g is None:
                    r = p.resolve_expr(n.func, f.module, f)
                    g = r[1] if r and r[0] == "func" else None
            elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and f.cls is not None:
                g = p.find_method(f.cls, n.func.attr)
            if g is not None and g.qual not in memo and depth < 5:
                memo.add(g.qual)
                x = step_calls(p, g, g.node.body, memo, depth + 1)
                if x:
                    return x
    return None


def handlers(p, rep, states):
    sattrs = {s for _, s, _ in states}
    pay = {n.target.id for c, s, _ in states for n in c.node.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id != s}
    n_f = 0
    for f in p.functions.values():
        m = f.module.name
        if not m.startswith(JOBMODS):
            continue
        if f.cls is not None and {"send", "recv"} <= set(f.cls.methods):
            continue  # transports: C04
        if any(c in f.name for c in CLEANUP):
            continue
        n_f += 1
        # return in finally drops the exception
        own = own_nodes(f)
        fin = [r for t in own if isinstance(t, ast.Try) for s in t.finalbody for r in ast.walk(s) if isinstance(r, (ast.Return, ast.Break, ast.Continue))]
        if any(isinstance(t, ast.Try) for t in own):
            rep.check(not fin, "propagate", f"{f.name}: finally", where(f.module, fin[0]) if fin else f.where, "leaving a finally block by return drops the exception being raised")
        sup = [n for n in own if isinstance(n, (ast.With, ast.AsyncWith)) for i in n.items if isinstance(i.context_expr, ast.Call) and "suppress" in ast.unparse(i.context_expr.func) and step_calls(p, f, n.body, set())]
        for n in sup:
            rep.bad("propagate", f"{f.name}: suppress", where(f.module, n), f"an exception of {step_calls(p, f, n.body, set())} is dropped")
        rx = [c for n in own if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "gather" for c in n.keywords if c.arg == "return_exceptions" and isinstance(c.value, ast.Constant) and c.value.value]
        for c in rx:
            rep.bad("propagate", f"{f.name}: gather", where(f.module, c.value), "exceptions are returned as results")
        tries = [t for t in own if isinstance(t, ast.Try) and t.handlers and step_calls(p, f, t.body, set())]
        if not tries:
            continue
        rep.saw(f.qual)
        lines = {(h.lineno): t for t in tries for h in t.handlers}

        class K(Client):
            max_states = 48

            def should_inline(self, it, g, call):
                return g.parent is not None and g.parent is f or touches_states(g, sattrs | pay)

            def on_call(self, it, call):
                if call.name in ("debug", "info", "warning", "error", "exception") and call.target is None and call.recv is not None and any("log" in show(t) for t in split(call.recv)):
                    return [(V(C(None)), call.st)]
                if call.name in ("set_exception", "cancel") or "error" in call.kwargs:
                    return [(V(T("fresh", call.name, call.site)), call.st.without(lambda x: x[0] == "caught"))]
                return None

            def on_handler(self, it, exc, st, node, frame):
                if frame.func is f and node.lineno in lines:
                    return st.with_fact(("caught", it.where(node)))
                return st

            def on_setattr(self, it, obj, attr, val, st, node, frame):
                if attr in pay and ("err" in attr or "exc" in attr):
                    return st.without(lambda x: x[0] == "caught")
                return st

            def on_setitem(self, it, obj, idx, val, st, node, frame):
                for t in split(val):
                    for s, v in st.slots(t).items():
                        if any("FAIL" in show(y) or "ERR" in show(y) for y in split(v)):
                            return st.without(lambda x: x[0] == "caught")
                return st

        rets, _ = Engine(p, K()).run(f, self_cls=f.cls)
        bad = sorted({x[1] for _, st in rets for x in st.facts if x[0] == "caught"})
        rep.check(not bad, "propagate", f"{f.name}: handlers", bad[0] if bad else f.where, "the exception caught here becomes a normal return: the failure of the job is hidden")
    rep.notes.append(f"{n_f} functions of the job path looked at")


def touches_states(g, attrs):
    return any(isinstance(n, ast.Attribute) and n.attr in attrs and isinstance(n.ctx, ast.Store) for n in ast.walk(g.node))


def own_nodes(f):
    out, st = [], list(f.node.body) if isinstance(f.node.body, list) else [f.node.body]
    while st:
        n = st.pop()
        out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st += list(ast.iter_child_nodes(n))
    return out


# ------------------------------------------------------------------ status codes
def codes(p, rep):
    for n, m, f in all_nodes(p, ast.Call):
        if not m.name.startswith(("mplang.backends", "mplang.runtime")):
            continue
        nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
        if nm != "HTTPException":
            continue
        c = next((k.value for k in n.keywords if k.arg == "status_code"), n.args[0] if n.args else None)
        v = c.value if isinstance(c, ast.Constant) else None
        if v is None:
            continue
        rep.check(v >= 400, "status", f"{f.name if f else m.name}: error code", where(m, n), f"an error is reported with status {v}, which callers take for success")
    # raising an HTTPException is what reports it: creating or returning one does not
    for n, m, f in all_nodes(p, ast.Return):
        if n.value is not None and m.name.startswith("mplang.backends") and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == "HTTPException":
            rep.bad("status", f"{f.name}: error returned", where(m, n), "the error is returned, not raised: the caller sees success")
    # the driver checks the status of responses
    for f in p.functions.values():
        if not f.module.name.startswith("mplang.backends.simp_driver"):
            continue
        if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("post", "get", "put", "request") and "client" in ast.unparse(n.func.value) for n in own_nodes(f)):
            continue
        rep.saw(f.qual)

        class K(Client):
            path_sensitive = True

            def __init__(self):
                self.used = []

            def should_inline(self, it, g, call):
                return g.cls is f.cls or g.module is f.module

            def on_call(self, it, call):
                if call.name in ("post", "get", "put", "request") and call.recv is not None and any("client" in show(t) for t in split(call.recv)):
                    return [(V(T("fresh", "response", call.site)), call.st)]
                if call.recv is not None and any(t.k == "fresh" and t.a[0] == "response" for t in split(call.recv)):
                    if call.name == "raise_for_status":
                        return [(call.recv, call.st.with_fact(("checked",)))]
                    if call.name in ("json", "read"):
                        self.use(it, call.st, call.node)
                return None

            def on_getattr(self, it, obj, attr, st, node, frame):
                if attr in ("content", "text") and any(t.k == "fresh" and t.a[0] == "response" for t in split(obj)):
                    self.use(it, st, node)
                return None

            def use(self, it, st, node):
                ok = any(x[0] == "checked" for x in st.facts) or any(any(y.k == "attr" and y.a[1] in ("status_code", "is_success", "is_error", "ok") for y in subterms(c)) for c in st.conds)
                self.used.append((ok, it.where(node)))

        cl = K()
        rets, _ = Engine(p, cl).run(f, self_cls=f.cls)
        late = [w for ok, w in cl.used if not ok]
        rep.check(not late, "status", f"{f.name}: response checked", late[0] if late else f.where, "the response is used before its status is checked: a worker's error is taken for a result")
        if not cl.used:
            # a response nobody looks at: a failing worker goes unnoticed
            unchecked = any(not any(x[0] == "checked" for x in st.facts) for _, st in rets)
            rep.check(not unchecked, "status", f"{f.name}: response checked", f.where, "the status of the response is never checked")


# ------------------------------------------------------------------ whole outcomes
class Shape(Hooks):
    """Job steps on named workers and values."""

    def __init__(self, outputs=3, results=None, late=False):
        self.results = results
        self.outputs = outputs
        self.late = late

    def call(self, ev, callee, name, recv, args, kwargs, node):
        if name == "create_request_interpreter" or isinstance(callee, Fn) and callee.fi is not None and callee.fi.name == "create_request_interpreter":
            return Obj("interp")
        if name == "evaluate_graph":
            ev.trace.append(("eval", args[1] if len(args) > 1 else None))
            return [D("res", i) for i in range(self.outputs)]
        if name in ("put", "get") and args and not isinstance(recv, dict) and ("store" in ast.unparse(node.func)):
            return D(name, args[0])
        if name == "wait" and isinstance(callee, Ext) or isinstance(callee, Ext) and callee.name.endswith("futures.wait"):
            return (list(reversed(list(args[0]))), [])
        if name == "as_completed" or isinstance(callee, Ext) and callee.name.endswith("as_completed"):
            return list(reversed(list(args[0])))
        if name == "submit" and isinstance(recv, (Obj, D)):
            ev.trace.append(("submit", args, kwargs))
            return D("fut", args[0] if args else None)
        if name == "collect" and isinstance(recv, (Obj, D)):
            ev.trace.append(("collect", args[0] if args else None))
            return [[D("uri", w, o) for o in range(self.outputs)] for w in range(3)]
        if name == "result" and isinstance(recv, D):
            return D("result", recv)
        if name in ("exception", "cancelled") and isinstance(recv, D):
            return D(name, recv)
        if name in ("cancel", "shutdown", "wait_pending_sends"):
            return None
        if name == "sleep":
            return None
        if isinstance(callee, Ext) and callee.name.endswith("DriverVar"):
            return D("var", *(args[0] if args and isinstance(args[0], (list, tuple)) else args))
        if isinstance(callee, Fn) and callee.fi is not None and "wrap" in callee.fi.name:
            return Obj("graph")
        if isinstance(callee, Fn) and callee.fi is not None and "driver" in callee.fi.name and "context" in callee.fi.name:
            return Obj("driver", world_size=3)
        if name == "get_dialect_state":
            return Obj("driver", world_size=3)
        return NotImplemented


def rows(outs, kind="return"):
    return [o for o in outs if o.kind == kind]


def shapes(p, rep):
    # 1. workers: resolve inputs, evaluate, store every result
    for f in list(p.functions.values()):
        if not f.module.name.startswith(("mplang.backends.simp_worker", "mplang.backends.simp_driver")):
            continue
        nodes = own_nodes(f)
        names = {n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", None) for n in nodes if isinstance(n, ast.Call)}
        if "evaluate_graph" in names and "create_request_interpreter" in names:
            worker_shape(p, rep, f)
        if f.name == "collect" and f.cls is not None and "submit" in f.cls.methods and not is_abstract(f):
            collect_shape(p, rep, f)
        if "submit" in names and "collect" in names and "op" in f.params:
            dispatch_shape(p, rep, f)


def is_abstract(f):
    return abstract(f) or all(isinstance(s, (ast.Expr, ast.Pass, ast.Raise)) for s in f.node.body)


def worker_shape(p, rep, f):
    rep.saw(f.qual)
    bad = None
    returned = set()
    try:
        for n in (0, 1, 3):
            h = Shape(outputs=n)
            ev = Roles(p, h)

            def make(h=h, n=n):
                kw = {}
                for x in f.params:
                    if x == "self":
                        kw[x] = Obj("self", _infras=[Obj("infra", store=Obj("store"))] * 3)
                    elif x == "rank":
                        kw[x] = 0
                    elif x == "graph":
                        kw[x] = Obj("graph", outputs=[D("out", i) for i in range(n)])
                    elif x == "inputs":
                        kw[x] = [D("in", 0), None, D("in", 2)]
                return [], kw

            f2 = f
            for o in ev.outcomes(f2, None, make=make):
                for q in ev.seen_funcs:
                    rep.saw(q)
                if o.kind == "raise":
                    continue
                returned.add(n)
                none = {k for k, _, _, v in o.log if ("ne(" in k and not v) or ("eq(" in k and v)}
                fed = next((e[1] for e in reversed(o.trace) if e[0] == "eval"), None)
                if fed is None:
                    bad = bad or "a path returns without running the graph"
                elif not isinstance(fed, list) or len(fed) != 3 or not same_input(fed, none):
                    bad = bad or f"the graph is run with {fed}, not with all inputs in order"
                if n == 0:
                    continue
                v = o.value
                if not isinstance(v, (list, tuple)) or len(v) != n:
                    bad = bad or f"{n} results are returned as {v}"
                    continue
                for i, x in enumerate(v):
                    isnone = any(f"res({i})" in k for k in none)
                    if x is None and not isnone or x is not None and repr(x) not in (f"put(res({i}))",):
                        bad = bad or f"result {i} of {n} is returned as {x}"
    except Undecided as u:
        rep.notes.append(f"{f.name}: not decided ({u})")
        return
    if len(returned) < 3 and bad is None:
        bad = f"it never returns for {min({0, 1, 3} - returned)} outputs"
    rep.check(bad is None, "whole", f"{f.name}: results", f.where, bad or "")


def same_input(fed, none):
    for i, x in enumerate(fed):
        if i == 1:
            if x is not None:
                return False
        elif x is None:
            if not any(f"in({i})" in k for k in none):
                return False
        elif repr(x) != f"get(in({i}))":
            return False
    return True


def collect_shape(p, rep, f):
    rep.saw(f.qual)
    bad = None
    try:
        ev = Roles(p, Shape())

        def make():
            return [Obj("self"), [D("fut", 0), D("fut", 1), D("fut", 2)]], {}

        outs = ev.outcomes(f, None, make=make)
        for q in ev.seen_funcs:
            rep.saw(q)
        for o in rows(outs):
            failed = [k for k, _, _, v in o.log if "exception(" in k and (v if not k.startswith(("eq(", "Is")) else not v)]
            if failed:
                bad = bad or f"returns normally although {failed[0][:50]} says that a worker failed"
            v = o.value
            if not isinstance(v, (list, tuple)) or [repr(x) for x in v] != [f"result(fut({i}))" for i in range(3)]:
                bad = bad or f"returns {v}, not every worker's result in order"
        if not rows(outs):
            rep.notes.append(f"{f.qual}: never returns")
    except Undecided as u:
        rep.notes.append(f"{f.qual}: not decided ({u})")
        return
    rep.check(bad is None, "whole", f"{f.cls.name}.{f.name}", f.where, bad or "")


def dispatch_shape(p, rep, f):
    rep.saw(f.qual)
    bad = None
    returned = set()
    try:
        for n in (0, 1, 3):
            h = Shape(outputs=n)
            ev = Roles(p, h)

            def make(h=h, n=n):
                op = Obj("op", outputs=[D("out", i) for i in range(n)], inputs=[], opcode="x")
                return [Obj("interpreter"), op, D("arg", 0), D("arg", 1)], {}

            for o in ev.outcomes(f, None, make=make):
                for q in ev.seen_funcs:
                    rep.saw(q)
                if o.kind == "raise":
                    continue
                returned.add(n)
                subs = [(e[1], e[2]) for e in o.trace if e[0] == "submit"]
                ranks = [a[0] for a, k in subs]
                if ranks != [0, 1, 2]:
                    bad = bad or f"the job is submitted to the workers {ranks} of 3"
                for a, k in subs:
                    ins = a[2] if len(a) > 2 else k.get("inputs")
                    for i, x in enumerate(ins if isinstance(ins, list) else []):
                        var = any(f"isinstance(arg({i})" in kk and v for kk, _, _, v in o.log)
                        want = f"item(arg({i}), {a[0]})" if var else f"arg({i})"
                        if repr(x) != want:
                            bad = bad or f"worker {a[0]} gets {x} as argument {i}"
                    if not isinstance(ins, list) or len(ins) != 2:
                        bad = bad or f"worker {a[0]} gets the inputs {ins}"
                col = [e for e in o.trace if e[0] == "collect"]
                if len(col) != 1 or not isinstance(col[0][1], (list, tuple)) or [repr(x) for x in col[0][1]] != [f"fut({i})" for i in range(3)]:
                    bad = bad or f"the results are collected from {col[0][1] if col else 'nobody'}"
                if n == 0:
                    continue
                v = o.value
                vs = [v] if n == 1 else v
                want = [f"var({', '.join(f'uri({w}, {i})' for w in range(3))})" for i in range(n)]
                if not isinstance(vs, (list, tuple)) or [repr(x) for x in vs] != want:
                    bad = bad or f"the {n} outputs of the job are returned as {vs}"
    except Undecided as u:
        rep.notes.append(f"{f.name}: not decided ({u})")
        return
    if len(returned) < 3 and bad is None:
        bad = f"it never returns for {min({0, 1, 3} - returned)} outputs"
    rep.check(bad is None, "whole", f"{f.name}: outputs", f.where, bad or "")
