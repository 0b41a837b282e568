"""C04: each point-to-point message reaches exactly its own receiver, once."""
from __future__ import annotations

import ast

from sa.engine import C, NONE, Engine, T, V, one, show, split, subterms
from sa.project import AnalysisBroken
from rules.common import all_nodes, qualname, strip_sites, where
from rules.locks import LockClient
from rules.serde_model import callee_ext, callee_name

ASSUMPTIONS = [
    "HTTP PUT delivers the request body and headers unchanged; httpx raises on transport errors",
    "threading.Condition and concurrent.futures behave as documented",
]

PKG = "mplang.backends.simp_worker"


def run(p, rep, tier):
    rep.rule("recv", "receive returns exactly the message it removed from the mailbox under the key made of its own source and key arguments, found present under the same lock hold", 2)
    rep.rule("deposit", "the deposit stores exactly the given message under the key made of its sender and key arguments, only after finding the slot empty under the same lock hold, and raises otherwise", 2)
    rep.rule("wake", "every successful deposit and every shutdown wakes all waiting receivers while holding the lock", 2)
    rep.rule("wait", "waiting releases the mailbox lock only inside a loop that re-tests; a timed wait ends in a timeout error when, and only when, the limit has passed", 1)
    rep.rule("private", "the mailbox is touched only by its own communicator class", 1)
    rep.rule("route", "send addresses exactly the requested peer with its own rank, the given key and the given payload, and the transport hands them to that peer's deposit unchanged", 4)
    rep.rule("codec", "for every transport mode the receiver applies the inverse of the encoding the sender applied", 2)
    rep.rule("failure", "a failed delivery raises out of the blocking send and out of request handles", 4)
    comms = communicators(p)
    if not comms:
        raise AnalysisBroken("no communicator class with recv and send found")
    info = {}
    for c in comms:
        info[c.qual] = mailbox_rules(p, rep, c)
    private_rule(p, rep, comms, info)
    sends = {}
    for c in comms:
        sends[c.qual] = send_rules(p, rep, c, info[c.qual])
    http_rules(p, rep, comms, info, sends)
    handle_rules(p, rep)


def communicators(p):
    out = []
    for c in p.classes.values():
        if not c.module.name.startswith("mplang."):
            continue
        r, s = c.methods.get("recv"), c.methods.get("send")
        if r is None or s is None or any("Protocol" in ast.unparse(b) for b in c.node.bases):
            continue
        # a mailbox: an attribute of self indexed, popped or tested with a key from recv's arguments
        if any(isinstance(n, ast.Attribute) and n.attr in ("pop", "popitem") or isinstance(n, (ast.Delete, ast.In)) for f in c.methods.values() for n in ast.walk(f.node)):
            out.append(c)
    return out


class Mail(LockClient):
    """Tracks the typestate of one mailbox slot."""
    max_states = 64
    path_sensitive = False

    def __init__(self, p, cls, box, fi):
        super().__init__(p)
        self.p, self.cls, self.box, self.fi = p, cls, box, fi
        self.selft = T("param", ("root", fi.qual), fi.params[0])
        self.events = []  # (kind, key, value, st, where)

    def should_inline(self, it, g, call):
        return g.cls is self.cls or (g.parent is not None and g.module is self.cls.module)

    def is_box(self, t):
        if isinstance(t, frozenset):
            return any(self.is_box(x) for x in split(t))
        return t.k == "attr" and t.a[0] is self.selft and t.a[1] in self.box

    def on_lock(self, it, lock, st, node, frame):
        return st.without(lambda f: f[0] in ("present", "absent", "cond"))

    on_unlock = on_lock

    def on_cond(self, it, term, truth, st, node, frame):
        # what is read under the lock does not change until the lock is released or waited on
        if self.held(st):
            if ("cond", term, not truth) in st.facts:
                return None
            st = st.with_fact(("cond", term, truth))
        if term.k == "cmp" and term.a[0] == "in" and self.is_box(term.a[2]):
            st = st.without(lambda f: f[0] in ("present", "absent") and f[1] is term.a[1])
            if self.held(st):
                st = st.with_fact(("present" if truth else "absent", term.a[1]))
        if term.k == "cmp" and term.a[0] in ("is", "==") and not truth:
            # item compared with a private marker of absence
            for a, b in ((term.a[1], term.a[2]), (term.a[2], term.a[1])):
                if a.k == "peek" and a.a[1] is b and b is not NONE and self.held(st):
                    st = st.with_fact(("present", a.a[0]))
        if term.k == "cmp" and term.a[0] in ("is", "==") and truth:
            for a, b in ((term.a[1], term.a[2]), (term.a[2], term.a[1])):
                if a.k == "peek" and a.a[1] is b and b is not NONE and self.held(st):
                    st = st.with_fact(("absent", a.a[0]))
        return st

    def on_call(self, it, call):
        r = self.lock_call(it, call)
        if r is not None:
            return r
        st = call.st
        if call.recv is not None and any(self.is_lock(t) for t in split(call.recv)):
            if call.name in ("wait", "wait_for"):
                st = st.without(lambda f: f[0] in ("present", "absent", "cond"))
                tm = call.arg(0 if call.name == "wait" else 1, "timeout")
                timed = tm is not None and one(tm) is not NONE
                self.events.append(("wait", tm if timed else None, call, st, it.where(call.node)))
                if call.name == "wait":
                    return [(V(T("fresh", "woken", call.site)), st)]
                pred = call.arg(0, "predicate")
                out = []
                for v, s2 in it.call_term(one(pred), [], {}, st, call.node):
                    for tr, s3 in it._cond_on_value(v, s2, call.node, call.node):
                        if tr or timed:
                            out.append((V(C(tr)), s3))
                return out
            if call.name in ("notify", "notify_all", "notifyAll"):
                ok = any(t in self.held(st) for t in split(call.recv))
                self.events.append(("notify", call.name, ok, st, it.where(call.node)))
                return [(V(NONE), st.with_fact(("notified", call.name)))]
        if call.recv is not None and any(self.is_box(t) for t in split(call.recv)):
            key = one(call.args[0]) if call.args else None
            if call.name == "pop" and key is not None:
                self.events.append(("take", key, len(call.args) > 1, st, it.where(call.node)))
                present = ("present", key) in st.facts
                m = T("msg", key)
                out = [(V(m), st.without(lambda f: f[0] in ("present", "cond")).with_fact(("taken", key)))]
                if len(call.args) > 1 and not present:
                    out.append((call.args[1], st))
                return out
            if call.name == "get" and key is not None:
                self.events.append(("read", key, None, st, it.where(call.node)))
                if ("present", key) in st.facts:
                    return [(V(T("msg", key)), st)]
                d = one(call.args[1]) if len(call.args) > 1 else NONE
                if d is NONE:
                    return [(V(T("msg", key)), st), (V(NONE), st)]
                return [(V(T("peek", key, d)), st)]
            if call.name == "setdefault" and key is not None:
                self.events.append(("put", key, call.args[1] if len(call.args) > 1 else None, st, it.where(call.node)))
                return [(V(T("msg", key)), st.with_fact(("stored", key)))]
            if call.name in ("clear", "update", "popitem"):
                self.events.append(("bulk", call.name, None, st, it.where(call.node)))
        return None

    def on_getitem(self, it, obj, idx, st, node, frame):
        if self.is_box(obj):
            self.events.append(("read", one(idx) if not isinstance(idx, T) else idx, None, st, it.where(node)))
            return [(V(T("msg", one(idx) if not isinstance(idx, T) else idx)), st)]
        return None

    def on_setitem(self, it, obj, idx, val, st, node, frame):
        if self.is_box(obj):
            k = one(idx) if not isinstance(idx, T) else idx
            self.events.append(("put", k, val, st, it.where(node)))
            return st.without(lambda f: f[0] in ("notified", "cond")).with_fact(("stored", k))
        return st

    def on_delitem(self, it, obj, idx, st, node, frame):
        if self.is_box(obj):
            k = one(idx) if not isinstance(idx, T) else idx
            self.events.append(("take", k, False, st, it.where(node)))
            return st.without(lambda f: f[0] == "present").with_fact(("taken", k))
        return st

    def on_handler(self, it, exc, st, node, frame):
        return st.with_fact(("handled", node.lineno))

    def on_raise(self, it, exc, st, node, frame):
        return st.without(lambda f: f[0] == "handled")


def find_box(p, c):
    """Attributes of self that recv (with its helpers) indexes by a key made from its arguments."""
    fi = c.methods["recv"]
    selft = T("param", ("root", fi.qual), fi.params[0])
    args = {T("param", ("root", fi.qual), x) for x in fi.params[1:3]}
    found = set()

    class K(LockClient):
        def should_inline(self, it, g, call):
            return g.cls is c or g.parent is not None and g.module is c.module

        def _hit(self, st, obj, key):
            for o in split(obj) if not isinstance(obj, T) else [obj]:
                if o.k == "attr" and o.a[0] is selft and args & set(st.deps(key if not isinstance(key, T) else V(key))):
                    found.add(o.a[1])

        def on_cond(self, it, term, truth, st, node, frame):
            if term.k == "cmp" and term.a[0] == "in":
                self._hit(st, term.a[2], term.a[1])
            return st

        def on_call(self, it, call):
            if call.recv is not None and call.name in ("pop", "get") and call.args:
                self._hit(call.st, call.recv, call.args[0])
            return None

        def on_getitem(self, it, obj, idx, st, node, frame):
            self._hit(st, obj, idx)
            return None

        def on_delitem(self, it, obj, idx, st, node, frame):
            self._hit(st, obj, idx)
            return st

    Engine(p, K(p)).run(fi, self_cls=c)
    return found


def key_shape(t, roles):
    """The key with parameters replaced by role names; None when it is not an exact combination."""
    if t in roles:
        return T("role", roles[t])
    if t.k == "tup":
        return T("tup", tuple(key_shape(one(x) if not isinstance(x, T) else x, roles) for x in t.a[0]))
    if t.k == "fstr":
        parts = t.a[0] if isinstance(t.a[0], tuple) else t.a
        return T("fstr", tuple(key_shape(one(x) if not isinstance(x, T) else x, roles) for x in parts))
    if t.k == "call" and callee_ext(t) in ("builtins.str", "builtins.int") and t.a[1]:
        return T("call", callee_ext(t), key_shape(t.a[1][0], roles))
    return t if t.k in ("const",) else T("other", strip_sites(t))


def _roles_in(shape):
    return [x.a[0] for x in subterms(shape) if x.k == "role"]


def mailbox_rules(p, rep, c):
    recv = c.methods["recv"]
    rep.saw(recv.qual)
    box = find_box(p, c)
    if not box:
        rep.notes.append(f"{c.name}: no mailbox recognised in recv")
        return {"box": set(), "deposit": None}
    ps = [T("param", ("root", recv.qual), x) for x in recv.params]
    roles = {ps[1]: "sender", ps[2]: "key"}
    timeout = next((T("param", ("root", recv.qual), x) for x in recv.allparams if x == "timeout"), None)
    cl = Mail(p, c, box, recv)
    cl.path_sensitive = False
    raises_at = []

    class R(Mail):
        def on_raise(self, it, exc, st, node, frame):
            raises_at.append((exc, st, it.where(node) if node is not None else recv.where))
            return super().on_raise(it, exc, st, node, frame)

    cl = R(p, c, box, recv)
    rets, raises = Engine(p, cl).run(recv, self_cls=c)
    shapes = set()
    for v, st in rets:
        for t in split(v):
            ok = t.k == "msg"
            rep.check(ok, "recv", f"{c.name}.recv returns a received message", recv.where, f"returns {show(t)[:60]} on a path where no message was taken from the mailbox")
            if ok:
                rep.check(("taken", t.a[0]) in st.facts, "recv", f"{c.name}.recv removes the message", recv.where, "the returned message stays in the mailbox: it can be returned again or block the next one")
                sh = key_shape(t.a[0], roles)
                shapes.add(sh)
                rs = _roles_in(sh)
                good = sorted(rs) == ["key", "sender"] and not any(x.k == "other" for x in subterms(sh))
                rep.check(good, "recv", f"{c.name}.recv key", recv.where, f"takes the message under {show(t.a[0])[:60]}, not under exactly its source and key arguments")
        if any(f[0] == "handled" for f in st.facts):
            rep.bad("recv", f"{c.name}.recv swallows an error", recv.where, "returns normally after catching an exception")
    for kind, key, dflt, st, w in cl.events:
        if kind == "take":
            locked = bool(cl.held(st))
            rep.check(locked, "recv", f"{c.name}.recv takes under the lock", w, "the mailbox is changed without holding its lock")
            pres = ("present", key) in st.facts
            rep.check(pres or (dflt and locked), "recv", f"{c.name}.recv takes a message found present", w, "the message is taken without having been found present since the lock was last acquired (or since the last wait)")
        if kind == "bulk":
            rep.bad("recv", f"{c.name}.recv {key}", w, f"{key}() on the mailbox drops other messages")
    waits = [e for e in cl.events if e[0] == "wait"]
    untimed = any(e[1] is None for e in waits)
    timed = [e for e in waits if e[1] is not None]
    if waits:
        wait_rule(p, rep, c, recv, waits, timed, timeout, raises_at, raises)
    # shutdown: the flag read by an untimed wait
    dep = deposit_rules(p, rep, c, box, shapes, untimed)
    shutdown_rule(p, rep, c, box, cl, untimed)
    return {"box": box, "deposit": dep, "shapes": shapes}


def _while_of(f, line_node):
    """Innermost While around a node of the function."""
    best = None
    for n in ast.walk(f.node):
        if isinstance(n, ast.While) and any(x is line_node for x in ast.walk(n)):
            best = n
    return best


CLOCKS = ("time.monotonic", "time.time", "time.perf_counter", "time.monotonic_ns", "time.perf_counter_ns", "time.time_ns")


def linear(t, sign=1, acc=None, consts=None):
    """Sum of signed atoms."""
    acc = acc if acc is not None else []
    if t.k == "bin" and t.a[0] in ("Add", "Sub"):
        linear(t.a[1], sign, acc)
        linear(t.a[2], sign if t.a[0] == "Add" else -sign, acc)
    elif t.k == "un" and t.a[0] == "USub":
        linear(t.a[1], -sign, acc)
    elif t.k == "call" and callee_ext(t) in ("builtins.max", "builtins.min") and t.a[1]:
        for x in t.a[1]:
            if x.k != "const":
                linear(x, sign, acc)
    else:
        acc.append((sign, t))
    return acc


def is_clock(t):
    return t.k == "call" and callee_ext(t) in CLOCKS


def wait_rule(p, rep, c, recv, waits, timed, timeout, raises_at, raises):
    for kind, tm, call, st, w in waits:
        if call.name == "wait":
            f = None
            for fi in c.methods.values():
                if any(x is call.node for x in ast.walk(fi.node)):
                    f = fi
            loop = _while_of(f, call.node) if f else None
            rep.check(loop is not None, "wait", f"{c.name}.recv waits in a loop", w, "the wait is not inside a loop that tests again for the message")
    if not timed or timeout is None:
        return
    # some raise is a timeout error, in the direction "limit passed"
    tos = []
    for exc, st, w in raises_at:
        if _is_timeout_exc(p, exc):
            tos.append((exc, st, w))
    rep.check(bool(tos), "wait", f"{c.name}.recv raises on timeout", recv.where, "no path of receive raises a timeout error although it accepts a timeout")
    for exc, st, w in tos:
        good = False
        wrong = None
        given = not any(t.k == "cmp" and t.a[0] == "is" and tr and timeout in t.a[1:] for t, tr in st.conds.items())
        if given and not any(timeout in st.deps(V(t)) for t in st.conds if t.k == "cmp" and any(is_clock(x) for x in subterms(t))):
            rep.bad("wait", f"{c.name}.recv honours its timeout argument", w, "the limit that ends the wait does not depend on the timeout the caller passed")
        for t, tr in st.conds.items():
            if t.k != "cmp":
                continue
            op, l, r = t.a
            if op not in ("<", "<=", ">", ">="):
                continue
            atoms = linear(l) + [(-s, x) for s, x in linear(r)]
            clocks = [(s, x) for s, x in atoms if is_clock(x)]
            if not clocks:
                continue
            greater = op in (">", ">=")
            if tr is False:
                greater = not greater
            # "l - r > 0" or "< 0"; make it "... > 0"
            k = 1 if greater else -1
            atoms = [(s * k, x) for s, x in atoms]
            # the latest clock reading must count positively, the limit negatively
            lim = [s for s, x in atoms if not is_clock(x) and x.k != "const"]
            if len(clocks) == 1:
                good = atoms and dict((x, s) for s, x in atoms)[clocks[0][1]] > 0
                if not good:
                    wrong = t
            else:
                if lim and all(s < 0 for s in lim):
                    good = True
                elif lim:
                    wrong = t
        if wrong is not None and not good:
            rep.bad("wait", f"{c.name}.recv timeout direction", w, f"the timeout error is raised when {show(wrong)[:80]} says the limit has not passed")
        else:
            rep.ok("wait", f"{c.name}.recv timeout direction", w)
    # a truth test of the timeout treats 0 as "no limit"
    for v_st in [st for _, st, _ in raises_at] + [st for *_, st, _ in [(e[3], e[4]) for e in waits] if hasattr(st, "conds")]:
        if timeout in v_st.conds:
            rep.bad("wait", f"{c.name}.recv timeout zero", recv.where, "the timeout argument is tested for truth: a timeout of 0 is treated as if none was given")
            break
    # the starting time is read once, outside the waiting loop
    for kind, tm, call, st, w in timed:
        f = next((fi for fi in c.methods.values() if any(x is call.node for x in ast.walk(fi.node))), None)
        loop = _while_of(f, call.node) if f else None
        if loop is None:
            continue
        if any(isinstance(n, ast.AugAssign) for n in ast.walk(loop)):
            continue  # elapsed time is accumulated
        starts = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub) and isinstance(n.right, ast.Name):
                if any(isinstance(x, ast.Call) and ast.unparse(x.func).split(".")[-1] in ("monotonic", "time", "perf_counter") for x in ast.walk(n.left)):
                    starts.add(n.right.id)
        for n in ast.walk(loop):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.BinOp) and isinstance(n.value.op, ast.Add) and any(isinstance(y, ast.Call) and ast.unparse(y.func).split(".")[-1] in ("monotonic", "time", "perf_counter") for y in (n.value.left, n.value.right)):
                rep.bad("wait", f"{c.name}.recv starting time", f"{recv.where.split(':')[0]}:{n.lineno}", "the deadline is computed again in the waiting loop: the limit never passes")
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in starts for t in n.targets) and any(isinstance(x, ast.Call) for x in ast.walk(n.value)):
                rep.bad("wait", f"{c.name}.recv starting time", f"{recv.where.split(':')[0]}:{n.lineno}", "the starting time is read again in the waiting loop: the limit never passes")


def _is_timeout_exc(p, exc):
    s = show(exc)
    for c in p.classes.values():
        if c.name in s or c.qual in s:
            if "TimeoutError" in str(p.ext_bases(c)) or c.name == "TimeoutError":
                return True
    return "TimeoutError" in s


def deposit_rules(p, rep, c, box, shapes, untimed):
    dep = None
    for name, fi in c.methods.items():
        if name in ("recv", "__init__") or len(fi.params) < 3:
            continue
        cl = Mail(p, c, box, fi)
        rets, raises = Engine(p, cl).run(fi, self_cls=c)
        puts = [e for e in cl.events if e[0] == "put"]
        if not puts:
            continue
        own = [e for e in puts if any(x in {T("param", ("root", fi.qual), q) for q in fi.params[1:]} for x in subterms(e[1]))]
        if not own:
            continue
        if dep is not None and fi.name.startswith("_") and dep[0].qual in p.functions and name not in ("_on_receive", "on_receive"):
            continue
        rep.saw(fi.qual)
        prm = {T("param", ("root", fi.qual), q): q for q in fi.params[1:]}
        for _, key, val, st, w in puts:
            vt = [x for x in split(val)] if val is not None else []
            rep.check(bool(cl.held(st)), "deposit", f"{c.name}.{name} stores under the lock", w, "a message is stored without holding the mailbox lock")
            rep.check(("absent", key) in st.facts, "deposit", f"{c.name}.{name} stores into an empty slot", w, "a message is stored without having found the slot empty under the same lock hold: an undelivered message can be overwritten")
            used = {prm[x] for x in subterms(key) if x in prm}
            rest = [q for q in fi.params[1:] if q not in used]
            rep.check(len(vt) == 1 and vt[0] in prm and prm[vt[0]] in rest, "deposit", f"{c.name}.{name} stores the message", w, f"stores {[show(x)[:40] for x in vt]} instead of the message argument")
            # the key has the same shape as the one receive uses
            m = None
            for sh in shapes:
                m = match_roles(sh, key, prm)
                if m is not None:
                    break
            if shapes and not any(x.k == "other" for s in shapes for x in subterms(s)):
                rep.check(m is not None, "deposit", f"{c.name}.{name} key shape", w, f"stores under {show(key)[:60]} while receive looks under {[show(s)[:60] for s in shapes]}")
            if m is not None and vt and vt[0] in prm:
                dep = (fi, {**m, "data": prm[vt[0]]})
        for v, st in rets:
            stored = any(f[0] == "stored" for f in st.facts)
            rep.check(stored, "deposit", f"{c.name}.{name} stores or raises", fi.where, "returns without having stored the message: it is dropped silently")
            if stored:
                nt = [f[1] for f in st.facts if f[0] == "notified"]
                rep.check(bool(nt), "wake", f"{c.name}.{name} wakes receivers", fi.where, "a stored message wakes no waiting receiver")
                if nt and untimed:
                    rep.check("notify" not in nt, "wake", f"{c.name}.{name} wakes all receivers", fi.where, "notify() wakes one arbitrary receiver, possibly one that waits for another key, and the right one sleeps on")
            if any(f[0] == "handled" for f in st.facts):
                rep.bad("deposit", f"{c.name}.{name} swallows an error", fi.where, "returns normally after catching an exception")
        for e in cl.events:
            if e[0] == "notify":
                rep.check(e[2], "wake", f"{c.name}.{name} notifies under the lock", e[4], "notify without holding the lock")
            if e[0] in ("take", "bulk"):
                rep.bad("deposit", f"{c.name}.{name} removes messages", e[4], "a deposit removes a message from the mailbox")
        if dep is None:
            dep = (fi, {})
    if dep is None:
        rep.notes.append(f"{c.name}: no deposit method recognised")
    return dep


def match_roles(shape, key, prm):
    """{role: parameter name} when key has the given shape."""
    if shape.k == "role":
        return {shape.a[0]: prm[key]} if key in prm else None
    if shape.k in ("tup", "fstr") and key.k == shape.k:
        ks = key.a[0] if isinstance(key.a[0], tuple) else key.a
        ks = [one(x) if not isinstance(x, T) else x for x in ks]
        if len(ks) != len(shape.a[0]):
            return None
        out = {}
        for s, k in zip(shape.a[0], ks):
            m = match_roles(s, k, prm)
            if m is None:
                return None
            out.update(m)
        return out
    if shape.k == "call" and key.k == "call":
        return match_roles(shape.a[1], key.a[1][0], prm) if callee_ext(key) == shape.a[0] and key.a[1] else None
    return {} if shape is key else None


def shutdown_rule(p, rep, c, box, recv_cl, untimed):
    if not untimed:
        return
    # attributes read by recv's loop besides the mailbox
    flags = set()
    seen, todo = set(), ["recv"]
    while todo:
        m = todo.pop()
        if m in seen or m not in c.methods:
            continue
        seen.add(m)
        for x in ast.walk(c.methods[m].node):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Load) and x.attr not in box:
                if x.attr in c.methods:
                    todo.append(x.attr)
                else:
                    flags.add(x.attr)
    setters = []
    for name, fi in c.methods.items():
        if name == "__init__":
            continue
        sets = []

        class K(Mail):
            def on_setattr(self, it, obj, attr, val, st, node, frame):
                if attr in flags and self.selft in split(obj):
                    sets.append((attr, val, bool(self.held(st)), it.where(node)))
                    return st.without(lambda f: f[0] == "notified").with_fact(("flag", attr))
                return st

        cl = K(p, c, box, fi)
        rets, _ = Engine(p, cl).run(fi, self_cls=c)
        if not sets:
            continue
        setters.append(name)
        rep.saw(fi.qual)
        for v, st in rets:
            if any(f[0] == "flag" for f in st.facts):
                nt = [f[1] for f in st.facts if f[0] == "notified"]
                rep.check(bool(nt) and "notify" not in nt, "wake", f"{c.name}.{name} wakes all receivers", fi.where, "changing the shutdown flag does not wake every waiting receiver")
        for a, v, locked, w in sets:
            rep.check(locked, "wake", f"{c.name}.{name} sets the flag under the lock", w, f"{a} is changed without the lock: a receiver between its test and its wait misses the wake-up")
    rep.check(bool(setters), "wake", f"{c.name}: waiting receivers can be released", c.methods["recv"].where, "receive waits without limit and nothing but a message can end the wait")


def private_rule(p, rep, comms, info):
    boxes = {}
    for c in comms:
        for b in info[c.qual]["box"]:
            boxes.setdefault(b, []).append(c)
    for n, m, f in all_nodes(p, ast.Attribute):
        if n.attr not in boxes or m.name.startswith("mplang.tool"):
            continue
        o = f
        while o is not None and o.cls is None:
            o = o.parent
        inside = o is not None and o.cls in boxes[n.attr]
        if not inside and o is not None and not m.name.startswith(PKG):
            continue
        rep.check(inside, "private", f"{n.attr} in {qualname(m, f)}", where(m, n), "a mailbox is accessed from outside its communicator class")


# ------------------------------------------------------------------ sending
class Send(LockClient):
    max_states = 64
    path_sensitive = True

    def __init__(self, p, c, dep, hits, puts):
        super().__init__(p)
        self.c, self.dep, self.hits, self.puts = c, dep, hits, puts

    def should_inline(self, it, g, call):
        return g.cls is self.c and (self.dep is None or g is not self.dep[0])

    def on_call(self, it, call):
        st = call.st
        if self.dep is not None and call.recv is not None and call.name == self.dep[0].name:
            self.hits.append((call, st, it.where(call.node)))
            it.add_raise(T("exc", ("RuntimeError",), 0), st)
            return [(V(NONE), st.with_fact(("delivered",)))]
        if call.name == "submit" and call.recv is not None and call.args:
            out = []
            fn = one(call.args[0])
            if fn.k in ("bound", "closure", "func", "partial"):
                it.raise_stack.append([])
                for v, s in it.call_term(fn, call.args[1:], dict(call.kwargs), st, call.node):
                    out.append((V(T("future", call.site)), s))
                it.raise_stack.pop()
                return out or None
        if call.name in ("put", "post", "request") and call.recv is not None and any(t.k == "attr" and "client" in t.a[1] for t in split(call.recv)):
            resp = T("resp", call.site)
            self.puts.append((call, st, it.where(call.node), resp))
            it.add_raise(T("exc", ("?",), 0), st)
            return [(V(resp), st.with_fact(("sent", resp)))]
        if call.name == "raise_for_status" and call.recv is not None:
            it.add_raise(T("exc", ("?",), 0), st)
            return [(call.recv, st.with_fact(*[("checked", t) for t in split(call.recv)]))]
        return None

    def on_handler(self, it, exc, st, node, frame):
        return st.with_fact(("handled", node.lineno))

    def on_raise(self, it, exc, st, node, frame):
        return st.without(lambda f: f[0] == "handled")


def send_rules(p, rep, c, inf):
    out = []
    dep = inf.get("deposit")
    for name, fi in c.methods.items():
        if not name.startswith(("send", "isend")) or len(fi.params) < 4:
            continue
        rep.saw(fi.qual)
        hits, puts = [], []
        rets, raises = Engine(p, Send(p, c, dep, hits, puts)).run(fi, self_cls=c)
        selft, to, key, data = (T("param", ("root", fi.qual), x) for x in fi.params[:4])
        mem = bool(hits)
        for call, st, w in hits:
            if dep is None or not dep[1]:
                continue
            b = call.bind(dep[0])
            for r in split(call.recv):
                idx = r.a[1] if r.k == "item" else None
                rep.check(idx is to, "route", f"{c.name}.{name} peer", w, f"delivers to {show(r)[:50]}, not to the requested peer")
            s, k, d = (b.get(dep[1].get(x)) for x in ("sender", "key", "data"))
            rep.check(s is not None and one(s) is T("attr", selft, "rank"), "route", f"{c.name}.{name} sender", w, f"sender passed to the peer is {show(one(s)) if s else None}, not this communicator's rank")
            rep.check(k is not None and one(k) is key, "route", f"{c.name}.{name} key", w, f"key passed to the peer is {show(one(k))[:50] if k else None}")
            for x in split(d) if d is not None else []:
                rep.check(round_trip(x, data), "route", f"{c.name}.{name} payload", w, f"payload passed to the peer is {show(x)[:60]}")
        for call, st, w, resp in puts:
            u = one(call.args[0]) if call.args else one(call.kwargs.get("url", V(NONE)))
            out.append((fi, call, st, w, u))
            parts = url_parts(u)
            base = [x for x in parts if x.k == "item"]
            rep.check(len(base) == 1 and base[0].a[1] is to and base[0].a[0].k == "attr" and base[0].a[0].a[0] is selft, "route", f"{c.name}.{name} endpoint", w, f"sends to {show(u)[:70]}, which is not the requested peer's endpoint")
            rep.check(sum(1 for x in parts if x is key) == 1 and parts[-1] is key, "route", f"{c.name}.{name} key in the URL", w, f"the URL {show(u)[:70]} does not end in exactly the message key")
        for v, st in rets:
            h = [f for f in st.facts if f[0] == "handled"]
            rep.check(not h, "failure", f"{c.name}.{name} swallows nothing", f"{fi.where.split(':')[0]}:{h[0][1]}" if h else fi.where, "a delivery error is caught here and the send returns normally")
            if mem:
                rep.check(("delivered",) in st.facts, "failure", f"{c.name}.{name} delivers before returning", fi.where, "returns on a path on which nothing was delivered")
            if puts:
                sent = [f[1] for f in st.facts if f[0] == "sent"]
                rep.check(bool(sent), "failure", f"{c.name}.{name} sends before returning", fi.where, "returns on a path on which nothing was sent")
                for r in sent:
                    ok = ("checked", r) in st.facts or any(r in subterms(t) for t in st.conds)
                    rep.check(ok, "failure", f"{c.name}.{name} checks the response", fi.where, "the peer's answer is not checked: a rejected message counts as delivered")
    if not any(True for _ in out) and dep is not None and not out:
        pass
    return out


PAIRS = {("loads", "dumps"), ("loads_binary", "dumps_binary"), ("loads_b64", "dumps_b64"), ("from_json", "to_json"), ("b64decode", "b64encode")}


def round_trip(t, data):
    """t is the data itself or decode(encode(data)) of one pair."""
    if t is data:
        return True
    if t.k == "call" and t.a[1]:
        nm = fname(t)
        inner = t.a[1][0]
        if inner.k == "call" and inner.a[1] and (nm, fname(inner)) in PAIRS:
            return round_trip(inner.a[1][0], data)
    if t.k == "phi":
        return all(round_trip(x, data) for x in t.a[0])
    return False


def fname(t):
    c = t.a[0]
    if c.k in ("func", "ext"):
        return c.a[0].split(".")[-1]
    if c.k == "attr":
        return c.a[1]
    return ""


def url_parts(u):
    if u.k == "fstr":
        return [one(x) if not isinstance(x, T) else x for x in (u.a[0] if isinstance(u.a[0], tuple) else u.a)]
    if u.k == "bin" and u.a[0] == "Add":
        return url_parts(u.a[1]) + url_parts(u.a[2])
    return [u]


# ------------------------------------------------------------------ HTTP endpoint
def routes(p, name):
    """Functions mounted as HTTP routes that call the deposit method: (func, path, method)."""
    out = []
    for fi in p.functions.values():
        if not fi.module.name.startswith(PKG):
            continue
        for d in getattr(fi.node, "decorator_list", []):
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr in ("put", "post", "get") and d.args and isinstance(d.args[0], ast.Constant):
                if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == name for x in ast.walk(fi.node)) or name in _callees(p, fi):
                    out.append((fi, d.args[0].value, d.func.attr))
    return out


def _callees(p, fi):
    names = set()
    for x in ast.walk(fi.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name):
            r = p.resolve_expr(x.func, fi.module, fi)
            if r and r[0] == "func":
                names |= {y.func.attr for y in ast.walk(r[1].node) if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute)}
    return names


def http_rules(p, rep, comms, info, sends):
    for c in comms:
        if not sends.get(c.qual):
            continue
        dep = info[c.qual].get("deposit")
        if dep is None or not dep[1]:
            continue
        rts = routes(p, dep[0].name)
        if not rts:
            rep.bad("route", f"{c.name}: HTTP endpoint", c.methods["send"].where, "no HTTP route hands received messages to the communicator")
            continue
        for fi, path, meth in rts:
            rep.saw(fi.qual)
            deps = []

            class K(LockClient):
                max_states = 96
                path_sensitive = True

                def should_inline(self, it, g, call):
                    return g.module is fi.module and g.name != dep[0].name and g.cls is None

                def on_call(self, it, call):
                    if call.cls is not None and not any(m in call.cls.methods for m in ("__init__",)) and any(k is None for k in [x.arg for x in getattr(call.node, "keywords", [])]):
                        # a request model built from the parsed body: keep its fields symbolic
                        return [(V(T("fresh", "model", call.cls.qual)), call.st)]
                    if call.recv is not None and call.name == dep[0].name:
                        deps.append((call.bind(dep[0]), call.st, it.where(call.node)))
                        it.add_raise(T("exc", ("RuntimeError",), 0), call.st)
                        return [(V(NONE), call.st.with_fact(("delivered",)))]
                    return None

                def on_handler(self, it, exc, st, node, frame):
                    return st.with_fact(("handled", node.lineno))

                def on_raise(self, it, exc, st, node, frame):
                    return st.without(lambda f: f[0] == "handled")

            rets, raises = Engine(p, K(p)).run(fi)
            for v, st in rets:
                rep.check(("delivered",) in st.facts, "failure", f"{fi.name}: acknowledges only delivered messages", fi.where, "the message is acknowledged on a path on which it was not put into the mailbox")
                h = [f for f in st.facts if f[0] == "handled"]
                rep.check(not h, "failure", f"{fi.name}: swallows nothing", fi.where, "an error while receiving is caught and the message is acknowledged")
            # path and key
            pp = [x for x in fi.params if "{" + x + "}" in path or "{" + x + ":path}" in path]
            keyp = T("param", ("root", fi.qual), pp[-1]) if pp else None
            pre = path.split("{")[0]
            for b, st, w in deps:
                k = b.get(dep[1]["key"])
                rep.check(keyp is not None and k is not None and one(k) is keyp, "route", f"{fi.name}: key", w, f"the message is stored under {show(one(k))[:50] if k is not None else None}, not under the key of the request path")
            for sfi, call, sst, w, u in sends[c.qual]:
                lit = "".join(str(x.a[1]) for x in url_parts(u) if x.k == "const")
                rep.check(lit == pre and call.name == meth, "route", f"{c.name}.{sfi.name}: route", w, f"sends {call.name.upper()} {lit} but the peer listens on {meth.upper()} {pre}")
            codec_rule(p, rep, c, fi, dep, deps, sends[c.qual])


def strip_int(t):
    while True:
        if t.k == "call" and callee_ext(t) in ("builtins.int", "builtins.str") and t.a[1]:
            t = t.a[1][0]
        elif t.k == "fstr" and len(url_parts(t)) == 1:
            t = url_parts(t)[0]
        else:
            return t


def codec_rule(p, rep, c, route, dep, deps, sends):
    """Match each sender mode with the receiver path its headers select."""
    for sfi, call, st, w, u in sends:
        selft, to, key, data = (T("param", ("root", sfi.qual), x) for x in sfi.params[:4])
        hdr = {}
        body = None
        mode = None
        for o in split(call.kwargs.get("headers", frozenset())):
            for s, v in st.slots(o).items():
                if isinstance(s, tuple) and s[0] == "k":
                    hdr[str(s[1]).lower()] = v
        if "content" in call.kwargs:
            mode, body = "binary", one(call.kwargs["content"])
        elif "json" in call.kwargs:
            mode = "json"
            fields = {}
            for o in split(call.kwargs["json"]):
                for s, v in st.slots(o).items():
                    if isinstance(s, tuple) and s[0] == "k":
                        fields[s[1]] = v
        else:
            continue
        used = [body] + [one(v) for v in hdr.values()] + ([one(v) for v in fields.values()] if mode == "json" else [])
        if any(x.k == "unbound" for t in used if t is not None for x in subterms(t)):
            continue  # a path that cannot run: the same setting tested twice with different outcomes
        if mode == "binary":
            sender = hdr.get("x-from-rank")
        else:
            sender = fields.get("from_rank")
        if sender is None:
            # take any field that is this rank
            cand = [v for v in {**hdr, **(fields if mode == "json" else {})}.values() if strip_int(one(v)) is T("attr", selft, "rank")]
            sender = cand[0] if cand else None
        rep.check(sender is not None and strip_int(one(sender)) is T("attr", selft, "rank"), "route", f"{c.name}.{sfi.name}: sender rank ({mode})", w, f"announces {show(one(sender)) if sender else None} as sender instead of its own rank")
        # receiver paths this request can take
        n = 0
        for b, rst, rw in deps:
            env = {}
            for h, v in hdr.items():
                env[h] = one(v)

            def header_of(t):
                """name of the header a term reads, with its default"""
                if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == "get" and t.a[1] and t.a[1][0].k == "const" and "headers" in show(t.a[0].a[0]):
                    return str(t.a[1][0].a[1]).lower(), (t.a[1][1] if len(t.a[1]) > 1 else NONE)
                if t.k == "item" and t.a[1].k == "const" and t.a[0].k == "attr" and t.a[0].a[1] == "headers":
                    return str(t.a[1].a[1]).lower(), NONE
                return None

            def json_field(t):
                if t.k == "attr" and mode == "json" and t.a[1] in fields and t.a[0].k == "fresh" and t.a[0].a[0] == "model":
                    return one(fields[t.a[1]])
                return None

            def ev(t):
                """value of a receiver term under this request, or None"""
                if t.k == "const":
                    return t
                h = header_of(t)
                if h is not None:
                    if h[0] == "content-type" and mode == "json":
                        return C("application/json")
                    return env.get(h[0], h[1])
                f = json_field(t)
                if f is not None:
                    return f
                if t.k == "item" and t.a[0].k == "call" and callee_name(t.a[0]) == "split":
                    x = ev(t.a[0].a[0].a[0])
                    return x
                if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] in ("strip", "lower"):
                    return ev(t.a[0].a[0])
                if t.k == "phi":
                    # header lookup with a default
                    alts = [one(x) if not isinstance(x, T) else x for x in t.a[0]]
                    hs = [header_of(x) for x in alts if header_of(x) is not None]
                    cs = [x for x in alts if x.k == "const"]
                    if len(hs) == 1 and len(alts) == len(cs) + 1:
                        if hs[0][0] in env or hs[0][0] == "content-type":
                            return ev(next(x for x in alts if header_of(x) is not None))
                        return cs[0] if len(cs) == 1 else None
                return None

            ok = True
            for t, tr in rst.conds.items():
                if t.k == "cmp" and t.a[0] in ("==", "is"):
                    a, bb = ev(t.a[1]), ev(t.a[2])
                    if a is not None and bb is not None and a.k == "const" and bb.k == "const":
                        if (a.a[1] == bb.a[1]) is not tr:
                            ok = False
                elif ev(t) is not None:
                    x = ev(t)
                    tv = x.a[1] if x.k == "const" else st.conds.get(x)
                    if tv is not None and bool(tv) is not tr:
                        ok = False
            if not ok:
                continue
            d = one(b[dep[1]["data"]]) if dep[1]["data"] in b else None
            snd = one(b[dep[1]["sender"]]) if dep[1]["sender"] in b else None
            # is it the same mode?
            is_bin = any(callee_name(y) == "body" for y in subterms(d) if y.k == "call") if d is not None else False
            if (mode == "binary") != is_bin:
                continue
            n += 1
            if mode == "binary":
                chain = decode_chain(d, lambda y: callee_name(y) == "body" if y.k == "call" else False)
                echain = encode_chain(body, data)
            else:
                f = next((y for y in subterms(d) if json_field(y) is not None), None)
                chain = decode_chain(d, lambda y: json_field(y) is not None)
                echain = encode_chain(json_field(f), data) if f is not None else None
            if chain is None or echain is None:
                rep.bad("codec", f"{c.name}: {mode} payload", w, f"payload {show(d)[:60]} is not decoded from {show(body)[:60] if body is not None else ''}")
                continue
            inv = [DEC.get(x, "?" + x) for x in reversed(chain)]
            rep.check(inv == echain, "codec", f"{c.name}: {mode} {'+'.join(echain) or 'raw'}", rw, f"sent as {'+'.join(echain) or 'raw'} but decoded by {'+'.join(chain) or 'nothing'}")
            sf = header_of(strip_int(snd)) if snd is not None else None
            if mode == "binary":
                good = sf is not None and sf[0] in hdr and strip_int(one(hdr[sf[0]])) is T("attr", selft, "rank")
            else:
                x = json_field(snd) if snd is not None else None
                good = x is not None and strip_int(x) is T("attr", selft, "rank")
            rep.check(good, "route", f"{route.name}: sender ({mode})", rw, f"the message is stored as coming from {show(snd)[:50] if snd is not None else None}, which is not the sender's announced rank")
        rep.check(n > 0, "codec", f"{c.name}: {mode} mode is received", w, "no receiver path accepts a message sent in this mode")


DEC = {"loads": "dumps", "loads_binary": "dumps_binary", "loads_b64": "dumps_b64", "from_json": "to_json", "b64decode": "b64encode", "decompress": "compress"}


def decode_chain(t, is_src):
    out = []
    for _ in range(8):
        if is_src(t):
            return out
        if t.k == "await":
            t = t.a[0]
            continue
        if t.k == "call" and t.a[1] and fname(t) not in ("bytes", "memoryview"):
            out.append(fname(t))
            t = t.a[1][0]
        elif t.k == "call" and t.a[1]:
            t = t.a[1][0]
        else:
            return None
    return None


def encode_chain(t, data):
    out = []
    for _ in range(8):
        if t is data:
            return list(out)
        if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] in ("decode", "encode"):
            t = t.a[0].a[0]
        elif t.k == "call" and t.a[1] and fname(t) not in ("bytes", "memoryview"):
            out.append(fname(t))
            t = t.a[1][0]
        elif t.k == "call" and t.a[1]:
            t = t.a[1][0]
        else:
            return None
    return None


# ------------------------------------------------------------------ request handles
def handle_rules(p, rep):
    mod = p.modules.get(f"{PKG}.base")
    if mod is None:
        raise AnalysisBroken("simp_worker.base not found")
    req = mod.classes.get("Request")
    if req is None:
        rep.notes.append("no Request handle class")
        return
    targets = [f for n, f in req.methods.items() if n in ("wait", "test")] + [f for f in mod.functions.values() if f.cls is None and f.parent is None and f.params and f.params[0] == "requests"]
    for fi in targets:
        rep.saw(fi.qual)

        class K(LockClient):
            max_states = 48
            path_sensitive = True
            assume_nonempty_loops = True

            def should_inline(self, it, g, call):
                return g.module is mod

            def known_type(self, it, t):
                return None

            def on_call(self, it, call):
                if call.name == "_finalize" and call.target is None:
                    g = req.methods.get("_finalize")
                    if g is not None:
                        out = []
                        for r in split(call.recv):
                            it.param_types[r] = req
                            out += it.inline(g, [], {}, call.st, call.node, recv=V(r))
                        return out
                if call.name == "result" and call.recv is not None and any("_future" in show(t) or t.k == "elem" for t in split(call.recv)):
                    it.add_raise(T("exc", ("Exception",), call.site), call.st.with_fact(("failed",)))
                    return [(V(T("fresh", "result", call.site)), call.st)]
                return None

            def on_raise(self, it, exc, st, node, frame):
                return st.without(lambda f: f[0] == "failed")

        rets, raises = Engine(p, K(p)).run(fi, self_cls=fi.cls)
        for v, st in rets:
            rep.check(("failed",) not in st.facts, "failure", f"{fi.qual.split('.')[-2]}.{fi.name} reports failed operations", fi.where, "returns normally although the operation failed with an exception")
