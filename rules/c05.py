"""C05: message keys never collide and always match between two peers."""
from __future__ import annotations

import ast

from sa.engine import C, NONE, Client, Engine, T, V, one, show, split, subterms
from sa.project import AnalysisBroken
from rules.common import all_nodes, strip_sites, where
from rules.serde_model import callee_ext
from rules.c04 import communicators, url_parts

ASSUMPTIONS = [
    "uuid4 / secrets values never repeat; every worker receives the same graph (it is sent by the driver)",
    "libspu numbers the tags of a link context per peer and per direction, and prefixes them with the context's id",
]

VARYING = ("uuid.", "random.", "secrets.", "time.", "threading.", "os.getpid", "os.urandom", "builtins.id", "builtins.hash", "socket.", "datetime.")
UNIQUE = ("uuid.uuid4", "uuid.uuid1", "uuid.uuid7", "secrets.token_hex", "secrets.token_urlsafe", "secrets.token_bytes", "os.urandom")
SENDS = ("send", "send_sync", "isend")


def run(p, rep, tier):
    rep.rule("sequence", "the n-th send to a peer and the peer's n-th receive use the same key: context id plus a number that counts this peer and this direction only, advanced once per message", 6)
    rep.rule("key", "context id and number (or tag prefix and tag) are joined so that different pairs give different keys, equally on both sides", 3)
    rep.rule("spawn", "a child context's id extends its parent's, never repeats, and with a given suffix depends on nothing but the suffix and its own repetitions", 3)
    rep.rule("children", "operations that run concurrently use a child context named after their position in the graph, installed on their own thread before they run", 2)
    rep.rule("job", "each dispatched job has an identity of its own, drawn once per job, the same on every worker, and used as its communication context", 5)
    rep.rule("link", "links over a shared communicator use tags of their own, and their spawned contexts do not depend on the order in which jobs arrive", 2)
    ctxs = context_rules(p, rep)
    spawn_rules(p, rep, ctxs)
    child_rules(p, rep, ctxs)
    job_rules(p, rep, ctxs)
    link_rules(p, rep, ctxs)


# ------------------------------------------------------------------ keys
def of_self(e):
    return isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self"


def comm_users(p):
    """Classes that send and receive over a communicator held in an attribute, with explicit keys."""
    comms = {c.qual for c in communicators(p)}
    out = []
    for c in p.classes.values():
        if c.qual in comms or not c.module.name.startswith("mplang."):
            continue
        names = set()
        for f in c.methods.values():
            held = {t.id for n in ast.walk(f.node) if isinstance(n, ast.Assign) and of_self(n.value) for t in n.targets if isinstance(t, ast.Name)}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (*SENDS, "recv") and (of_self(n.func.value) or isinstance(n.func.value, ast.Name) and n.func.value.id in held):
                    names.add("recv" if n.func.attr == "recv" else "send")
        if names == {"recv", "send"}:
            out.append(c)
    return out


class KeyClient(Client):
    max_states = 48

    def __init__(self, cls, fi):
        self.cls = cls
        self.selft = T("param", ("root", fi.qual), fi.params[0]) if fi.params else None
        self.calls = []

    def should_inline(self, it, g, call):
        return g.cls is self.cls and g.name.startswith("_") or (g.cls is None and g.parent is None and g.module is self.cls.module and g.name.startswith("_")) or (g.parent is not None and g.parent.cls is self.cls)

    def self_attr(self, t):
        return t.a[1] if t.k == "attr" and t.a[0] is self.selft else None

    def on_call(self, it, call):
        if call.recv is not None and call.name in (*SENDS, "recv") and any(self.self_attr(t) for t in split(call.recv)):
            peer = call.arg(0, "frm" if call.name == "recv" else "to")
            key = call.arg(1, "key")
            if peer is not None and key is not None:
                d = "recv" if call.name == "recv" else "send"
                self.calls.append((d, one(peer), one(key), call.st, it.where(call.node)))
                n = sum(1 for f in call.st.facts if f[0] == "msg")
                return [(V(T("fresh", "message", call.site)), call.st.with_fact(("msg", n, d, one(peer), one(key))))]
        return None

    def on_getitem(self, it, obj, idx, st, node, frame):
        # a counter read after it was advanced
        for o in split(obj):
            a = self.self_attr(o)
            if a:
                k = sum(f[4] or 0 for f in st.facts if f[0] == "adv" and f[2] == a and f[3] is one(idx))
                if k:
                    return [(V(T("bin", "Add", T("item", o, one(idx)), C(k))), st)]
        return None

    def on_setitem(self, it, obj, idx, val, st, node, frame):
        for o in split(obj):
            a = self.self_attr(o)
            if a:
                n = sum(1 for f in st.facts if f[0] == "adv")
                return st.with_fact(("adv", n, a, one(idx), step(one(val), T("item", o, one(idx)))))
        return st

    def on_setattr(self, it, obj, attr, val, st, node, frame):
        if self.selft in split(obj):
            n = sum(1 for f in st.facts if f[0] == "adv")
            return st.with_fact(("adv", n, attr, None, step(one(val), T("attr", self.selft, attr))))
        return st


def step(val, old):
    """k when val = old + k with a positive constant, else None."""
    if val.k == "bin" and val.a[0] == "Add":
        for a, b in ((val.a[1], val.a[2]), (val.a[2], val.a[1])):
            if a is old and b.k == "const" and isinstance(b.a[1], int) and b.a[1] > 0:
                return b.a[1]
    return None


def parts_of(key):
    """Flat list of the pieces joined in a key."""
    if key.k == "fstr":
        out = []
        for x in url_parts(key):
            out += parts_of(x)
        return out
    if key.k == "bin" and key.a[0] == "Add":
        return parts_of(key.a[1]) + parts_of(key.a[2])
    if key.k == "tup":
        out = []
        for x in key.a[0]:
            out += [C("\x00")] + parts_of(one(x) if not isinstance(x, T) else x)
        return out
    if key.k == "call" and callee_ext(key) == "builtins.str" and key.a[1]:
        return parts_of(key.a[1][0])
    return [key]


def context_rules(p, rep):
    ctxs = {}
    users = comm_users(p)
    if not users:
        raise AnalysisBroken("no class that sends and receives over a communicator found")
    for c in users:
        shapes = {"send": set(), "recv": set()}
        counters = {"send": set(), "recv": set()}
        idattrs = set()
        for name, fi in c.methods.items():
            if name == "__init__" or name.startswith("__") or fi.is_static:
                continue
            cl = KeyClient(c, fi)
            rets, raises = Engine(p, cl).run(fi, self_cls=c)
            if not cl.calls:
                continue
            rep.saw(fi.qual)
            for d, peer, key, st, w in cl.calls:
                shape = []
                for x in parts_of(key):
                    a = cl.self_attr(x)
                    if x.k == "const":
                        shape.append(("lit", str(x.a[1])))
                    elif a:
                        shape.append(("attr", a))
                        idattrs.add(a)
                    elif seq_of(x, cl) is not None:
                        cont, idx, off = seq_of(x, cl)
                        shape.append(("seq", off))
                        counters[d].add(cont)
                        rep.check(idx is not None and idx is peer, "sequence", f"{c.name}.{name}: number per peer", w, f"the number in the key is {show(x)[:50]}: it does not count the messages with {show(peer)} alone")
                    elif x.k == "param" and x is not peer:
                        shape.append(("tag", ""))
                    else:
                        shape.append(("other", show(strip_sites(x))))
                        rep.bad("key", f"{c.name}.{name}: key", w, f"the key contains {show(x)[:60]}, which is neither the context, a message number nor the caller's tag")
                shapes[d].add(tuple(shape))
                ids = [s for s in shape if s[0] == "attr"]
                rep.check(bool(ids), "key", f"{c.name}.{name}: key names its context", w, f"the key {show(key)[:60]} does not contain the identity of its context")
                dyn = [i for i, s in enumerate(shape) if s[0] in ("seq", "tag")]
                rep.check(bool(dyn), "sequence", f"{c.name}.{name}: key numbers the message", w, f"every message to the same peer has the same key {show(key)[:60]}")
                # neighbouring pieces must be separated
                for i in range(len(shape) - 1):
                    if shape[i][0] != "lit" and shape[i + 1][0] != "lit":
                        rep.bad("key", f"{c.name}.{name}: key pieces are separated", w, f"{show(key)[:60]} joins two variable pieces without a separator: different messages can have equal keys")
                for i in dyn:
                    if shape[i][0] != "seq":
                        continue
                    before = shape[i - 1][1] if i and shape[i - 1][0] == "lit" else ("" if i else ":")
                    rep.check(bool(before) and not before[-1].isalnum(), "key", f"{c.name}.{name}: separator", w, f"the number in {show(key)[:60]} is not separated from what precedes it")
            # each message advances its own counter exactly once
            for v, st in rets:
                msgs = [f for f in st.facts if f[0] == "msg"]
                advs = [f for f in st.facts if f[0] == "adv"]
                for m in msgs:
                    for x in parts_of(m[4]):
                        s = seq_of(x, cl)
                        if s is None:
                            continue
                        mine = [f for f in advs if f[2] == s[0] and (f[3] is m[3] or f[3] is None)]
                        rep.check(len(mine) == 1 and mine[0][4] is not None, "sequence", f"{c.name}.{name}: advances its counter once", fi.where, f"{s[0]} is {'not advanced' if not mine else 'advanced ' + str(len(mine)) + ' times or by something else than a positive constant'} on a path that {'receives' if m[2] == 'recv' else 'sends'} one message")
                        other = [f for f in advs if f[2] != s[0] and f[2] in (counters["send"] | counters["recv"])]
                        rep.check(not other, "sequence", f"{c.name}.{name}: leaves the other direction's counter alone", fi.where, f"also changes {other[0][2] if other else ''}: the other side's numbering does not follow")
        both = counters["send"] & counters["recv"]
        if counters["send"] or counters["recv"]:
            rep.check(not both, "sequence", f"{c.name}: directions are counted separately", c.methods.get("send", next(iter(c.methods.values()))).where, f"{sorted(both)} counts sends and receives together: two parties that interleave them differently disagree on the numbers")
            for d in ("send", "recv"):
                rep.check(len(counters[d]) <= 1, "sequence", f"{c.name}: one counter for all {d}s", next(iter(c.methods.values())).where, f"{sorted(counters[d])} number the {d}s separately, but the other side numbers them together")
            fresh_counters(p, rep, c, counters["send"] | counters["recv"])
        allsh = shapes["send"] | shapes["recv"]
        rep.check(len(allsh) == 1, "key", f"{c.name}: both directions build the key alike", next(iter(c.methods.values())).where, f"sends and receives build different keys: {sorted(allsh)}")
        ctxs[c.qual] = {"cls": c, "id": idattrs, "counters": counters["send"] | counters["recv"], "spawn": [f for f in c.methods.values() if returns_own(p, c, f)]}
    return ctxs


def seq_of(x, cl):
    """(container attribute, index, offset) when x reads a counter of self."""
    off = 0
    while x.k == "bin" and x.a[0] in ("Add", "Sub"):
        if x.a[2].k == "const":
            off += x.a[2].a[1] if x.a[0] == "Add" else -x.a[2].a[1]
            x = x.a[1]
        elif x.a[1].k == "const" and x.a[0] == "Add":
            off += x.a[1].a[1]
            x = x.a[2]
        else:
            return None
    if x.k == "item":
        a = cl.self_attr(x.a[0])
        if a:
            return a, x.a[1], off
    if x.k == "attr" and cl.self_attr(x) and off:
        return x.a[1], None, off
    if x.k == "phi":
        rs = {seq_of(one(y) if not isinstance(y, T) else y, cl) for y in x.a[0] if not (isinstance(y, T) and y.k == "const")}
        if len(rs) == 1:
            return rs.pop()
    return None


def fresh_counters(p, rep, c, names):
    init = c.methods.get("__init__")
    objs = {}
    if init is None:
        rep.bad("sequence", f"{c.name}: own counters", f"{c.where}", "the counters are not created per context")
        return

    class K(Client):
        def on_setattr(self, it, obj, attr, val, st, node, frame):
            if attr in names and T("param", ("root", init.qual), init.params[0]) in split(obj):
                objs.setdefault(attr, set()).update(split(val))
            return st

    Engine(p, K()).run(init, self_cls=c)
    for a in sorted(names):
        got = objs.get(a, set())
        ok = bool(got) and all(t.k in ("new", "call", "fresh", "obj", "const") for t in got)
        rep.check(ok, "sequence", f"{c.name}: {a} starts fresh", init.where, f"{a} is not created anew for each context" if not got else f"{a} is {show(next(iter(got)))[:50]}, which other contexts share")
        for b in sorted(names):
            if a < b and objs.get(a, set()) & objs.get(b, set()) and not all(t.k == "const" for t in objs[a]):
                rep.bad("sequence", f"{c.name}: directions are counted separately", init.where, f"{a} and {b} are one object")


def returns_own(p, c, f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Call):
            fn = n.value.func
            if isinstance(fn, ast.Name) and (fn.id == c.name or fn.id == "cls"):
                return f.name not in ("__init__",) and not f.is_static
            if ast.unparse(fn) in ("type(self)", "self.__class__"):
                return True
    # through a local
    names = {t.id for n in ast.walk(f.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == c.name for t in n.targets if isinstance(t, ast.Name)}
    return any(isinstance(n, ast.Return) and isinstance(n.value, ast.Name) and n.value.id in names for n in ast.walk(f.node))


# ------------------------------------------------------------------ spawned contexts
def spawn_rules(p, rep, ctxs):
    for info in ctxs.values():
        c = info["cls"]
        init = c.methods.get("__init__")
        for fi in info["spawn"]:
            rep.saw(fi.qual)
            selft = T("param", ("root", fi.qual), fi.params[0])
            made = []

            class K(KeyClient):
                path_sensitive = True

                def on_call(self, it, call):
                    if call.cls is c or (call.callee is not None and any(show(t) in ("builtins.type(self)",) for t in split(call.callee))):
                        b = dict(zip(init.params[1:], call.args, strict=False))
                        b.update({k: v for k, v in call.kwargs.items() if k in init.allparams})
                        made.append((b, call.st, it.where(call.node)))
                        return [(V(T("fresh", "child", len(made))), call.st)]
                    return super().on_call(it, call)

            cl = K(c, fi)
            rets, _ = Engine(p, cl).run(fi, self_cls=c)
            # constructor parameter that becomes the id
            roles = init_roles(p, c, init)
            for v, st in rets:
                for t in split(v):
                    if t.k != "fresh":
                        rep.bad("spawn", f"{c.name}.{fi.name} makes a new context", fi.where, f"returns {show(t)[:50]} instead of a new context")
                        continue
                    b, cst, w = made[t.a[1] - 1]
                    ids = [roles.get(a) for a in info["id"]]
                    idp = next((x for x in ids if x in b), None)
                    if idp is None:
                        rep.notes.append(f"{c.name}.{fi.name}: id argument not recognised")
                        continue
                    ident = one(b[idp])
                    pp = parts_of(ident)
                    anc = [i for i, x in enumerate(pp) if cl.self_attr(x) in info["id"]]
                    rep.check(bool(anc), "spawn", f"{c.name}.{fi.name}: child id extends the parent's", w, f"the child's id {show(ident)[:60]} does not contain its parent's: children of different contexts share keys")
                    for prm, at in roles.items():
                        pass
                    # other constructor arguments are the parent's own
                    for at, prm in roles.items():
                        if at in info["id"] or prm not in b:
                            continue
                        x = one(b[prm])
                        rep.check(cl.self_attr(x) == at, "spawn", f"{c.name}.{fi.name}: child keeps {at}", w, f"the child gets {show(x)[:40]} as {prm}, not its parent's {at}")
                    given = None
                    for cond, tr in st.conds.items():
                        if cond.k == "cmp" and cond.a[0] == "is" and NONE in cond.a[1:]:
                            q = cond.a[1] if cond.a[2] is NONE else cond.a[2]
                            if q.k == "param":
                                given = (q, not tr)
                        if cond.k == "param":
                            given = (cond, tr)
                    rest = [x for i, x in enumerate(pp) if i not in anc and x.k != "const"]
                    nums = []
                    for x in rest:
                        s = seq_of(x, cl)
                        if s is None and cl.self_attr(x):
                            s = (cl.self_attr(x), None, 0)
                        if s is None and x.k == "phi" and all(cl.self_attr(one(y) if not isinstance(y, T) else y) for y in x.a[0]):
                            s = (cl.self_attr(one(next(iter(x.a[0])))), None, 0)
                        if s is not None:
                            nums.append((x, s))
                        elif x.k != "param":
                            bad = [e for y in subterms(x) if (e := callee_ext(y) if y.k == "call" else None) and e.startswith(VARYING)]
                            if bad:
                                rep.bad("spawn", f"{c.name}.{fi.name}: same id on every party", w, f"the child's id depends on {bad[0]}, which differs between parties")
                    advs = [f for f in st.facts if f[0] == "adv"]
                    good = [s for x, s in nums if any(f[2] == s[0] and (s[1] is None or f[3] is s[1]) and f[4] is not None for f in advs)]
                    rep.check(bool(good), "spawn", f"{c.name}.{fi.name}: ids never repeat ({'suffix' if given and given[1] else 'no suffix'})", w, f"the child's id {show(ident)[:70]} contains no number that this spawn advances: two children can share keys")
                    if given and given[1]:
                        rep.check(given[0] in set(subterms(ident)), "spawn", f"{c.name}.{fi.name}: id contains the suffix", w, f"the child's id {show(ident)[:70]} does not contain the given suffix")
                        for x, s in nums:
                            rep.check(s[1] is given[0], "spawn", f"{c.name}.{fi.name}: id independent of other spawns", w, f"with a suffix given, the child's id contains {show(x)[:40]}, which counts other spawns too: its value depends on the order in which this party happened to spawn them")


def init_roles(p, c, init):
    """attribute -> constructor parameter stored in it"""
    out = {}
    selft = T("param", ("root", init.qual), init.params[0])

    class K(Client):
        def on_setattr(self, it, obj, attr, val, st, node, frame):
            if selft in split(obj) and len(val) == 1 and one(val).k == "param":
                out[attr] = one(val).a[1]
            return st

    Engine(p, K()).run(init, self_cls=c)
    return out


# ------------------------------------------------------------------ concurrent operations
def child_rules(p, rep, ctxs):
    """Functions outside the context class that spawn named children and run operations in them."""
    spawns = {f.name for i in ctxs.values() for f in i["spawn"]}
    ctxcls = [i["cls"] for i in ctxs.values() if i["spawn"]]
    if not spawns:
        rep.notes.append("no context class spawns children")
        return
    roots = {}
    for n, m, f in all_nodes(p, ast.Call):
        if isinstance(n.func, ast.Attribute) and n.func.attr in spawns and f is not None and m.name.startswith("mplang.runtime"):
            r = f
            while r.parent is not None:
                r = r.parent
            # climb to the method
            roots.setdefault(r.qual, (r, []))[1].append(n)
    if not roots:
        # concurrency without child contexts?
        rep.notes.append("no operation runs in a child context")
    for fi, nodes in list(roots.values()):
        if fi.cls is None:
            continue
        # analyse from the methods of the class that reach this one and take a graph
        rep.saw(fi.qual)
        ctxattrs = tls_attr(p, fi.cls)

        class K(Client):
            max_states = 32

            def __init__(self):
                self.spawned = []
                self.runs = []

            def should_inline(self, it, g, call):
                return reaches(p, g, spawns, ctxattrs) and (g.cls is fi.cls or g.parent is not None)

            def on_call(self, it, call):
                if call.name in spawns and call.recv is not None and call.target is None or call.name in spawns and call.cls in ctxcls:
                    a = call.arg(0, "suffix")
                    self.spawned.append((one(a) if a is not None else None, call.st, it.where(call.node)))
                    t = T("fresh", "childctx", call.site)
                    return [(V(t), call.st.with_fact(("spawned", t)))]
                if call.name in spawns:
                    a = call.arg(0, "suffix")
                    self.spawned.append((one(a) if a is not None else None, call.st, it.where(call.node)))
                    t = T("fresh", "childctx", call.site)
                    return [(V(t), call.st.with_fact(("spawned", t)))]
                if call.callee is not None and is_handler(call.callee):
                    self.runs.append((call.st, it.where(call.node)))
                    it.add_raise(T("exc", ("Exception",), call.site), call.st)
                    return [(V(T("fresh", "result", call.site)), call.st)]
                if call.name == "submit" and call.args:
                    # the task runs on another thread: nothing installed there yet
                    out = []
                    st = call.st.without(lambda f: f[0] == "tls")
                    for t in split(call.args[0]):
                        if t.k in ("closure", "func", "bound"):
                            for v, s in it.call_term(t, call.args[1:], {}, st, call.node):
                                out.append((V(T("fresh", "future", call.site)), s.without(lambda f: f[0] == "tls")))
                    return out or None
                return None

            def on_setattr(self, it, obj, attr, val, st, node, frame):
                if attr in ctxattrs:
                    return st.without(lambda f: f[0] == "tls").with_fact(("tls", one(val)))
                return st

            def on_cond(self, it, term, truth, st, node, frame):
                if term.k == "cmp" and term.a[0] == "is" and NONE in term.a[1:] and truth and any(x.k == "fresh" and x.a[0] == "childctx" for x in term.a[1:]):
                    return None
                if term.k == "fresh" and term.a[0] == "childctx" and not truth:
                    return None
                return st

            def on_loop(self, it, kind, iterval, st, node, frame):
                # a new operation: what was spawned for the previous one does not count
                return st.without(lambda f: f[0] == "spawned")

        cl = K()
        Engine(p, cl).run(fi, self_cls=fi.cls)
        for suf, st, w in cl.spawned:
            if suf is None:
                rep.bad("children", f"{fi.name}: named children", w, "the child context is numbered in the order of spawning, which differs between parties when operations run concurrently")
                continue
            terms = set(subterms(suf)) | {t for t in st.deps(V(suf)) if isinstance(t, T)}
            var = sorted({e for t in terms if t.k == "call" and (e := callee_ext(t)) and e.startswith(VARYING)})
            rep.check(not var, "children", f"{fi.name}: child name is the same on every party", w, f"the child's name depends on {', '.join(var)}")
            pos = any(t.k == "index" for t in terms) or any(t.k in ("elem", "call") and "operations" in show(t) or t.k == "call" and "get" in show(t.a[0])[-4:] for t in terms)
            rep.check(pos, "children", f"{fi.name}: child name identifies the operation", w, f"the child's name {show(suf)[:60]} does not depend on the operation: concurrent operations draw their numbers in scheduling order")
            for t in terms:
                if t.k == "call" and t.a[0].k in ("func", "attr", "bound"):
                    g = named_func(p, fi, t)
                    if g is not None:
                        determinism(p, rep, g)
        rep.check(bool(cl.runs), "children", f"{fi.name}: operation calls found", fi.where, "no call of an operation implementation found")
        for st, w in cl.runs:
            kids = {f[1] for f in st.facts if f[0] == "spawned"}
            tls = {f[1] for f in st.facts if f[0] == "tls"}
            if not kids:
                continue
            rep.check(bool(tls) and tls <= kids, "children", f"{fi.name}: operation runs in its own context", w, "the operation runs without its own child context installed on its thread: its messages use another operation's keys")
        # a path that has a root context but spawns no child
        none = [w for st, w in cl.runs if not any(f[0] == "spawned" for f in st.facts) and not root_none(st)]
        for w in sorted(set(none)):
            rep.bad("children", f"{fi.name}: every operation gets a child context", w, "a path runs an operation without spawning its context although there is a root context")


def root_none(st):
    return any(c.k == "cmp" and c.a[0] == "is" and NONE in c.a[1:] and tr for c, tr in st.conds.items())


def is_handler(callee):
    for t in split(callee):
        if t.k == "call":
            s = show(t.a[0])
            if s.endswith("get_impl") or (s.endswith(".get") and "handlers" in s):
                return True
        if t.k == "item" and "handlers" in show(t.a[0]):
            return True
    return False


def tls_attr(p, cls):
    """Thread-local attributes read by the accessor of the current context."""
    out = set()
    for f in cls.methods.values():
        if "comm_ctx" in f.name or "comm_context" in f.name:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr" and len(n.args) >= 2 and isinstance(n.args[1], ast.Constant):
                    out.add(n.args[1].value)
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute):
                    out.add(n.attr)
    return out


def reaches(p, g, spawns, ctxattrs, _memo={}):
    if id(g.node) in _memo:
        return _memo[id(g.node)]
    _memo[id(g.node)] = False
    r = False
    for n in ast.walk(g.node):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in spawns:
                r = True
            elif any(isinstance(a, ast.Starred) for a in n.args) and isinstance(n.func, ast.Name):
                r = True
            elif isinstance(n.func, ast.Name) and n.func.id in g.children and reaches(p, g.children[n.func.id], spawns, ctxattrs):
                r = True
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in ctxattrs:
            r = True
        if r:
            break
    _memo[id(g.node)] = r
    return r


def named_func(p, fi, t):
    c = t.a[0]
    if c.k == "func":
        return p.functions.get(c.a[0])
    if c.k == "bound":
        return p.functions.get(c.a[1])
    if c.k == "attr" and fi.cls is not None:
        return p.find_method(fi.cls, c.a[1])
    return None


def determinism(p, rep, g):
    """The function's result is the same on every party: no clock, identity, randomness, or set order."""
    rep.saw(g.qual)
    bad = []
    for n in ast.walk(g.node):
        if isinstance(n, ast.Call):
            r = p.resolve_expr(n.func, g.module, g)
            nm = r[1].removeprefix("builtins.") if r and r[0] == "ext" else (n.func.id if isinstance(n.func, ast.Name) and n.func.id in ("id", "hash") and r in (None, ("builtin", n.func.id)) else None)
            if nm and (nm.startswith(VARYING) or nm in ("id", "hash")):
                bad.append((n, nm))
        it = None
        if isinstance(n, (ast.For, ast.comprehension)):
            it = n.iter
            if isinstance(it, (ast.Set, ast.SetComp)) or (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("set", "frozenset")):
                bad.append((it, "the order of a set"))
    rep.check(not bad, "children", f"{g.name}: same result on every party", where(g.module, bad[0][0]) if bad else g.where, f"depends on {bad[0][1] if bad else ''}, which differs between parties")


# ------------------------------------------------------------------ jobs
def job_rules(p, rep, ctxs):
    # 1. constructions of contexts from a request
    makers = []
    for info in ctxs.values():
        c = info["cls"]
        if not info["spawn"]:
            continue
        init = c.methods["__init__"]
        roles = init_roles(p, c, init)
        idp = next((roles[a] for a in info["id"] if a in roles), None)
        for n, m, f in all_nodes(p, ast.Call):
            r = p.resolve_expr(n.func, m, f)
            if r and r[0] == "class" and r[1] is c and f is not None and f.cls is not c:
                makers.append((f, c, idp, init))
    if not makers:
        raise AnalysisBroken("no construction of a root communication context found")
    jobparams = {}
    for f, c, idp, init in makers:
        rep.saw(f.qual)
        seen = []

        class K(Client):
            def should_inline(self, it, g, call):
                return g.module is f.module

            def on_call(self, it, call):
                if call.cls is c:
                    b = call.bind(init)
                    seen.append((b, call.st, it.where(call.node)))
                    return [(V(T("fresh", "ctx", call.site)), call.st)]
                return None

        Engine(p, K()).run(f, self_cls=f.cls)
        for b, st, w in seen:
            x = one(b[idp]) if idp in b else None
            prm = {t for t in subterms(x) if t.k == "param" and t.a[0] == ("root", f.qual)} if x is not None else set()
            exts = [e for t in subterms(x) if t.k == "call" and (e := callee_ext(t)) and e.startswith(VARYING)] if x is not None else []
            rep.check(bool(prm) and not exts, "job", f"{f.name}: context is named after the job", w, f"the context id {show(x)[:50] if x is not None else None} is not the identity of the job" + (f" (depends on {exts[0]}, which differs between workers)" if exts else ""))
            if prm:
                names = [t.a[1] for t in prm if t.a[1] not in (f.params[0] if f.cls else "",)]
                direct = [t.a[1] for t in prm if t is x or t.k == "param" and "job" in t.a[1] or len(prm) == 1]
                jobparams[f.qual] = (f, direct[0] if direct else names[0])
    # 2. callers pass a job id through
    chain = dict(jobparams)
    todo = list(jobparams.values())
    ends = []
    seen = set()
    pass_through(p, rep, todo, chain, ends, seen)
    # 3. the HTTP driver transmits the id under the name the worker reads
    for g, nm, w in list(ends):
        for f, prm in transmit(p, rep, g, nm):
            if (f.qual, prm) not in chain:
                chain[f.qual, prm] = True
                todo.append((f, prm))
    pass_through(p, rep, todo, chain, [], seen)
    # 4. dispatch: one unique id per job for all ranks
    dispatch(p, rep)


RANKS = ("rank", "my_rank", "party", "party_id", "local_rank")


def pass_through(p, rep, todo, chain, ends, seen):
    while todo:
        f, prm = todo.pop()
        for n, m, g in all_nodes(p, ast.Call):
            if g is None:
                continue
            r = p.resolve_expr(n.func, m, g)
            hit = r and r[0] == "func" and r[1] is f
            idx = f.params.index(prm) if prm in f.params else None
            arg = None
            if not hit and isinstance(n.func, ast.Attribute) and f.cls is not None and n.func.attr == f.name and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and g.cls is f.cls:
                hit = True
                idx = idx - 1 if idx is not None else None
                arg = pick(n, idx, prm)
            elif hit:
                arg = pick(n, idx, prm)
            if not hit:
                # handed over as a callable: submit(f, a, b) / run_in_executor(pool, f, a, b)
                for i, a in enumerate(n.args):
                    tgt = None
                    if isinstance(a, ast.Name):
                        rr = p.resolve_expr(a, m, g)
                        tgt = rr[1] if rr and rr[0] == "func" else None
                        if tgt is None and g is not None:
                            h = g
                            while h is not None and tgt is None:
                                tgt = h.children.get(a.id)
                                h = h.parent
                        j = idx
                    elif isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == "self" and f.cls is not None and g.cls is f.cls and a.attr == f.name:
                        tgt = f
                        j = idx - 1 if idx is not None else None
                    if tgt is f:
                        hit = True
                        arg = None
                        for kw in n.keywords:
                            if kw.arg == prm:
                                arg = kw.value
                        if arg is None and j is not None and len(n.args) > i + 1 + j:
                            arg = n.args[i + 1 + j]
                        break
            if not hit:
                # call of a nested function by name
                if isinstance(n.func, ast.Name):
                    h = g
                    while h is not None:
                        if h.children.get(n.func.id) is f:
                            hit = True
                            arg = pick(n, idx, prm)
                            break
                        h = h.parent
            if not hit or (id(n), f.qual) in seen:
                continue
            seen.add((id(n), f.qual))
            rep.saw(g.qual)
            w = where(m, n)
            srcs = origins(p, g, arg)
            params = [s for s in srcs if s[0] == "param"]
            reqs = [s for s in srcs if s[0] == "attr"]
            rank = [x for x in params + reqs if x[1] in RANKS]
            params = [x for x in params if x not in rank]
            reqs = [x for x in reqs if x not in rank]
            if rank:
                rep.bad("job", f"{g.name} passes the job's identity to {f.name}", w, f"{ast.unparse(arg)} depends on the worker's {rank[0][1]}: the workers of one job use different keys")
            rep.check(bool(params or reqs), "job", f"{g.name} passes the job's identity to {f.name}", w, f"{f.name} gets {ast.unparse(arg) if arg is not None else 'no job id'}: the job's identity is lost and jobs share a context")
            for _, nm in params:
                q = (g.qual, nm)
                if q not in chain:
                    chain[q] = True
                    owner = g
                    while owner is not None and nm not in owner.allparams:
                        owner = owner.parent
                    if owner is not None and (owner.qual, nm) not in seen:
                        seen.add((owner.qual, nm))
                        todo.append((owner, nm))
            for _, nm in reqs:
                ends.append((g, nm, w))


def pick(n, idx, prm):
    for kw in n.keywords:
        if kw.arg == prm:
            return kw.value
    if idx is not None and len(n.args) > idx and not any(isinstance(a, ast.Starred) for a in n.args[: idx + 1]):
        return n.args[idx]
    return None


def origins(p, g, e, depth=0):
    """Where an expression comes from: ("param", name), ("attr", name), ("call", ext), ("const", v)."""
    if e is None or depth > 6:
        return []
    if isinstance(e, ast.BoolOp):
        return [x for v in e.values for x in origins(p, g, v, depth + 1)]
    if isinstance(e, ast.IfExp):
        return origins(p, g, e.body, depth + 1) + origins(p, g, e.orelse, depth + 1)
    if isinstance(e, ast.Constant):
        return [("const", e.value)]
    if isinstance(e, ast.Attribute):
        if any(isinstance(x, ast.Call) for x in ast.walk(e.value)):
            return origins(p, g, e.value, depth + 1)
        return [("attr", e.attr)]
    if isinstance(e, ast.Name):
        f = g
        while f is not None:
            if e.id in f.allparams:
                return [("param", e.id)]
            if e.id in f.locals():
                out = []
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                        out += origins(p, f, n.value, depth + 1)
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == e.id and n.value is not None:
                        out += origins(p, f, n.value, depth + 1)
                return out
            f = f.parent
        return []
    if isinstance(e, ast.Call):
        r = p.resolve_expr(e.func, g.module, g)
        out = [("call", r[1] if r and r[0] == "ext" else ast.unparse(e.func))]
        if r and r[0] == "func":
            for n in ast.walk(r[1].node):
                if isinstance(n, ast.Return) and n.value is not None:
                    out += [x for x in origins(p, r[1], n.value, depth + 1) if x[0] == "call"]
        if isinstance(e.func, ast.Attribute):
            out += origins(p, g, e.func.value, depth + 1) if isinstance(e.func.value, ast.Call) else []
        for a in e.args:
            out += origins(p, g, a, depth + 1)
        return out
    if isinstance(e, ast.JoinedStr):
        return [x for v in e.values if isinstance(v, ast.FormattedValue) for x in origins(p, g, v.value, depth + 1)]
    if isinstance(e, ast.BinOp):
        return origins(p, g, e.left, depth + 1) + origins(p, g, e.right, depth + 1)
    if isinstance(e, ast.Subscript):
        return origins(p, g, e.value, depth + 1)
    return []


def transmit(p, rep, g, field):
    """Some driver method sends its job id under this field name whenever it has one."""
    out = []
    for c in p.classes.values():
        if not c.module.name.startswith("mplang.backends.simp_driver"):
            continue
        for f in c.methods.values():
            posts = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "post" and any(isinstance(x, ast.Constant) and "/exec" in str(x.value) for x in ast.walk(f.node))]
            if not posts:
                continue
            jp = [x for x in f.allparams if "job" in x]
            if not jp:
                rep.bad("job", f"{c.name}.{f.name} transmits the job id", f.where, "a request to run a graph carries no job id")
                continue
            rep.saw(f.qual)
            out.append((f, jp[0]))
            sent = []
            jt = T("param", ("root", f.qual), jp[0])

            class K(Client):
                path_sensitive = True

                def on_call(self, it, call):
                    if call.name == "post":
                        fields = {}
                        for o in split(call.kwargs.get("json", frozenset())):
                            for s, v in call.st.slots(o).items():
                                if isinstance(s, tuple) and s[0] == "k":
                                    fields[s[1]] = one(v)
                        sent.append((fields, call.st, it.where(call.node)))
                        return [(V(T("fresh", "resp", call.site)), call.st)]
                    return None

            Engine(p, K()).run(f, self_cls=c)
            for fields, st, w in sent:
                none = any((cnd is jt and not tr) or (cnd.k == "cmp" and cnd.a[0] == "is" and jt in cnd.a[1:] and tr) for cnd, tr in st.conds.items())
                if none:
                    continue
                rep.check(fields.get(field) is jt, "job", f"{c.name}.{f.name} transmits the job id", w, f"the field '{field}' the worker reads is {show(fields[field]) if field in fields else 'not sent'}")
    return out


def dispatch(p, rep):
    """Loops that submit one graph to several ranks."""
    n_disp = 0
    drivers = [c for c in p.classes.values() if "submit" in c.methods and "collect" in c.methods]
    subm = [c.methods["submit"] for c in drivers]
    if not subm:
        raise AnalysisBroken("no driver with submit and collect found")
    prm = None
    for s in subm:
        prm = next((x for x in s.allparams if "job" in x), prm)
    if prm is None:
        rep.bad("job", "drivers take a job id", subm[0].where, "no driver's submit method takes a job id")
        return
    idx = next(s.params.index(prm) - 1 for s in subm if prm in s.params)
    for n, m, f in all_nodes(p, ast.Call):
        if not (isinstance(n.func, ast.Attribute) and n.func.attr == "submit") or f is None or len(n.args) + len(n.keywords) < 3:
            continue
        if f.cls in drivers or not m.name.startswith("mplang."):
            continue
        rv = n.func.value
        if not isinstance(rv, (ast.Name, ast.Attribute)) or any(k in ast.unparse(rv) for k in ("executor", "pool")):
            continue
        loop = enclosing_loop(f, n)
        n_disp += 1
        rep.saw(f.qual)
        arg = pick(n, idx, prm)
        w = where(m, n)
        src = origins(p, f, arg)
        uniq = [s for s in src if s[0] == "call" and s[1] in UNIQUE] or [s for s in src if s[0] == "param"]
        rep.check(bool(uniq), "job", f"{f.name}: unique job id", w, f"the job id is {ast.unparse(arg) if arg is not None else 'not given'}: different jobs run in the same communication context")
        if uniq and loop is not None:
            inside = False
            names = {x.id for x in ast.walk(arg) if isinstance(x, ast.Name)}
            if any(isinstance(x, ast.Call) for x in ast.walk(arg)):
                inside = True
            for x in ast.walk(loop):
                if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id in names for t in x.targets):
                    inside = True
                if isinstance(x, (ast.For, ast.comprehension)) and any(isinstance(y, ast.Name) and y.id in names for y in ast.walk(x.target)):
                    inside = True
            rep.check(not inside, "job", f"{f.name}: one job id for all workers", w, "the job id is made anew for each worker: the workers of one job use different keys")
    rep.check(n_disp > 0, "job", "dispatch sites", subm[0].where, "no dispatch of a graph to the workers found")


def enclosing_loop(f, n):
    best = None
    for x in ast.walk(f.node):
        if isinstance(x, (ast.For, ast.While, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)) and any(y is n for y in ast.walk(x)):
            best = x
    return best


# ------------------------------------------------------------------ links over a shared communicator
def link_rules(p, rep, ctxs):
    chans = [i["cls"] for i in ctxs.values() if not i["spawn"]]
    for c in chans:
        init = c.methods.get("__init__")
        if init is None:
            continue
        roles = init_roles(p, c, init)
        idp = [roles[a] for a in next(i["id"] for i in ctxs.values() if i["cls"] is c) if a in roles]
        for n, m, f in all_nodes(p, ast.Call):
            r = p.resolve_expr(n.func, m, f)
            if not (r and r[0] == "class" and r[1] is c) or f is None:
                continue
            rep.saw(f.qual)
            w = where(m, n)
            arg = None
            for q in idp:
                a = pick(n, init.params.index(q) - 1 if q in init.params else None, q)
                arg = a if a is not None else arg
            src = origins(p, f, arg)
            rep.check(any(s[0] in ("param", "call", "attr") for s in src), "link", f"{f.name}: tag prefix identifies the link", w, f"the tag prefix is {ast.unparse(arg) if arg is not None else 'the default'}: all links over this communicator use the same tags")
            for s in src:
                if s[0] == "param":
                    prefix_source(p, rep, f, s[1])
    # contexts numbered by a shared template
    spawns = {"spawn"}
    for n, m, f in all_nodes(p, ast.Call):
        if f is None or not isinstance(n.func, ast.Attribute) or n.func.attr not in spawns or not m.name.startswith("mplang."):
            continue
        if f.cls in [i["cls"] for i in ctxs.values()] or m.name.startswith("mplang.runtime"):
            continue
        w = where(m, n)
        rep.saw(f.qual)
        named = bool(n.args or n.keywords)
        rep.check(named, "link", f"{f.cls.name if f.cls else f.name}: identity of the spawned link", w, "the spawned link is numbered by a template that concurrent jobs share: when two jobs reach two workers in different order, they get each other's numbers and exchange messages")


def prefix_source(p, rep, f, prm, depth=0):
    """Follow a tag-prefix parameter to where it is made; it must contain the link's members."""
    if depth > 4:
        return
    idx = f.params.index(prm) if prm in f.params else None
    for n, m, g in all_nodes(p, ast.Call):
        if g is None or not isinstance(n.func, ast.Attribute) or n.func.attr != f.name:
            continue
        arg = pick(n, idx - 1 if idx is not None else None, prm)
        w = where(m, n)
        if arg is None:
            rep.bad("link", f"{g.name}: tag prefix identifies the link", w, f"{f.name} is called without a tag prefix: all such links use the same tags")
            continue
        src = origins(p, g, arg)
        own = [s for s in src if s[0] == "param"]
        if isinstance(arg, ast.Name) and any(s == ("param", arg.id) for s in src):
            o = g
            while o is not None and arg.id not in o.allparams:
                o = o.parent
            if o is not None:
                prefix_source(p, rep, o, arg.id, depth + 1)
                continue
        names = {x.id for x in ast.walk(arg) if isinstance(x, ast.Name)}
        todo, closure = list(names), set()
        while todo:
            nm = todo.pop()
            if nm in closure:
                continue
            closure.add(nm)
            for x in ast.walk(g.node):
                if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm for t in x.targets):
                    todo += [y.id for y in ast.walk(x.value) if isinstance(y, ast.Name)]
        members = [x for x in g.allparams if "part" in x or "ranks" in x or "members" in x]
        rep.check(any(x in closure for x in members), "link", f"{g.name}: tag prefix identifies the members", w, f"the tag prefix {ast.unparse(arg)[:40]} does not depend on the link's members ({', '.join(members)})")
        local = [x for x in closure if x in g.allparams and x in ("local_rank", "my_rank", "rank")]
        rep.check(not local, "link", f"{g.name}: tag prefix is the same for all members", w, f"the tag prefix depends on {', '.join(local)}, which differs between the members")
