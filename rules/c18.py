"""C18: inconsistent cluster and device descriptions are rejected up front.

The constructor check of a cluster description is followed over every device and node. Each completing path must have
decided, for an arbitrary element, the facts an accepted description guarantees; device kinds and member counts are
decided over the finite abstraction (kind of a device) x (0, 1, 2, 3 or more members) of the path conditions.
"""
from __future__ import annotations

import ast

from sa.engine import NONE, Client, Engine, T, V, one, show, split, subterms

MOD, API = "mplang.libs.device.cluster", "mplang.libs.device.api"
SPEC, NODE, DEVICE, INFO = (f"{MOD}.{n}" for n in ("ClusterSpec", "Node", "Device", "RuntimeInfo"))
RULES = {
    "decided": "every accepted description has been checked, for every node and device: names match their keys, ranks and endpoints are unique, members are the registered nodes and distinct",
    "counts": "a device is accepted only with a known kind and a member count that kind allows, whatever the letter case of the kind",
    "parsed": "every entry of a description becomes a node, device or member, ranks follow the position, and required values have no fallback",
    "inverse": "what emitting writes under a key is what parsing reads from that key, and nodes are written in rank order",
    "resolved": "look-ups by rank and lists by rank use the rank of the node and not its position",
    "sizes": "a runtime is created for a cluster description only if their sizes agree",
    "options": "every declared command line option that describes the cluster is read",
}
# members each kind requires (documented in design/architecture.md)
COUNT = {"ppu": lambda n: n == 1, "tee": lambda n: n == 1, "spu": lambda n: n >= 1}
UNKNOWN = object()


class Flow(Client):
    exact = True
    comp_facts = True
    assume_nonempty_loops = True
    max_depth = 8

    def __init__(self, p, paths=True, outside=()):
        self.p = p
        self.path_sensitive = self.loop_conds = paths
        self.max_states = 400 if paths else 64
        self.outside = outside
        self.loops = {}          # function -> [values iterated over]
        self.over = {}           # loop statement -> values iterated over

    def should_inline(self, it, fi, call):
        return fi.module.name == MOD and fi.name not in self.outside

    def quiet_call(self, it, call):
        return True

    def on_loop(self, it, kind, iterval, st, node, frame):
        self.loops.setdefault(frame.func.qual if frame.func else "", []).append(iterval)
        self.over[id(node)] = self.over.get(id(node), frozenset()) | iterval
        return st

    def leaves(self, st, node):
        """What was decided for an element says nothing about all of them once the loop is left early."""
        its = self.over.get(id(node), frozenset())
        roots = {show(x) for v in its for x in [v, *v.a] if isinstance(x, T)}
        def about(t):
            return any(x.k in ("elem", "dval", "dkey", "ditems", "dvalues", "index") and x.a and isinstance(x.a[0], T) and (x.a[0] in its or show(x.a[0]) in roots) for x in subterms(t))
        st = st.copy()
        st.conds = {k: v for k, v in st.conds.items() if not about(k)}
        return st

    def on_cond(self, it, term, truth, st, node, frame):
        # the entries of a description are objects
        if isinstance(term, T):
            x = term
            if term.k == "cmp" and term.a[0] in ("is", "==") and NONE in term.a[1:3]:
                x, truth = next((y for y in term.a[1:3] if y is not NONE), None), not truth
            if isinstance(x, T) and x.k in ("elem", "dval") and not truth and any(is_attr(y, n) for y in subterms(x) for n in ("nodes", "devices", "members")):
                return None
        return st

    def on_getitem(self, it, obj, idx, st, node, frame):
        if any(is_attr(x, "kind") for x in subterms(idx)) and one(obj) is not None and one(idx) is not None:
            return [(V(T("item", one(obj), one(idx))), st)]
        return None

    def on_call(self, it, call):
        if call.name == "get" and call.recv is not None and call.args and any(is_attr(x, "kind") for x in subterms(call.args[0])) and one(call.recv) is not None:
            return [(V(T("call", T("attr", one(call.recv), "get"), tuple(one(a) for a in call.args), (), 0)), call.st)]
        return None

    def on_iter_end(self, it, st, node, frame, kind):
        return self.leaves(st, node) if kind == "break" else st

    def on_return(self, it, value, st, node, frame):
        if frame.func is None or not isinstance(node, ast.Return):
            return st
        if any(x.k in ("elem", "dval", "index") for x in subterms(value)):
            return st          # a search that returns what it found
        for n in ast.walk(frame.func.node):
            if isinstance(n, (ast.For, ast.While)) and any(x is node for b in n.body for x in ast.walk(b)):
                st = self.leaves(st, n)
        return st


def reach(t, st):
    """Subterms of a term, through the contents of the objects it is built from."""
    seen, todo, objs = set(), [t], set()
    out = []
    while todo:
        for x in subterms(todo.pop(), seen):
            out.append(x)
            if x.k == "new" and x not in objs:
                objs.add(x)
                for k, v in st.heap.items():
                    if k[0] == x:
                        todo.append(v)
                        todo.append(k[1])
    return [x for x in out]


def allterms(t, st):
    done, todo, objs = set(), [t], set()
    while todo:
        y = todo.pop()
        if isinstance(y, T):
            if y in done:
                continue
            done.add(y)
            if y.k == "new":
                for k, v in st.heap.items():
                    if k[0] == y:
                        todo += [v, k[1]]
            elif y.k not in ("const", "param", "closure"):
                todo.extend(y.a)
        elif isinstance(y, (tuple, list, set, frozenset)):
            todo.extend(y)
    return done


def is_attr(t, name):
    return t.k == "attr" and t.a[1] == name


def under(t, st, name):
    """does the term come from the collection held by attribute `name`?"""
    return any(is_attr(x, name) for x in allterms(t, st))


def elements(ts, name, st, of=None):
    """attribute terms `x.name` where x is an element of collection `of`"""
    return [t for t in ts if is_attr(t, name) and of(t.a[0], st)]


def a_node(t, st):
    return t.k in ("elem", "dval", "item", "rest", "new") and under(t, st, "nodes") and not under(t, st, "members")


def a_member(t, st):
    return t.k in ("elem", "item", "rest") and under(t, st, "members")


def conds(st):
    out = []
    for t, truth in st.conds.items():
        if isinstance(t, T):
            out.append((t, truth, allterms(t, st)))
    return out


def plain(vals):
    return all(v.k != "tup" for v in vals)


def distinct(c, truth, ts, want, st):
    """Does the condition decide that the wanted attribute values are pairwise distinct? None: it is not about that."""
    if not any(want(x) for x in ts):
        return None
    if c.k != "cmp":
        return True
    op, l, r = c.a[0], c.a[1], c.a[2]
    if not isinstance(l, T) or not isinstance(r, T):
        return True
    if op == "in":
        lt = allterms(l, st)
        if not any(want(x) for x in lt):
            return None
        if r.k == "new" or r.k == "call":
            kept = {k[1]: v for k, v in st.heap.items() if k[0] == r and k[1] not in ("exact", "filtered", "facts", "over")}
            filled = [x for k, v in kept.items() for x in (list(split(v)) + ([k[1]] if isinstance(k, tuple) and isinstance(k[1], T) else []))]
            if not filled and r.k == "new":
                return False
            return not truth and plain(split(frozenset([l])))
        return None
    sides = []
    for s in (l, r):
        s_ts = allterms(s, st)
        hold = any(want(x) for x in s_ts)
        coll = [x for x in s_ts if x.k == "new"] + [x for x in s_ts if x.k == "call" and show(x.a[0]).split(".")[-1] in ("len", "sorted", "set", "frozenset", "Counter", "list", "tuple")]
        sides.append((hold, bool(coll)))
    for s in (l, r):
        if s.k == "call" and show(s.a[0]).endswith("len"):
            for x in allterms(s, st):
                if x.k == "new":
                    vals = {w for k, v in st.heap.items() if k[0] == x and k[1] in ("*", "keys") for w in split(v)}
                    if vals and not plain(vals):
                        return None
    if any(h and c2 for h, c2 in sides):
        return truth if op == "==" else True
    if op in ("==", "is") and not truth and not any(c2 for _, c2 in sides):
        return True if sum(h for h, _ in sides) == 2 else None
    return None


def run(p, rep, tier):
    for k, v in RULES.items():
        rep.rule(k, v, 0)
    if SPEC not in p.classes:
        rep.broken("ClusterSpec not found")
        return
    rep.saw(*[q for q, f in p.functions.items() if f.module.name == MOD])
    validation(p, rep)
    parsing(p, rep)
    resolution(p, rep)
    sizes(p, rep)
    options(p, rep)


# ------------------------------------------------------------------ validation

def known_kinds(p):
    out = set()
    m = p.modules.get(API)
    for n in ast.walk(m.tree) if m else ():
        if isinstance(n, ast.Compare) and any(isinstance(x, ast.Attribute) and x.attr == "kind" for x in ast.walk(n)):
            out |= {x.value.lower() for x in ast.walk(n) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
    return out & set(COUNT) or set(COUNT)


def literal(p, t, st):
    """value of a constant container, module constant included"""
    if t.k == "const":
        return t.a[-1]
    if t.k == "tup":
        vals = []
        for x in t.a[0] if len(t.a) == 1 and isinstance(t.a[0], tuple) else t.a:
            v = literal(p, x, st) if isinstance(x, T) else literal(p, one(x), st) if one(x) is not None else UNKNOWN
            if v is UNKNOWN:
                return UNKNOWN
            vals.append(v)
        return tuple(vals)
    if t.k == "new":
        slots = {k[1]: v for k, v in st.heap.items() if k[0] == t}
        if "*" in slots or not slots:
            return UNKNOWN
        vals, d = [], {}
        for k, v in slots.items():
            if k == "exact":
                continue
            if not isinstance(k, tuple) or one(v) is None:
                return UNKNOWN
            x = literal(p, one(v), st)
            if x is UNKNOWN:
                return UNKNOWN
            if k[0] == "k":
                d[k[1].a[-1] if isinstance(k[1], T) and k[1].k == "const" else k[1]] = x
            else:
                vals.append(x)
        return d or tuple(vals)
    if t.k == "modvar" or t.k == "attr" and isinstance(t.a[0], T) and t.a[0].k in ("mod", "class"):
        name = t.a[-1]
        for m in p.modules.values():
            for n in m.tree.body if m.name == MOD or t.a[0] == m.name else ():
                tgt = n.targets[0] if isinstance(n, ast.Assign) else n.target if isinstance(n, ast.AnnAssign) else None
                if isinstance(tgt, ast.Name) and tgt.id == name and n.value is not None:
                    v = n.value
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("frozenset", "set", "tuple", "list") and len(v.args) == 1:
                        v = v.args[0]
                    try:
                        return ast.literal_eval(v)
                    except ValueError:
                        return UNKNOWN
    if t.k == "call" and show(t.a[0]).split(".")[-1] in ("frozenset", "set", "tuple", "list") and t.a[1]:
        return literal(p, t.a[1][0], st) if isinstance(t.a[1][0], T) else UNKNOWN
    return UNKNOWN


def val(p, t, st, kind, n):
    """Value of a term for a device of this kind with n members, or UNKNOWN."""
    if not isinstance(t, T):
        return UNKNOWN
    if is_attr(t, "kind"):
        return kind
    if is_attr(t, "members"):
        return ("members", n)
    if t.k == "call":
        name = show(t.a[0]).split(".")[-1]
        if name == "len" and t.a[1]:
            v = val(p, t.a[1][0], st, kind, n)
            return v[1] if isinstance(v, tuple) and v[:1] == ("members",) else UNKNOWN
        if t.a[0].k == "attr" and name in ("lower", "upper", "casefold", "strip", "title", "capitalize"):
            v = val(p, t.a[0].a[0], st, kind, n)
            return getattr(v, name)() if isinstance(v, str) else UNKNOWN
        if name in ("get",) and t.a[0].k == "attr":
            d = literal(p, t.a[0].a[0], st)
            v = val(p, t.a[1][0], st, kind, n) if t.a[1] else UNKNOWN
            if isinstance(d, dict) and isinstance(v, str):
                dflt = literal(p, t.a[1][1], st) if len(t.a[1]) > 1 else None
                return d.get(v, dflt)
    if t.k == "item":
        d, v = literal(p, t.a[0], st), val(p, t.a[1], st, kind, n)
        if isinstance(d, dict) and isinstance(v, str) and v in d:
            return d[v]
        return UNKNOWN
    if t.k == "cmp":
        return cmpval(p, t, st, kind, n)
    if t.k == "phi":
        return UNKNOWN
    return literal(p, t, st)


def cmpval(p, t, st, kind, n):
    op, a, b = t.a[0], val(p, t.a[1], st, kind, n), val(p, t.a[2], st, kind, n)
    if a is UNKNOWN or b is UNKNOWN:
        return UNKNOWN
    try:
        return {"==": lambda: a == b, "is": lambda: a is b or a == b, "<": lambda: a < b, "<=": lambda: a <= b, "in": lambda: a in b}[op]()
    except (KeyError, TypeError):
        return UNKNOWN


def truth_of(v):
    if v is UNKNOWN:
        return UNKNOWN
    if isinstance(v, tuple) and v[:1] == ("members",):
        return v[1] > 0
    return bool(v)


def validation(p, rep):
    fi = p.find_method(p.classes[SPEC], "__post_init__")
    ob = {
        "node key is the node's name": "a node can be registered under a different name",
        "device key is the device's name": "a device can be registered under a different name",
        "ranks are unique": "two nodes can have the same rank",
        "endpoints are unique": "two nodes can have the same endpoint",
        "members exist": "a device can have a member that is not one of the nodes",
        "members are the registered nodes": "a member can differ from the node registered under its name",
        "members are distinct": "a device can list a node twice",
    }
    if fi is None or fi.module.name != MOD:
        for k, v in ob.items():
            rep.bad("decided", k, p.classes[SPEC].name, f"a description is constructed without any check: {v}")
        return
    cl = Flow(p)
    rets, _ = Engine(p, cl).run(fi)
    kinds = known_kinds(p)
    miss = {k: None for k in ob}
    accepted, undecided = set(), False
    for _, st in rets:
        cs = conds(st)
        got = dict.fromkeys(ob, False)
        whole = False
        for c, truth, ts in cs:
            keys = [x for x in ts if x.k in ("dkey", "elem")]
            for what, coll in (("node", "nodes"), ("device", "devices")):
                if any(x.k in ("dkey", "elem") and x.a and isinstance(x.a[0], T) and is_attr(x.a[0], coll) for x in keys) and any(is_attr(x, "name") and under(x, st, coll) and not under(x, st, "members") for x in ts):
                    if c.k != "cmp" or truth:
                        got[f"{what} key is the {what}'s name"] = True
            for name, what in (("rank", "ranks are unique"), ("endpoint", "endpoints are unique")):
                if distinct(c, truth, ts, lambda x: is_attr(x, name) and a_node(x.a[0], st), st):
                    got[what] = True
            mem = [x for x in ts if a_member(x, st) and x.k == "elem"]
            if mem and any(is_attr(x, "nodes") for x in ts):
                if c.k != "cmp" or truth:
                    got["members exist"] = True
                # occurrences of the member itself, not just of its name
                for x in ts:
                    for y in x.a if x.k not in ("const", "new", "param", "closure") else ():
                        for z in ([y] if isinstance(y, T) else split(y) if isinstance(y, frozenset) else y if isinstance(y, tuple) else ()):
                            if z in mem and not is_attr(x, "name"):
                                whole = True
                if whole or c.k == "new":
                    got["members are the registered nodes"] = True
            if not any(is_attr(x, "nodes") for x in ts) or any(is_attr(x, "name") and a_member(x.a[0], st) for x in ts):
                if distinct(c, truth, ts, lambda x: x.k == "elem" and a_member(x, st) or x.k == "attr" and x.a[1] in ("name", "rank", "endpoint") and a_member(x.a[0], st) or is_attr(x, "member_ranks"), st) and not (c.k == "cmp" and any(is_attr(x, "nodes") for x in ts)):
                    got["members are distinct"] = True
        for k, v in got.items():
            if not v and miss[k] is None:
                miss[k] = st
        # kinds and counts
        vague = False
        for c, truth, ts in cs:
            about = any(is_attr(x, "kind") for x in ts) or any(x.k == "call" and show(x.a[0]).endswith("len") and x.a[1] and isinstance(x.a[1][0], T) and is_attr(x.a[1][0], "members") for x in ts) or is_attr(c, "members")
            both = c.k == "cmp" and all(isinstance(x, T) and under(x, st, "members") for x in c.a[1:3])
            if about and not both and val(p, c, st, "ppu", 1) is UNKNOWN and val(p, c, st, "spu", 2) is UNKNOWN:
                vague = True
        if vague:
            undecided = True
            continue
        for k in [f(k) for k in (*sorted(kinds), "gpu") for f in (str.lower, str.upper, str.title)] + [""]:
            for n in range(4):
                if all(truth_of(v) is UNKNOWN or truth_of(v) == truth for c, truth, ts in cs for v in [val(p, c, st, k, n)]):
                    accepted.add((k, n))
    if not rets:
        rep.notes.append("no description is accepted on any path that could be followed")
        return
    for k, why in ob.items():
        rep.check(miss[k] is None, "decided", k, fi.where, "decided on every accepting path" if miss[k] is None else why)
    if undecided:
        rep.notes.append("some conditions on kinds or member counts are outside the abstraction")
    for k in sorted(kinds):
        bad = sorted({n for kk, n in accepted if kk.lower() == k and not COUNT[k](n)})
        rep.check(not bad, "counts", k, fi.where, f"accepted only with a valid number of members" if not bad else f"a device of kind {k.upper()} is accepted with {bad[0]} member(s)" + ("" if all((v, bad[0]) in accepted for v in (k, k.upper())) else " depending on the letter case of its kind"))
    odd = sorted({k for k, n in accepted if k.lower() not in kinds})
    rep.check(not odd, "counts", "unknown kinds", fi.where, "rejected" if not odd else f"a device of unknown kind {odd[0]!r} is accepted")


# ------------------------------------------------------------------ parsing and emitting

def fields_of(p, q):
    return [f if isinstance(f, str) else getattr(f, "name", None) or f[0] for f in p.dataclass_fields(p.classes[q])]


def slot(st, o, name):
    return st.heap.get((o, ("a", name)), frozenset())


def emission(p, rep, q):
    """key -> terms, values spread over the result, st"""
    fi = p.find_method(p.classes[q], "to_dict")
    if fi is None or fi.module.name != MOD:
        return None
    cl = Flow(p, paths=False, outside=("to_dict",))
    rets, _ = Engine(p, cl).run(fi)
    return fi, cl, [(v, st) for val_, st in rets for v in split(val_)]


def by_rank(p, v, st):
    """Is the iterated value ordered by rank? None: unknown."""
    res = True
    for t in split(v):
        if t.k == "call" and show(t.a[0]).split(".")[-1] in ("sorted",):
            fn = next((x for x in subterms(t) if x.k in ("closure", "func", "partial")), None)
            q = fn.a[0] if fn is not None and isinstance(fn.a[0], str) else None
            f = p.functions.get(q) if q else None
            if f is None:
                consts = [x.a[-1] for x in allterms(t, st) if x.k == "const"]
                if "rank" in consts:
                    continue
                res = None if res else res
                continue
            attrs = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}
            rev = any(x.k == "const" and x.a[-1] is True for kw in t.a[2] for x in subterms(kw)) if len(t.a) > 2 else False
            if "rank" not in attrs or rev:
                return False
        elif t.k in ("dvalues", "ditems", "dkeys") or is_attr(t, "nodes"):
            return False
        elif t.k == "call" and show(t.a[0]).split(".")[-1] in ("list", "tuple", "reversed", "iter") and any(x.k in ("dvalues", "ditems") for x in t.a[1] if isinstance(x, T)):
            return False
        elif t.k == "new":
            inner = st.heap.get((t, "over"))
            r = by_rank(p, inner, st) if inner else None
            if r is False:
                return False
            res = res and r
        else:
            res = None
    return res


def parsing(p, rep):
    fi = p.find_method(p.classes[SPEC], "from_dict")
    if fi is None:
        rep.broken("ClusterSpec.from_dict not found")
        return
    cl = Flow(p, paths=False, outside=("__post_init__",))
    rets, _ = Engine(p, cl).run(fi)
    cfg = next((T("param", ("root", fi.qual), a) for a in fi.allparams if a not in ("cls", "self")), None)
    if not rets or cfg is None:
        rep.notes.append("parsing could not be followed")
        return
    read = {}      # (class, field) -> keys read
    missing, fallback, ranks = {}, {}, {}
    seen = set()
    for v, st in rets:
        for spec in split(v):
            if spec.k != "new" or not str(spec.a[0]).endswith(SPEC):
                rep.notes.append(f"result {show(spec)} of parsing is not followed")
                continue
            objs = {}
            for x in allterms(spec, st):
                if x.k == "new":
                    for q in (SPEC, NODE, DEVICE, INFO):
                        if str(x.a[0]).endswith(q):
                            objs.setdefault(q, []).append(x)
            for q, f, what in ((SPEC, "nodes", NODE), (SPEC, "devices", DEVICE)):
                held = slot(st, spec, f)
                full = [o for o in split(held) if any(str(x.a[0]).endswith(what) for x in allterms(o, st) if x.k == "new")]
                if held and not full and all(o.k == "new" for o in split(held)):
                    missing[f] = "an entry of the description can be left out"
                if any(st.heap.get((o, "filtered")) for o in split(held) if o.k == "new"):
                    missing[f] = "entries of the description are filtered out"
                if full:
                    seen.add(f)
            for d in objs.get(DEVICE, []):
                ms = slot(st, d, "members")
                for o in split(ms):
                    if o.k != "new":
                        continue
                    inner = st.heap.get((o, "*"))
                    if st.heap.get((o, "filtered")):
                        missing["members"] = "unresolvable members are filtered out"
                    elif not inner and not any(isinstance(k[1], tuple) for k in st.heap if k[0] == o):
                        missing["members"] = "a member that does not resolve can be left out"
                    else:
                        seen.add("members")
            for q in (SPEC, NODE, DEVICE, INFO):
                for o in objs.get(q, []):
                    for f in fields_of(p, q):
                        val_ = slot(st, o, f)
                        keys = set()
                        for x in split(val_):
                            ts = allterms(x, st)
                            keys |= {y.a[1].a[-1] for y in ts if y.k == "item" and isinstance(y.a[1], T) and y.a[1].k == "const"}
                            keys |= {y.a[1][0].a[-1] for y in ts if y.k == "call" and y.a[0].k == "attr" and y.a[0].a[1] in ("get", "pop") and y.a[1] and isinstance(y.a[1][0], T) and y.a[1][0].k == "const"}
                            keys |= {("key of", "devices")} if any(y.k == "dkey" for y in ts) else set()
                        if (q, f) == (DEVICE, "members") and all(x.k == "new" for x in split(val_)):
                            # looked up one by one from what was iterated over
                            keys |= {y.a[1].a[-1] for vs in cl.loops.values() for w in vs for y in split(w) if y.k == "item" and isinstance(y.a[1], T) and y.a[1].k == "const"} - {"nodes", "devices"}
                        read.setdefault((q, f), set()).update(keys)
                        if (q, f) in ((NODE, "name"), (NODE, "endpoint"), (DEVICE, "kind"), (DEVICE, "members"), (DEVICE, "name")):
                            for x in split(val_):
                                ts = allterms(x, st)
                                if not any(y.k == "item" and isinstance(y.a[1], T) and y.a[1].k == "const" and y.a[1].a[-1] not in ("nodes", "devices") or y.k == "call" and y.a[0].k == "attr" and y.a[0].a[1] in ("get", "pop") or y.k == "dkey" or x.k == "new" and y.k == "new" and y is not x for y in ts) or cfg not in ts and x.k != "new":
                                    fallback[(q, f)] = show(x)
                                elif x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] in ("get", "pop", "setdefault") and len(x.a[1]) > 1:
                                    fallback[(q, f)] = show(x)
                        if (q, f) == (NODE, "rank"):
                            for x in split(val_):
                                ranks[x] = st
    for vals in (v for q, vs in cl.loops.items() for v in vs):
        srcs = [y for y in split(vals) if y.k == "item" and isinstance(y.a[1], T) and y.a[1].k == "const" and y.a[1].a[-1] in ("nodes", "devices", "members") and cfg in subterms(y)]
        other = [y for y in split(vals) if y not in srcs]
        if srcs and other and not st_has(rets, srcs[0]):
            fallback[("section", show(srcs[0]))] = show(other[0])
    for f in ("nodes", "devices", "members"):
        if f in missing or f in seen:
            rep.check(f not in missing, "parsed", f"every entry of {f}", fi.where, missing.get(f, "each entry is kept or refused"))
    for q, f in ((NODE, "name"), (NODE, "endpoint"), (DEVICE, "kind"), (DEVICE, "members")):
        rep.check((q, f) not in fallback, "parsed", f"{q.split('.')[-1]}.{f} is required", fi.where, "a missing value is refused" if (q, f) not in fallback else f"a missing value is replaced by {fallback[(q, f)]}")
    for k, why in fallback.items():
        if k[0] == "section":
            rep.bad("parsed", f"section {k[1]}", fi.where, f"a missing section is read as {why}")
    for x, st in ranks.items():
        if x.k == "index" or x.k == "call" and show(x.a[0]).endswith("len"):
            rep.ok("parsed", "rank is the position", fi.where, show(x))
        elif cfg in allterms(x, st):
            rep.bad("parsed", "rank is the position", fi.where, f"the rank of a node is {show(x)}, which emitting does not preserve")
        else:
            rep.notes.append(f"rank {show(x)} not followed")
    # emitting
    for q in (SPEC, NODE, DEVICE, INFO):
        e = emission(p, rep, q)
        cn = q.split(".")[-1]
        if e is None:
            rep.notes.append(f"{cn} has no to_dict")
            continue
        efi, ecl, outs = e
        for o, st in outs:
            if o.k != "new":
                rep.notes.append(f"{cn}.to_dict returns {show(o)}")
                continue
            slots = {k[1]: v for k, v in st.heap.items() if k[0] == o}
            written = {}
            for k, v in slots.items():
                if isinstance(k, tuple) and k[0] == "k":
                    key = k[1].a[-1] if isinstance(k[1], T) and k[1].k == "const" else k[1]
                    for x in allterms(v, st):
                        if x.k == "attr" and x.a[0].k == "param" and isinstance(x.a[1], str):
                            written.setdefault(x.a[1], {})[key] = v
            spread = {x.a[1] for v in [slots.get("**", frozenset()), slots.get("*", frozenset())] for x in allterms(v, st) if x.k == "attr" and x.a[0].k == "param"}
            for f in fields_of(p, q):
                keys, r = written.get(f, {}), read.get((q, f), set())
                inst = f"{cn}.{f}"
                if keys:
                    good = [k for k in keys if k in r]
                    rep.check(bool(good), "inverse", inst, efi.where, f"written and read under {sorted(map(str, keys))[0]!r}" if good else f"written under {sorted(map(str, keys))}, but read from {sorted(map(str, r))}")
                elif f in spread:
                    guard = p.find_method(p.classes[q], "__post_init__")
                    ok = True
                    if any(k != f for k in (x for d in written.values() for x in d)) and "**" in slots:
                        ok = guard is not None and all(any(is_attr(x, f) for c, t, ts in conds(s) for x in ts) for _, s in Engine(p, Flow(p)).run(guard)[0])
                    rep.check(ok, "inverse", inst, efi.where, "spread over the entry, without touching other keys" if ok else f"the contents of {f} can overwrite other keys of the entry")
                elif f == "rank" and q == NODE or ("key of", "devices") in r:
                    rep.ok("inverse", inst, efi.where, "implied by the position or key of the entry")
                else:
                    rep.bad("inverse", inst, efi.where, f"{f} is not written")
            if q == SPEC:
                for k, v in slots.items():
                    key = k[1].a[-1] if isinstance(k, tuple) and isinstance(k[1], T) and k[1].k == "const" else k[1] if isinstance(k, tuple) else None
                    if key != "nodes":
                        continue
                    for x in split(v):
                        over = st.heap.get((x, "over")) if x.k == "new" else None
                        if over is None and x.k == "new":
                            over = frozenset(t for vs in ecl.loops.values() for vv in vs for t in split(vv) if under(t, st, "nodes"))
                        r = by_rank(p, over, st) if over else None
                        if r is None:
                            rep.notes.append("order of the emitted nodes not followed")
                        else:
                            rep.check(r, "inverse", "order of nodes", efi.where, "nodes are emitted in rank order" if r else "nodes are emitted in the order of the dictionary, while parsing takes the position as the rank")
    simple = p.find_method(p.classes[SPEC], "simple")
    if simple is not None:
        rs, _ = Engine(p, Flow(p, paths=False, outside=("__post_init__",))).run(simple)
        for v, st in rs:
            nodes = {x for s in split(v) for x in allterms(s, st) if x.k == "new" and str(x.a[0]).endswith(NODE)}
            for n in nodes:
                rk = one(slot(st, n, "rank"))
                eps = [x for e_ in split(slot(st, n, "endpoint")) for x in allterms(e_, st) if x.k == "item" and "endpoints" in show(x.a[0])]
                ops = [x for i in split(slot(st, n, "runtime_info")) for x in allterms(i, st) if x.k == "item" and "op_bindings" in show(x.a[0])]
                for x in eps + ops:
                    if rk is not None:
                        rep.check(x.a[1] == rk, "parsed", f"simple: {show(x.a[0])} by rank", simple.where, f"entry {show(x.a[1])} goes to rank {show(rk)}")


def st_has(rets, t):
    """every returning state has decided that the section exists"""
    key, src = t.a[1], t.a[0]
    return all(any(c.k == "cmp" and c.a[0] == "in" and truth and c.a[1] == key and c.a[2] == src for c, truth in st.conds.items() if isinstance(c, T)) for _, st in rets)


# ------------------------------------------------------------------ look-ups

def resolution(p, rep):
    c = p.classes[SPEC]
    fi = p.find_method(c, "endpoints")
    if fi is not None:
        cl = Flow(p, paths=False)
        rets, _ = Engine(p, cl).run(fi)
        its = [v for q, vs in cl.loops.items() for v in vs]
        rs = [by_rank(p, v, rets[0][1]) for v in its if rets] or [None]
        if rs and all(r is False for r in rs):
            sorted_later = any(isinstance(n, ast.Attribute) and n.attr == "rank" for n in ast.walk(fi.node))
            if sorted_later:
                rep.notes.append("order of endpoints not followed")
            else:
                rep.bad("resolved", "endpoints", fi.where, "endpoints are listed in the order of the dictionary of nodes, not by rank")
        elif any(r is False for r in rs):
            rep.notes.append("order of endpoints not followed")
        elif all(rs):
            rep.ok("resolved", "endpoints", fi.where, "listed in rank order")
        else:
            rep.notes.append("order of endpoints not followed")
    fi = p.find_method(c, "get_node_by_rank")
    if fi is not None:
        rets, _ = Engine(p, Flow(p)).run(fi)
        want = next((a for a in fi.allparams if a != "self"), None)
        prm = T("param", ("root", fi.qual), want)
        for v, st in rets:
            for x in split(v):
                byrank = any(t and any(is_attr(y, "rank") for y in ts) and prm in ts for _, t, ts in conds(st)) or any(is_attr(y, "rank") for y in allterms(x, st))
                pos = x.k == "item" and x.a[1] == prm and by_rank(p, frozenset([x.a[0]]), st) is False
                if byrank:
                    rep.ok("resolved", "get_node_by_rank", fi.where, show(x))
                elif pos or x.k == "const":
                    rep.bad("resolved", "get_node_by_rank", fi.where, f"{show(x)} is returned without comparing its rank")
                else:
                    rep.notes.append(f"get_node_by_rank returns {show(x)}")
    dev = p.classes.get(DEVICE)
    fi = p.find_method(dev, "member_ranks") if dev else None
    if fi is not None:
        rets, _ = Engine(p, Flow(p, paths=False)).run(fi)
        ok = all(any(is_attr(y, "rank") for y in allterms(x, st)) for v, st in rets for x in split(v))
        rep.check(ok, "resolved", "member_ranks", fi.where, "the ranks of the members" if ok else "not the ranks of the members")


# ------------------------------------------------------------------ sizes

class Shallow(Flow):
    def should_inline(self, it, fi, call):
        return False


def sizes(p, rep):
    for q, fi in sorted(p.functions.items()):
        spec = [a for a in fi.allparams if a == "cluster_spec"]
        size = [a for a in fi.allparams if a in ("world_size", "endpoints")]
        if not spec or not size or fi.cls is not None or not fi.module.name.startswith("mplang."):
            continue
        if not any(isinstance(n, ast.Attribute) and n.attr == "_cluster_spec" and isinstance(n.ctx, ast.Store) for n in ast.walk(fi.node)):
            continue
        rep.saw(q)
        rets, _ = Engine(p, Shallow(p)).run(fi)
        s, z = T("param", ("root", q), spec[0]), T("param", ("root", q), size[0])
        none = NONE
        bad = None
        for _, st in rets:
            isnone = lambda x: any(c.k == "cmp" and c.a[0] in ("is", "==") and set(c.a[1:3]) == {x, none} and t for c, t, ts in conds(st)) or any(c == x and not t for c, t, ts in conds(st))
            if isnone(s) or isnone(z):
                continue
            if not any(s in ts and z in ts for c, t, ts in conds(st)):
                bad = st
        rep.check(bad is None, "sizes", q, fi.where, "sizes are compared" if bad is None else f"a cluster description of a different size than {size[0]} is accepted")


# ------------------------------------------------------------------ options

def options(p, rep):
    m = p.modules.get("mplang.cli")
    if m is None:
        rep.notes.append("no command line module")
        return
    read = set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            read.add(n.attr)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
            read.add(n.args[1].value)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant):
            read.add(n.slice.value)
    allargs = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "vars" for n in ast.walk(m.tree))
    for n in ast.walk(m.tree):
        if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_argument" and n.args and all(isinstance(a, ast.Constant) for a in n.args)):
            continue
        dest = next((k.value.value for k in n.keywords if k.arg == "dest" and isinstance(k.value, ast.Constant)), None)
        names = [a.value for a in n.args]
        long = next((x for x in names if x.startswith("--")), names[0])
        act = next((k.value.value for k in n.keywords if k.arg == "action" and isinstance(k.value, ast.Constant)), None)
        if act in ("version", "help"):
            continue
        dest = dest or long.lstrip("-").replace("-", "_")
        rep.check(allargs or dest in read, "options", long, f"mplang/cli.py:{n.lineno}", "read" if dest in read else "the option is declared but nothing reads it")
