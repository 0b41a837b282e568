"""C21: splitting a call into values and constants and back is lossless.

The split and its recombination are decided from one arbitrary iteration of their loops (which list an element goes to
under which outcome of the test, what is recorded of its position, which counter advances), the morph tuple by matching
the roles of the slots written and read, and the pairing of parameters, captures and graph inputs by the order of the
segments each list is built from.
"""
from __future__ import annotations

import ast

from sa.engine import C, EMPTY, FALSE, NONE, TRUE, Client, Engine, T, V, one, show, split, subterms
from rules.common import all_nodes, qualname

FU, TR = "mplang.utils.func_utils", "mplang.edsl.tracer"
RULES = {
    "split": "each leaf goes to exactly one of the two lists, decided by the test, and its position is recorded iff it is a value",
    "rebuilt": "the recombination takes, at every position, the next value if the position is recorded and the next constant otherwise",
    "morph": "every reader of a split description takes structure, positions and constants from the slots the split wrote them to",
    "lifted": "a parameter always becomes a graph input of its own; a captured object becomes one input, found again by its identity and kept with it",
    "traced": "parameters, captures and outputs recorded by a trace are those of the same split, in order, and the lists are complete",
    "aligned": "aligning a region keeps the leading inputs, pairs each capture with its own input in the requested order, and records that order",
    "regions": "an operation with regions passes the values in the order the inputs of each region have",
    "outputs": "the results of an operation are recombined with the description of the outputs of its own region",
    "rebound": "re-binding pairs each argument with its own parameter and refuses other structures and constants",
    "eager": "an eagerly executed operation feeds the captured objects in input order and recombines its results with their own split",
}


def is_call(t, name):
    return isinstance(t, T) and t.k == "call" and callee_name(t) == name


def callee_name(t):
    c = t.a[0]
    if c.k in ("attr", "bound"):
        return str(c.a[1]).rsplit(".", 1)[-1]
    if c.k in ("ext", "func"):
        return str(c.a[0]).rsplit(".", 1)[-1]
    if c.k == "closure":
        return str(c.a[0]).rsplit(".", 1)[-1]
    return ""


def recv_of(t):
    return t.a[0].a[0] if t.a[0].k in ("attr", "bound") else None


def args_of(t):
    return t.a[1]


def kw(t, name, i=None):
    for k, v in t.a[2]:
        if k == name:
            return v
    return t.a[1][i] if i is not None and i < len(t.a[1]) else None


def is_attr(t, name):
    return isinstance(t, T) and t.k == "attr" and t.a[1] == name


def item(t, st=None):
    """(base, constant index) of a subscript."""
    if isinstance(t, T) and t.k == "item" and isinstance(t.a[1], T) and t.a[1].k == "const" and isinstance(t.a[1].a[-1], int):
        return t.a[0], t.a[1].a[-1]
    return None


def plain(t):
    """Without call sites: two evaluations of one expression are the same."""
    if isinstance(t, T):
        if t.k == "call":
            return T("call", plain(t.a[0]), tuple(plain(x) for x in t.a[1]), tuple((k, plain(v)) for k, v in t.a[2]), 0)
        return T(t.k, *[plain(x) for x in t.a])
    if isinstance(t, tuple):
        return tuple(plain(x) for x in t)
    if isinstance(t, frozenset):
        return frozenset(plain(x) for x in t)
    return t


class Flow(Client):
    exact = orders = True
    comp_facts = loop_conds = path_sensitive = True
    assume_nonempty_loops = True
    max_states = 128
    max_depth = 8

    def __init__(self, inline=()):
        self.inline = set(inline)
        self.appended = {}       # list -> values of the loops it is appended to in
        self.loops = {}          # loop statement -> values iterated over
        self.events = []

    def should_inline(self, it, fi, call):
        return fi.qual in self.inline

    def quiet_call(self, it, call):
        return True

    def on_loop(self, it, kind, iterval, st, node, frame):
        self.loops[id(node)] = self.loops.get(id(node), EMPTY) | iterval
        self.events.append(("loop", iterval, st))
        return st

    def on_call(self, it, call):
        if call.name in ("append", "extend", "insert", "reverse", "sort", "pop") and call.recv is not None:
            o = one(call.recv)
            outer = enclosing_loop(call.frame, call.node)
            if o is not None:
                self.appended.setdefault(o, set()).add((call.name, self.loops.get(id(outer), EMPTY) if outer is not None else None))
        self.events.append((call.name, call, call.st))
        return self.called(it, call)

    def called(self, it, call):
        return None


def enclosing_loop(frame, node):
    if frame.func is None:
        return None
    best = None
    for n in ast.walk(frame.func.node):
        if isinstance(n, ast.For) and any(x is node for b in n.body for x in ast.walk(b)):
            if best is None or any(x is n for x in ast.walk(best)):
                best = n
    return best


def order(t, st, flow, depth=0):
    """The segments a list is built from, in order: (kind, term); None where it cannot be told."""
    if depth > 12 or not isinstance(t, T):
        return None
    if t.k == "tup":
        return [("one", x) for x in t.a[0]]
    if t.k == "bin" and t.a[0] == "Add":
        a, b = order(t.a[1], st, flow, depth + 1), order(t.a[2], st, flow, depth + 1)
        return a + b if a is not None and b is not None else None
    if t.k == "call":
        n = callee_name(t)
        if t.a[0].k == "ext" and n in ("list", "tuple", "iter") and len(t.a[1]) == 1:
            return order(t.a[1][0], st, flow, depth + 1)
        if t.a[0].k == "ext" and n == "cast" and len(t.a[1]) == 2:
            return order(t.a[1][1], st, flow, depth + 1)
        if t.a[0].k == "ext" and n == "map" and len(t.a[1]) == 2:
            return order(t.a[1][1], st, flow, depth + 1)
        if t.a[0].k == "ext" and n in ("reversed", "sorted", "set", "frozenset"):
            return [(n, x) for _, x in order(t.a[1][0], st, flow, depth + 1) or [("all", t.a[1][0])]]
        if n == "fromkeys" and t.a[1]:
            s = order(t.a[1][0], st, flow, depth + 1)
            return [("uniq" if k == "all" else k, x) for k, x in s] if s is not None else None
        return [("all", t)]
    if t.k == "item" and isinstance(t.a[1], T) and t.a[1].k == "slice":
        return [("part", t)]
    if t.k == "new" and t.a[0] in ("list", "gen"):
        sl = st.slots(t)
        if "order" in sl:
            od = one(sl["order"])
            out = []
            for x in od.a[0]:
                if x.k == "one":
                    out.append(("one", x.a[0]))
                elif x.k == "all":
                    s = order(x.a[0], st, flow, depth + 1)
                    if s is None:
                        return None
                    out += s
                elif x.k == "unordered":
                    out.append(("set", x.a[0]))
                else:
                    return None
            return out
        if "over" in sl:
            srcs = sl["over"]
            if len(srcs) != 1:
                return None
            s = order(one(srcs), st, flow, depth + 1)
            if s is not None and "filtered" in sl:
                s = [("some" if k == "all" else k, x) for k, x in s]
            return s
        app = flow.appended.get(t)
        if app and {k for k, _ in app} == {"append"}:
            src = EMPTY
            for _, v in app:
                if v is None:
                    return None
                src |= v
            return order(one(src), st, flow, depth + 1) if len(src) == 1 else None
        if app:
            return None
        idx = sorted(k[1] for k in sl if isinstance(k, tuple) and k[0] == "i")
        if "*" not in sl and idx == list(range(len(idx))):
            return [("one", one(sl[("i", i)])) for i in idx]
        return None
    if t.k in ("phi", "star", "rest"):
        return None
    if t.k == "new" and t.a[0] == "set":
        return [("set", x) for x in split(st.slots(t).get("over", EMPTY))] or None
    return [("all", t)]


def reach(v, st):
    seen, todo, objs, out = set(), [v], set(), []
    while todo:
        for x in subterms(todo.pop(), seen):
            out.append(x)
            if x.k == "new" and x not in objs:
                objs.add(x)
                for (o, k), val in st.heap.items():
                    if o is x:
                        todo.append(val)
    return out


# ---------------------------------------------------------------- split and recombination
class Loops(Flow):
    """Follows one arbitrary iteration: counters are unknown at its start and lists are empty."""

    def __init__(self, inline=()):
        super().__init__(inline)
        self.paths = []          # (loop, conditions, {counter: end value}, [(list, method, value)])

    def counters(self, node, frame):
        out = set()
        for b in node.body:
            for n in ast.walk(b):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    out.add(n.target.id)
                elif isinstance(n, ast.Assign):
                    for x in n.targets:
                        if isinstance(x, ast.Name) and any(isinstance(y, ast.Name) and y.id == x.id for y in ast.walk(n.value)):
                            out.add(x.id)
        return out

    def on_iter(self, it, st, node, frame):
        st = st.copy()
        self.start = getattr(self, "start", {})
        for n in self.counters(node, frame):
            k = (frame.fid, n)
            v = st.env.get(k)
            if v is not None:
                if one(v) is not None and one(v).k == "const":
                    self.start.setdefault((id(node), n), one(v).a[-1])
                st.env[k] = V(T("fresh", n))
        st.facts = frozenset(f for f in st.facts if not (isinstance(f, tuple) and f[0] == "put"))
        return st

    def after_call(self, it, call, value, st):
        if call.name in ("append", "extend", "insert", "appendleft") and call.recv is not None:
            n = sum(1 for f in st.facts if isinstance(f, tuple) and f[0] == "put")
            return st.with_fact(("put", n, one(call.recv), call.name, one(call.args[-1]) if call.args else None))
        return st

    def called(self, it, call):
        if call.name == "next" and call.args and one(call.args[0]) is not None:
            return [(V(T("next", one(call.args[0]))), call.st)]
        return None

    def on_iter_end(self, it, st, node, frame, kind):
        ends = {n: one(st.env[(frame.fid, n)]) for n in self.counters(node, frame) if (frame.fid, n) in st.env}
        puts = [f[2:] for f in sorted((f for f in st.facts if isinstance(f, tuple) and f[0] == "put"), key=lambda f: f[1])]
        self.paths.append((node, dict(st.conds), ends, puts, kind))
        return st


def truth_of(conds, pred):
    for t, b in conds.items():
        if t.k == "call" and t.a[0] is pred:
            return b, t.a[1][0] if t.a[1] else None
    return None, None


def split_roles(p, rep, fi):
    """{position in the returned tuple: 'value'|'constant'|'position'} of the splitting function."""
    params = [T("param", ("root", fi.qual), n) for n in fi.params]
    flow = Loops()
    rets, _ = Engine(p, flow).run(fi)
    tups = {one(v) for v, _ in rets}
    if len(tups) != 1 or next(iter(tups)) is None or next(iter(tups)).k != "tup":
        rep.notes.append(f"split: result of {fi.name} not understood")
        return None
    st = rets[0][1]
    outs = next(iter(tups)).a[0]
    origin, pred = params[0], params[1]
    got = {i: set() for i in range(len(outs))}     # {(what, truth)}
    bad, known = [], True
    lists = {o: i for i, o in enumerate(outs)}
    for i, o in enumerate(outs):
        sl = st.slots(o) if o.k == "new" else {}
        if "over" in sl:
            for f in sl.get("facts", EMPTY):
                tr, about = truth_of(dict(f.a[1]), pred)
                got[i].add((what(f.a[0], origin), tr))
    for node, conds, _, puts, kind in flow.paths:
        tr, about = truth_of(conds, pred)
        if tr is None:
            known = False
            continue
        if what(about, origin) != "leaf":
            bad.append(f"the test is applied to {show(about)}")
        n = 0
        for lst, meth, val in puts:
            if lst not in lists or meth != "append":
                known = False
                continue
            w = what(val, origin)
            if w == "other" and not any(x.k in ("elem", "index", "fresh", "next") for x in subterms(val)):
                bad.append(f"{show(val)} is recorded of a leaf")
            got[lists[lst]].add((w, tr))
            n += w == "leaf"
        if kind == "break":
            bad.append("the loop stops before the last leaf")
        if n != 1 and any(lst in lists for lst, _, _ in puts) or not puts:
            if not any(st.slots(o).get("over") for o in outs if o.k == "new"):
                bad.append(f"a leaf for which the test is {tr} is put into {n} lists")
    roles = {}
    for i, g in got.items():
        ws, trs = {w for w, _ in g}, {b for _, b in g}
        if ws == {"leaf"} and len(trs) == 1 and None not in trs:
            roles[i] = "value" if trs == {True} else "constant"
        elif ws == {"index"} and len(trs) == 1 and None not in trs:
            roles[i] = "position" if trs == {True} else "constant position"
        elif ws & {"leaf", "index"} and len(trs) == 2:
            bad.append(f"output {i} gets leaves of both kinds")
        elif "other" in ws:
            known = False
    if not bad and known and sorted(roles.values()) != ["constant", "position", "value"]:
        if set(roles.values()) != {"constant", "position", "value"} and len(roles) == 3:
            bad.append(f"the lists returned hold {sorted(roles.values())}")
    rep.check(not bad, "split", fi.name, fi.where, "; ".join(dict.fromkeys(bad)))
    if not known or len(roles) != 3:
        rep.notes.append(f"split: {fi.name} only partly understood ({roles})")
    return roles


def what(t, origin):
    if t is T("elem", origin):
        return "leaf"
    if t is T("index", origin):
        return "index"
    if isinstance(t, T) and t.k == "elem" and is_call(t.a[0], "range"):
        return "index"
    if isinstance(t, T) and t.k == "item" and t.a[0] is origin and what(t.a[1], origin) == "index":
        return "leaf"
    return "other"


def rebuild_roles(p, rep, fi):
    """{parameter index: role} of the recombining function."""
    params = [T("param", ("root", fi.qual), n) for n in fi.params]
    flow = Loops()
    rets, _ = Engine(p, flow).run(fi)
    res = {one(v) for v, _ in rets}
    bad, taken = [], {}
    paths = [x for x in flow.paths if x[3]]
    if len(res) != 1 or None in res or not paths:
        rep.notes.append(f"rebuilt: {fi.name} not understood")
        rep.ok("rebuilt", fi.name, fi.where, "not decided")
        return None
    out = next(iter(res))
    undecided = False
    for node, conds, ends, puts, kind in flow.paths:
        puts = [x for x in puts if x[0] is out]
        if any(x[1] != "append" for x in puts):
            undecided = True
            continue
        if len(puts) != 1:
            bad.append(f"one position gets {len(puts)} leaves")
            continue
        v = puts[0][2]
        src, pos = None, None
        if isinstance(v, T) and v.k == "item" and v.a[0] in params:
            src, pos = v.a[0], v.a[1]
        elif isinstance(v, T) and v.k == "next":
            src = next((x for x in subterms(v) if x in params), None)
            pos = "next"
        if src is None:
            undecided = True
            continue
        if pos != "next":
            if not (isinstance(pos, T) and pos.k == "fresh"):
                bad.append(f"{show(src)} is read at {show(pos)}")
                continue
            for n, e in ends.items():
                step = 0 if e is T("fresh", n) else 1 if e in (T("bin", "Add", T("fresh", n), C(1)), T("bin", "Add", C(1), T("fresh", n))) else None
                want = 1 if n == pos.a[0] else 0
                if not any(isinstance(x, T) and x.k == "fresh" and x.a[0] == n for q in flow.paths for y in q[3] if isinstance(y[2], T) for x in subterms(y[2])):
                    continue       # a counter no list is read with
                if step is None:
                    bad.append(f"counter {n} does not advance by one")
                elif step != want:
                    bad.append(f"counter {n} {'does not advance' if want else 'advances'} when a leaf is taken from {show(src)}")
            if flow.start.get((id(node), pos.a[0]), 0) != 0:
                bad.append(f"counter {pos.a[0]} starts at {flow.start[(id(node), pos.a[0])]}")
        # is the position recorded on this path?
        rec = recorded(conds, params, src, pos)
        if rec is None:
            undecided = True
            continue
        idxs, truth = rec
        taken.setdefault(src, set()).add((truth, idxs))
    roles = {}
    for src, g in taken.items():
        trs = {b for b, _ in g}
        if len(trs) != 1:
            bad.append(f"leaves of {show(src)} are taken at recorded positions and at others")
            continue
        roles[params.index(src)] = "value" if trs == {True} else "constant"
        for _, i in g:
            roles[params.index(i)] = "position"
    rep.check(not bad, "rebuilt", fi.name, fi.where, "; ".join(dict.fromkeys(bad)))
    if undecided:
        rep.notes.append(f"rebuilt: {fi.name} only partly understood")
    return roles if len(set(roles.values())) == 3 else None


def recorded(conds, params, src, pos):
    """(position list, is the current position recorded) from the path conditions."""
    exhausted = None
    for t, b in conds.items():
        if t.k != "cmp":
            continue
        op, x, y = t.a[:3]
        if op == "==":
            for a, c in ((x, y), (y, x)):
                if a.k == "item" and a.a[0] in params and a.a[1].k == "fresh" and c.k in ("elem", "index", "fresh"):
                    return a.a[0], b
                if a.k == "next" and any(z in params for z in subterms(a)):
                    return next(z for z in subterms(a) if z in params), b
        if op == "in":
            c = next((z for z in subterms(y) if z in params), None)
            if c is not None and x.k in ("elem", "index", "fresh"):
                return c, b
        if op == "<" and x.k == "fresh" and is_call(y, "len") and y.a[1][0] in params and not b:
            exhausted = y.a[1][0]
    if exhausted is not None:
        return exhausted, False
    return None


def morph_rule(p, rep, sroles, broles):
    """Slots of the description: {slot: role}, and the functions that write and read it."""
    vm, vd = p.functions.get(FU + ".var_morph"), p.functions.get(FU + ".var_demorph")
    if vm is None or vd is None:
        rep.broken("var_morph/var_demorph not found")
        return None
    inl = [q for q, f in p.functions.items() if f.module.name == FU and f not in (vm, vd) and f.name not in ("list_split", "list_reconstruct")]
    rets, _ = Engine(p, Flow(inl)).run(vm)
    values, pred = [T("param", ("root", vm.qual), n) for n in vm.params[:2]]
    slots, bad = {}, []
    for v, st in rets:
        t = one(v)
        if t is None or t.k != "tup" or len(t.a[0]) != 2 or t.a[0][1].k != "tup":
            rep.notes.append(f"morph: result of var_morph not understood: {show(t)}")
            return None
        var, desc = t.a[0]
        flats = {plain(x) for x in reach(V(t), st) if is_call(x, "tree_flatten")}
        splits = {plain(x) for x in reach(V(t), st) if is_call(x, "list_split")}
        if len(flats) > 1 or len(splits) > 1:
            bad.append("the description mixes two splits")
        for x in flats:
            if x.a[1][0] is not values:
                bad.append(f"{show(x.a[1][0])} is flattened instead of the values given")
        for x in splits:
            if x.a[1][1] is not pred:
                bad.append("the split does not use the test given")
            if item(x.a[1][0]) != (next(iter(flats)), 0) if len(flats) == 1 else False:
                bad.append("something other than the flattened leaves is split")

        def role(x):
            while isinstance(x, T) and x.k == "call" and x.a[0].k == "ext" and callee_name(x) in ("tuple", "list", "sorted") and len(x.a[1]) == 1 and not x.a[2]:
                if callee_name(x) == "sorted" and role(x.a[1][0]) != "position":
                    return None
                x = x.a[1][0]
            if x.k == "new" and "filtered" not in st.slots(x) and len(st.slots(x).get("over", EMPTY)) == 1:
                src = one(st.slots(x)["over"])
                if st.slots(x).get("*") == V(T("elem", src)):
                    x = src
            b = item(x)
            if b is None:
                return None
            if is_call(b[0], "tree_flatten"):
                return {0: "leaves", 1: "tree"}.get(b[1])
            if is_call(b[0], "list_split"):
                return (sroles or {}).get(b[1])
            return None

        if role(var) not in ("value", None):
            bad.append(f"the values returned are the {role(var)}s of the split")
        for i, x in enumerate(desc.a[0]):
            slots[i] = role(x)
            unordered = next((callee_name(y) for y in subterms(x) if y.k == "call" and y.a[0].k == "ext" and callee_name(y) in ("sorted", "set", "frozenset", "reversed")), None)
            if unordered and slots[i] is None:
                bad.append(f"slot {i} is {show(x)}")
    if sroles and None not in slots.values() and sorted(slots.values()) != ["constant", "position", "tree"]:
        bad.append(f"the description holds {sorted(map(str, slots.values()))}")
    rep.check(not bad, "morph", "var_morph", vm.where, "; ".join(dict.fromkeys(bad)))
    # recombination
    bad = []
    rets, _ = Engine(p, Flow(inl)).run(vd)
    variables, info = [T("param", ("root", vd.qual), n) for n in vd.params[:2]]
    for v, st in rets:
        t = one(v)
        if t is None or not is_call(t, "tree_unflatten") or len(t.a[1]) < 2:
            rep.notes.append(f"morph: result of var_demorph not understood: {show(t)}")
            continue
        b = item(t.a[1][0])
        if b and b[0] is info and slots.get(b[1]) not in ("tree", None):
            bad.append(f"the structure is taken from the slot of the {slots[b[1]]}s")
        rec = next((x for x in subterms(t.a[1][1]) if is_call(x, "list_reconstruct")), None)
        if rec is None or broles is None:
            rep.notes.append("morph: recombination of the leaves not understood")
            continue
        if t.a[1][1] is not rec:
            bad.append(f"the structure is filled with {show(t.a[1][1])}")
        for i, a in enumerate(rec.a[1]):
            want = broles.get(i)
            while isinstance(a, T) and a.k == "call" and a.a[0].k == "ext" and callee_name(a) in ("tuple", "list") and len(a.a[1]) == 1:
                a = a.a[1][0]
            if a is variables:
                if want not in (None, "value"):
                    bad.append(f"the values are passed as the {want}s")
                continue
            b = item(a)
            if b and b[0] is info:
                if want and slots.get(b[1]) and slots[b[1]] != want:
                    bad.append(f"the {slots[b[1]]}s are passed as the {want}s")
            elif any(x.k == "call" and x.a[0].k == "ext" and callee_name(x) in ("sorted", "reversed", "set") for x in subterms(a)):
                bad.append(f"the {want}s are {show(a)}")
    rep.check(not bad, "morph", "var_demorph", vd.where, "; ".join(dict.fromkeys(bad)))
    slots = {r: i for i, r in slots.items() if r}
    return slots


def accessors(p, rep, slots):
    """Named views of a description read the slot of that name."""
    cls = p.classes.get(TR + ".TracedFunction")
    if cls is None or not slots:
        return
    want = {"var_pos": "position", "tree": "tree", "imms": "constant"}
    for name, fi in cls.methods.items():
        side, _, what_ = name.partition("_")
        if not fi.is_property or side not in ("in", "out") or what_ not in want:
            continue
        rets, _ = Engine(p, Flow()).run(fi)
        bad = []
        for v, st in rets:
            b = item(one(v))
            if b is None or b[0].k != "attr":
                continue
            if b[0].a[1] != f"{side}_morph":
                bad.append(f"{name} reads {b[0].a[1]}")
            if slots.get(want[what_], b[1]) != b[1]:
                bad.append(f"{name} reads slot {b[1]}, the {want[what_]}s are in slot {slots.get(want[what_])}")
        rep.check(not bad, "morph", f"TracedFunction.{name}", fi.where, "; ".join(bad))


def normalized(p, rep):
    """A function with its constants bound is called with the recombination of its own arguments."""
    fi = p.functions.get(FU + ".normalize_fn")
    if fi is None:
        return
    rets, _ = Engine(p, Flow()).run(fi)
    fn, args, kwargs, pred = [T("param", ("root", fi.qual), n) for n in fi.params[:4]]
    bad = []
    for v, st in rets:
        t = one(v)
        if t is None or t.k != "tup" or len(t.a[0]) != 2:
            continue
        var = item(t.a[0][1])
        if var and is_call(var[0], "var_morph"):
            vmc = var[0]
            if var[1] != 0:
                bad.append("the variables returned are not those of the split")
            if vmc.a[1][0] is not T("tup", (args, kwargs)):
                bad.append(f"the split is over {show(vmc.a[1][0])}")
            if vmc.a[1][1] is not pred:
                bad.append("the split uses another test than the one given")
        else:
            rep.notes.append("morph: normalize_fn not understood")
            continue
        for child in p.functions.values():
            if child.parent is not fi:
                continue
            flow = Flow()
            st2 = st.copy()
            eng = Engine(p, flow)
            r2, _ = eng.run(child, st=st2)
            raw = T("param", ("root", child.qual), child.params[0])
            for w, _ in r2:
                c = one(w)
                ds = {x for x in subterms(w) if is_call(x, "var_demorph")}
                for d in ds:
                    if d.a[1][0] is not raw:
                        bad.append("the arguments at run time are not what is recombined")
                if c is not None and c.k == "call" and ds:
                    stars = [x.a[0] for x in c.a[1] if x.k == "star"]
                    for x in stars:
                        b = item(x)
                        if b and is_call(b[0], "var_demorph") and b[1] != 0:
                            bad.append("the keyword arguments are passed as positional ones")
                    for k, x in c.a[2]:
                        b = item(x)
                        if b and is_call(b[0], "var_demorph") and b[1] != 1:
                            bad.append("the positional arguments are passed as keyword ones")
    rep.check(not bad, "morph", "normalize_fn", fi.where, "; ".join(dict.fromkeys(bad)))


# ---------------------------------------------------------------- tracer
class Lift(Flow):
    def on_setitem(self, it, obj, idx, val, st, node, frame):
        o = one(obj)
        if o is not None and is_attr(o, "_captured_vars"):
            return st.with_fact(("cap", one(idx), one(val)))
        return st

    def on_getitem(self, it, obj, idx, st, node, frame):
        o = one(obj)
        if o is not None and is_attr(o, "_captured_vars") and one(idx) is not None:
            return [(V(T("item", o, one(idx))), st)]
        return None


def tracer_methods(p):
    cls = p.classes.get(TR + ".Tracer")
    return cls, {n: f.qual for n, f in (cls.methods.items() if cls else [])}


def fresh_input(t, st):
    """The new graph input a value stands for, None if it is not one."""
    for x in reach(V(t), st):
        if x.k == "call" and callee_name(x) in ("add_input", "add_value", "_new_arg"):
            return x
    return None


def lift_rule(p, rep):
    cls, ms = tracer_methods(p)
    fi = cls.methods.get("lift") if cls else None
    if fi is None:
        rep.broken("Tracer.lift not found")
        return None
    flow = Lift([q for n, q in ms.items() if n not in ("lift", "_lift_type", "run", "bind_primitive", "finalize")] + ["mplang.edsl.tracer.TraceObject.__init__"])
    rets, _ = Engine(p, flow).run(fi)
    self_, obj = T("param", ("root", fi.qual), "self"), T("param", ("root", fi.qual), fi.params[1])
    is_param = T("param", ("root", fi.qual), "is_param")
    bad = {"parameter": [], "capture": [], "own": []}
    slot_obj = slot_val = None
    seen = set()
    hits = []
    for v, st in rets:
        t = one(v)
        conds = {c: b for c, b in st.conds.items()}
        obj_is = next((b for c, b in conds.items() if c.k == "isinst" and c.a[0] is obj and any(str(q).endswith(".Object") for q in c.a[1])), None)
        same = next((b for c, b in conds.items() if c.k == "cmp" and c.a[0] == "is" and self_ in c.a[1:3] and any(is_attr(x, "_context") for x in c.a[1:3])), None)
        caps = [f for f in st.facts if isinstance(f, tuple) and f[0] == "cap"]
        where_ = fi.where
        if obj_is is False:
            if t is not obj:
                bad["own"].append("a constant is not returned as it is")
            continue
        if same:
            if t is not obj:
                bad["own"].append("a value of this trace is lifted again")
            continue
        par = conds.get(is_param)
        hit = next(((c, b) for c, b in conds.items() if c.k == "cmp" and c.a[0] == "in" and is_attr(c.a[2], "_captured_vars")), None)
        got = next(((c, b) for c, b in conds.items() if c.k == "cmp" and c.a[0] == "is" and NONE in c.a[1:3] and any(is_attr(x, "_captured_vars") for x in subterms(c))), None)
        if got and not hit:
            hit = (got[0], not got[1])
        if par:
            seen.add("parameter")
            if hit is not None and hit[1]:
                bad["parameter"].append("a parameter re-uses the input of a captured object")
            elif t is obj or fresh_input(t, st) is None:
                bad["parameter"].append(f"a parameter is lifted to {show(t)} without an input of its own")
            if caps:
                bad["parameter"].append("a parameter is recorded as a capture")
            continue
        if par is None and not hit:
            seen.add("parameter")
            if fresh_input(t, st) is None:
                bad["parameter"].append("no input is created")
        if hit and hit[1]:
            seen.add("hit")
            hits.append((t, st))
            if fresh_input(t, st) is not None and not any(is_attr(x, "_captured_vars") for x in reach(V(t), st)):
                bad["capture"].append("a captured object seen before gets another input")
            continue
        seen.add("miss")
        fr = fresh_input(t, st)
        if t is obj or fr is None:
            bad["capture"].append(f"a captured object is lifted to {show(t)} without an input")
            continue
        if not caps:
            bad["capture"].append("a captured object is not recorded")
            continue
        for _, key, val in caps:
            if not identity(key, obj):
                if any(x is obj for x in subterms(key)):
                    bad["capture"].append(f"captured objects are told apart by {show(key)}")
            if hit and hit[0].a[0] == "in" and hit[0].a[1] is not key:
                bad["capture"].append(f"recorded under {show(key)} but looked up by {show(hit[0].a[1])}")
            parts = val.a[0] if val is not None and val.k == "tup" else (val,)
            for i, x in enumerate(parts):
                if x is obj:
                    slot_obj = i
                elif fresh_input(x, st) is fr:
                    slot_val = i
            if slot_obj is None:
                bad["capture"].append("the captured object itself is not kept: another object may take its identity")
    if slot_val is not None:
        for t, st in hits:
            for x in reach(V(t), st):
                b = item(x)
                if b and b[0].k == "item" and is_attr(b[0].a[0], "_captured_vars") and b[1] != slot_val:
                    bad["capture"].append(f"an object seen before is lifted to slot {b[1]} of its record")
    if "parameter" not in seen and is_param.a[-1] in fi.allparams:
        bad["parameter"].append("parameters are lifted like captures")
    for k, v in bad.items():
        rep.check(not v, "lifted", k, fi.where, "; ".join(dict.fromkeys(v)))
    # the type and the place of a new input
    na = cls.methods.get("_new_arg")
    if na is not None:
        rets, _ = Engine(p, Flow(["mplang.edsl.tracer.TraceObject.__init__"])).run(na)
        b = []
        names = []
        tp = T("param", ("root", na.qual), na.params[1])
        for v, st in rets:
            x = fresh_input(one(v), st)
            if x is None:
                b.append("no input is created")
                continue
            if not any(y is tp for a in [*x.a[1], *[w for _, w in x.a[2]]] for y in subterms(a)):
                b.append("the input does not get the type given")
            if recv_of(x) is not None and not is_attr(recv_of(x), "graph"):
                b.append(f"the input is added to {show(recv_of(x))}")
        rep.check(not b, "lifted", "_new_arg", na.where, "; ".join(dict.fromkeys(b)))
    return slot_obj


def identity(key, obj):
    if key is obj:
        return True
    return is_call(key, "id") and key.a[1] and key.a[1][0] is obj or isinstance(key, T) and key.k == "tup" and any(identity(x, obj) for x in key.a[0])


def run_rule(p, rep, slot_obj):
    cls, ms = tracer_methods(p)
    fi = cls.methods.get("run") if cls else None
    if fi is None:
        rep.broken("Tracer.run not found")
        return
    flow = Flow()
    rets, _ = Engine(p, flow).run(fi)
    P = {n: T("param", ("root", fi.qual), n) for n in fi.allparams}
    self_ = P["self"]
    fn = P[fi.params[1]]
    both = T("tup", (P["args"], P["kwargs"]))
    bad = {k: [] for k in ("parameters", "outputs", "captures", "call", "reset")}
    done = False

    def lifts(t):
        """how a mapped function lifts an object: parameter, capture or None"""
        if t.k == "bound" or is_attr(t, "lift"):
            return "capture" if (t.a[1].endswith(".lift") or t.a[1] == "lift") else None
        if t.k in ("closure", "func"):
            f = p.functions.get(t.a[0])
            if f is None:
                return None
            r2, _ = Engine(p, Flow()).run(f)
            kinds = set()
            for w, s2 in r2:
                for x in subterms(w):
                    if x.k == "call" and callee_name(x) == "lift":
                        k = kw(x, "is_param")
                        kinds.add("parameter" if k is TRUE else "capture" if k in (None, FALSE) else "?")
            return next(iter(kinds)) if len(kinds) == 1 else None
        if t.k == "partial":
            return None
        return None

    for v, st in rets:
        t = one(v)
        if t is None or t.k != "new":
            continue
        f = {k[1]: one(x) for k, x in st.slots(t).items() if isinstance(k, tuple) and k[0] == "a"}
        if not {"params", "captured", "in_morph", "out_morph"} <= set(f):
            rep.notes.append("traced: the traced function is not built by keyword")
            continue
        done = True
        im, om, pm = item(f["in_morph"]), item(f["out_morph"]), item(f["params"])
        if not (im and is_call(im[0], "var_morph")):
            rep.notes.append("traced: the input split is not understood")
        else:
            if im[1] != 1:
                bad["parameters"].append("in_morph is not the description of the split")
            if im[0].a[1][0] is not both:
                bad["parameters"].append(f"in_morph describes {show(im[0].a[1][0])} instead of the arguments")
            if order(f["params"], st, flow) is None or pm is None or plain(pm[0]) is not plain(im[0]) or pm[1] != 0:
                seg = order(f["params"], st, flow)
                if pm is not None or seg and any(k in ("reversed", "sorted", "set", "part", "some") for k, _ in seg):
                    bad["parameters"].append(f"the recorded parameters are {show(f['params'])}")
        vm2 = None
        if not (om and is_call(om[0], "var_morph")):
            rep.notes.append("traced: the output split is not understood")
        else:
            vm2 = om[0]
            if om[1] != 1:
                bad["outputs"].append("out_morph is not the description of the split")
            if im and plain(vm2) is plain(im[0]):
                bad["outputs"].append("out_morph describes the arguments")
        # what the outputs of the graph are
        fins = [c for n, c, _ in flow.events if n == "finalize"]
        for c in fins:
            b = item(one(c.args[0])) if c.args else None
            if vm2 is not None and b and is_call(b[0], "var_morph"):
                if plain(b[0]) is not plain(vm2) or b[1] != 0:
                    bad["outputs"].append("the outputs of the graph are not those the description was made for")
        if not fins:
            bad["outputs"].append("the outputs of the graph are never set")
        if vm2 is not None:
            src = vm2.a[1][0]
            maps = [x for x in subterms(src) if is_call(x, "tree_map")]
            outer = next((x for x in maps if x is src), None)
            if outer is None:
                if any(x.k == "call" and x.a[0] is fn for x in subterms(src)):
                    bad["outputs"].append("objects returned by the function are not lifted")
            else:
                if lifts(outer.a[1][0]) == "parameter":
                    bad["outputs"].append("returned objects become parameters")
            call = next((x for x in subterms(src) if x.k == "call" and x.a[0] is fn), None)
            if call is not None:
                for x, want, name in [(y.a[0], 0, "positional") for y in call.a[1] if y.k == "star"] + [(y, 1, "keyword") for k, y in call.a[2]]:
                    b = item(x)
                    if b and is_call(b[0], "tree_map"):
                        if b[0].a[1][1] is not both:
                            bad["call"].append(f"the function is called with values made from {show(b[0].a[1][1])}")
                        if b[1] != want:
                            bad["call"].append(f"{name} arguments come from component {b[1]}")
                        k = lifts(b[0].a[1][0])
                        if k == "capture":
                            bad["call"].append("parameters are lifted like captures: the same object passed twice gets one input")
                    elif x in (P["args"], P["kwargs"]):
                        bad["call"].append("the function is called with the arguments themselves")
                    elif not b:
                        rep.notes.append("traced: arguments of the traced function not understood")
        # captures
        seg = order(f["captured"], st, flow)
        if seg is None:
            rep.notes.append("traced: order of captured objects not understood")
        else:
            for k, x in seg:
                if not any(is_attr(y, "_captured_vars") for y in reach(V(x), st)):
                    bad["captures"].append(f"the captured objects recorded are {show(x)}")
                elif k != "all":
                    bad["captures"].append(f"the captured objects are {k}: they do not follow the order of the inputs")
            if not seg:
                bad["captures"].append("no captured object is recorded")
        els = [x for k, x in ((k, x) for k, x in st.slots(f["captured"]).items()) if k == "*"] if f["captured"].k == "new" else []
        for val in els:
            for x in split(val):
                b = item(x)
                if b and slot_obj is not None and b[0].k in ("elem", "dval") and b[1] != slot_obj:
                    bad["captures"].append(f"slot {b[1]} of the record is taken as the object")
        gr = f.get("graph")
    # the captures are listed after the last object was lifted
    order_ = [(n, i) for i, (n, x, s) in enumerate(flow.events)]
    last_map = max((i for n, i in order_ if n == "tree_map"), default=-1)
    caps = [i for i, (n, x, s) in enumerate(flow.events) if n == "loop" and any(is_attr(y, "_captured_vars") for y in subterms(x))]
    if caps and max(caps) < last_map:
        bad["captures"].append("the captured objects are listed before the results are lifted")
    resets = [i for n, i in order_ if n == "reset"]
    rs = cls.methods.get("reset")
    if rs is not None:
        if not resets:
            if not any(n == "Graph" for n, _ in order_):
                bad["reset"].append("a tracer is used again without being reset")
        elif min(resets) > min((i for n, i in order_ if n == "tree_map"), default=1 << 30):
            bad["reset"].append("the tracer is reset after arguments were lifted")
        r2, _ = Engine(p, Flow()).run(rs)
        for v, st in r2:
            s = {k[1]: one(x) for (o, k), x in st.heap.items() if o.k == "param" and isinstance(k, tuple) and k[0] == "a"}
            for a in ("graph", "_captured_vars"):
                if a not in s:
                    bad["reset"].append(f"reset keeps {a} of the previous trace")
                elif s[a] is not None and s[a].k == "param":
                    bad["reset"].append(f"reset keeps {a} of the previous trace")
    # the test that splits is the one that lifts
    if not done:
        rep.notes.append("traced: result of Tracer.run not understood")
    for k, v in bad.items():
        rep.check(not v, "traced", k, fi.where, "; ".join(dict.fromkeys(v)))


class Align(Flow):
    def on_getitem(self, it, obj, idx, st, node, frame):
        o = one(obj)
        if o is not None and o.k == "new" and o.a[0] == "dict" and one(idx) is not None:
            return [(V(T("item", o, one(idx))), st)]
        return None


def align_rule(p, rep):
    cls = p.classes.get(TR + ".TracedFunction")
    fi = cls.methods.get("align_region_inputs") if cls else None
    if fi is None:
        rep.notes.append("aligned: align_region_inputs not found")
        return
    flow = Align([])
    rets, _ = Engine(p, flow).run(fi)
    self_, lead, want = [T("param", ("root", fi.qual), n) for n in fi.params[:3]]
    graph = T("attr", self_, "graph")
    inputs = T("attr", graph, "inputs")
    captured = T("attr", self_, "captured")
    bad = {"inputs": [], "pairing": [], "recorded": []}
    front = T("item", inputs, T("slice", NONE, lead, NONE))
    back = T("item", inputs, T("slice", lead, NONE, NONE))

    def source(t):
        """what a slice or copy is taken of"""
        return plain(t)

    n = 0
    for v, st in rets:
        new = one(st.heap.get((graph, ("a", "inputs")), EMPTY))
        if new is None or new is inputs:
            bad["inputs"].append("the inputs of the region are left as they are")
            continue
        seg = order(new, st, flow)
        if seg is None:
            rep.notes.append("aligned: order of the new inputs not understood")
        elif len(seg) == 0:
            continue
        else:
            n += 1
            if seg[0] != ("part", front):
                bad["inputs"].append(f"the inputs start with {show(seg[0][1])} instead of the leading inputs")
            rest = seg[1:]
            if [(k, x) for k, x in rest] != [("all", want)] and seg[0] == ("part", front):
                bad["inputs"].append(f"the captures follow {', '.join(k + ' ' + show(x) for k, x in rest)} instead of the order requested")
        # each capture with its own input
        for lst in [x for x in reach(V(new), st) if x.k == "new" and x.a[0] == "list"]:
            for val in [w for k, w in st.slots(lst).items() if k == "*"]:
                for x in split(val):
                    if x is NONE:
                        continue
                    if x.k == "item" and x.a[0].k == "new":
                        if x.a[1] is not T("elem", want) and not identity(x.a[1], T("elem", want)):
                            bad["pairing"].append(f"a capture gets the input of {show(x.a[1])}")
                        for z in split(st.heap.get((x.a[0], "**"), EMPTY)) if (x.a[0], "**") in st.heap else []:
                            if is_call(z, "zip") and len(z.a[1]) == 2:
                                a, b = z.a[1]
                                if a is not captured and a is not NONE:
                                    if a in (back, front, inputs) and b is captured:
                                        bad["pairing"].append("inputs are looked up as captures")
                                    elif any(y is captured for y in subterms(a)):
                                        bad["pairing"].append(f"the captures are paired as {show(a)}")
                                if b is not back and any(y is inputs for y in subterms(b)):
                                    bad["pairing"].append(f"the captures are paired with {show(b)}")
                    elif x.k == "call" and callee_name(x) in ("add_input", "add_value"):
                        if not any(y is T("attr", T("elem", want), "type") for y in subterms(x)):
                            bad["pairing"].append("a new input does not get the type of its capture")
        rec = one(st.heap.get((self_, ("a", "captured")), EMPTY))
        if rec is None:
            if (self_, ("a", "captured")) not in st.heap:
                bad["recorded"].append("the new order of the captures is not recorded")
        else:
            seg = order(rec, st, flow)
            if seg is not None and seg != [("all", want)]:
                bad["recorded"].append(f"the captures are recorded as {show(rec)}")
    for k, v in bad.items():
        rep.check(not v, "aligned", k, fi.where, "; ".join(dict.fromkeys(v)))


# ---------------------------------------------------------------- operations with regions
class Region(Flow):
    def __init__(self, inline=()):
        super().__init__(inline)
        self.ops = []            # (call, region values, inputs, state)

    def called(self, it, call):
        if call.name == "align_region_inputs" and call.recv is not None and len(call.args) + len(call.kwargs) >= 2:
            st = call.st.with_fact(("align", one(call.recv), one(call.arg(0, "leading_count")), one(call.arg(1, "capture_order"))))
            return [(V(NONE), st)]
        if call.name == "add_op" and call.kwargs.get("regions") is not None:
            self.ops.append((call, call.st))
        return None


def is_trace(t):
    return isinstance(t, T) and t.k == "call" and callee_name(t) in ("trace", "run")


def region_functions(p):
    seen = {}
    for n, m, f in all_nodes(p, ast.Call):
        if isinstance(n.func, ast.Attribute) and n.func.attr == "add_op" and f is not None:
            k = next((x.value for x in n.keywords if x.arg == "regions"), None)
            if k is not None and not (isinstance(k, (ast.List, ast.Tuple)) and not k.elts):
                fi = f if hasattr(f, "qual") else p.functions.get(qualname(m, f))
                if fi is not None and m.name.startswith("mplang.dialects"):
                    seen[fi.qual] = fi
    return list(seen.values())


MARKS = {"align_region_inputs", "lift", "trace", "reconstruct_outputs", "run", "add_op", "_graph_value"}


def helpers(p, fi):
    """Functions of the same module that take part in building the operation."""
    out = []
    for q, f in p.functions.items():
        if f.module is fi.module and f is not fi and f.parent is None:
            names = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)} | {n.func.id for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}
            if names & MARKS and not f.decorators:
                out.append(q)
    return out


def regions_rule(p, rep):
    todo = region_functions(p)
    if not todo:
        rep.broken("no operation with regions found")
        return
    for fi in todo:
        flow = Region(helpers(p, fi))
        rets, _ = Engine(p, flow).run(fi)
        rep.saw(fi.qual)
        bad, out = [], []
        name = fi.name
        for call, st in flow.ops:
            rs = order(one(call.kwargs["regions"]), st, flow)
            regs = [x.a[0] for k, x in rs or [] if is_attr(x, "graph") and is_trace(x.a[0])]
            if not regs or len(regs) != len(rs or []):
                rep.notes.append(f"regions: regions of {name} not understood")
                continue
            ins = one(call.arg(1, "inputs"))
            seg = order(ins, st, flow) if ins is not None else None
            if seg is None:
                rep.notes.append(f"regions: order of the inputs of {name} not understood")
                continue
            one_region(rep, name, regs, seg, st, bad)
            for f in st.facts:
                if isinstance(f, tuple) and f[0] == "align" and f[3] is not None:
                    merges(p, f[3], st, bad)
            types = one(call.arg(2, "output_types"))
            if types is not None:
                outs = {x.a[0].a[0] for x in reach(V(types), st) if is_attr(x, "outputs") and is_attr(x.a[0], "graph") and is_trace(x.a[0].a[0])}
                if outs and not any(o in regs for o in outs):
                    bad.append("the result types are those of a function that is no region of the operation")
                tseg = order(types, st, flow)
                if tseg and any(k in ("reversed", "sorted", "set", "some") for k, _ in tseg):
                    bad.append("the result types do not follow the outputs of the region")
        for v, st in rets:
            for x in subterms(v):
                if is_call(x, "reconstruct_outputs") and len(x.a[1]) >= 2:
                    m, res = x.a[1][:2]
                    ops = [y for y in subterms(res) if y.k == "call" and callee_name(y) == "add_op"]
                    for y in ops:
                        rs = order(kw(y, "regions"), st, flow) if kw(y, "regions") is not None else None
                        regs = [z.a[0] for k, z in rs or [] if is_attr(z, "graph")]
                        if is_attr(m, "out_morph"):
                            if regs and m.a[0] not in regs:
                                out.append("the results are recombined as those of a function that is no region of the operation")
                        elif m.k == "attr":
                            out.append(f"the results are recombined with {m.a[1]}")
                    rseg = order(res, st, flow)
                    if rseg and any(k in ("reversed", "sorted", "set", "part", "some") for k, _ in rseg):
                        out.append(f"the results are {rseg[0][0]}")
        rep.check(not bad, "regions", name, fi.where, "; ".join(dict.fromkeys(bad)))
        rep.check(not out, "outputs", name, fi.where, "; ".join(dict.fromkeys(out)))


def merges(p, t, st, bad):
    """Objects of several lists are told apart by identity where the lists are merged."""
    def keyed(terms, s):
        for o in terms:
            if o.k == "new" and o.a[0] == "dict":
                for key in split(s.heap.get((o, "keys"), EMPTY)):
                    for val in split(s.heap.get((o, "*"), EMPTY)):
                        if not identity(key, val) and any(y is val for y in subterms(key)):
                            bad.append(f"captured objects are merged by {show(key)}")

    have = reach(V(t), st)
    keyed(have, st)
    for x in have:
        f = p.functions.get(x.a[0].a[0]) if x.k == "call" and x.a[0].k == "func" else None
        if f is None or f.module.name.startswith("mplang.edsl"):
            continue
        rets, _ = Engine(p, Flow()).run(f)
        for v, s in rets:
            keyed(reach(v, s), s)


def one_region(rep, name, regs, seg, st, bad):
    aligns = {}
    for f in st.facts:
        if isinstance(f, tuple) and f[0] == "align":
            aligns[f[1]] = (f[2], f[3])
    if not seg and not aligns:
        return            # a function definition binds no inputs
    wrong = [k for k, _ in seg if k in ("reversed", "sorted", "set", "frozenset", "part")]
    if wrong:
        bad.append(f"the values passed are {wrong[0]} and do not follow the inputs of the region")
        return
    if any(k == "uniq" and is_attr(x, "params") for k, x in seg):
        bad.append("an object passed twice is passed on once")
        return
    body = [(k, x) for k, x in seg if k in ("all", "some", "uniq")]
    pos = {}
    for i, (k, x) in enumerate(seg):
        if is_attr(x, "params"):
            pos.setdefault("params", (i, x.a[0]))
        elif is_attr(x, "captured"):
            pos.setdefault("captured", (i, x.a[0]))
        elif is_call(x, "tree_flatten") or item(x) and is_call(item(x)[0], "tree_flatten"):
            pos.setdefault("params", (i, None))
    if len(regs) > 1:
        # the regions share the values passed
        if not aligns:
            bad.append("regions sharing their inputs are not aligned")
            return
        missing = [r for r in regs if r not in aligns]
        if missing:
            bad.append(f"{show(missing[0])} is not aligned with the other regions")
            return
        counts = {plain(aligns[r][0]) for r in regs}
        orders = {plain(aligns[r][1]) for r in regs}
        if len(orders) != 1:
            bad.append("the regions are aligned with different orders of captures")
        if len(counts) != 1:
            bad.append("the regions are aligned with different numbers of leading inputs")
        od = aligns[regs[0]][1]
        calls = {plain(T("tup", (tuple(r.a[1][1:]), r.a[2]))) for r in regs}
        if len(calls) != 1:
            bad.append("the regions are traced with different arguments")
        have = reach(V(od), st)
        for r in regs:
            if not any(is_attr(x, "captured") and x.a[0] is r for x in have):
                bad.append(f"the captures of {show(r.a[1][0])} are left out of the shared order")
        count = aligns[regs[0]][0]
        base = next((x for x in subterms(count) if is_trace(x)), None)
        tail = body[-1] if body else None
        if tail is None or plain(tail[1]) is not plain(od) and not (order_same(tail[1], od)):
            if any(plain(x) is plain(od) for _, x in body):
                bad.append("values follow the captures")
            elif pos.get("params") and body and tail[1] is seg[pos["params"][0]][1]:
                bad.append("the captured values are not passed")
            else:
                rep.notes.append(f"regions: captures passed by {name} not understood")
        else:
            if seg[-1][1] is not tail[1]:
                bad.append("values follow the captures")
            if tail[0] == "some":
                bad.append("some captures are left out")
        if "params" not in pos:
            rep.notes.append(f"regions: parameters passed by {name} not understood")
        lead = [x for x in subterms(count)]
        return
    r = regs[0]
    raw = next((x for k, x in seg if k != "one" and (x.k == "dvalues" and x.a[0].k == "param")), None)
    if raw is not None:
        bad.append(f"{show(raw)} are passed in the order of the call and unflattened, the inputs of the region follow the flattened arguments")
        return
    if "params" in pos and "captured" in pos:
        if pos["params"][0] > pos["captured"][0]:
            bad.append("captured values are passed before the parameters")
        for k in ("params", "captured"):
            if pos[k][1] is not None and pos[k][1] is not r:
                bad.append(f"the {k} passed are those of another function")
    elif "params" in pos:
        none = next((b for c, b in st.conds.items() if is_attr(c, "captured") and c.a[0] is r or is_call(c, "len") and is_attr(c.a[1][0], "captured")), None)
        if none is not False:
            bad.append("captured values are neither passed nor refused")
        if pos["params"][1] is None and r is not None:
            src = next((item(x)[0] if item(x) else x for _, x in seg if is_call(x, "tree_flatten") or item(x) and is_call(item(x)[0], "tree_flatten")), None)
            given = T("tup", tuple(x.a[0] if x.k == "star" else x for x in r.a[1][1:]) + tuple(v for _, v in r.a[2]))
            if src is not None and plain(src.a[1][0]) is not plain(given):
                bad.append(f"the values passed are those of {show(src.a[1][0])}, the region was traced with {show(given)}")
    elif "captured" in pos:
        bad.append("the parameters are not passed")
    else:
        rep.notes.append(f"regions: values passed by {name} not understood")
    if "params" in pos and seg[0][0] == "one" and len(regs) == 1:
        bad.append(f"{show(seg[0][1])} is passed before the parameters")


def order_same(a, b):
    strip = lambda x: strip(x.a[1][0]) if isinstance(x, T) and x.k == "call" and x.a[0].k == "ext" and callee_name(x) in ("list", "tuple") and len(x.a[1]) == 1 else x
    return plain(strip(a)) is plain(strip(b))


def whole_outputs(p, rep, slots):
    """Descriptions built by hand: every result is a value, in order."""
    for n, m, f in all_nodes(p, ast.Call):
        if not (isinstance(n.func, ast.Attribute) and n.func.attr == "reconstruct_outputs" and f is not None and m.name.startswith("mplang.dialects")):
            continue
        fi = f if hasattr(f, "qual") else p.functions.get(qualname(m, f))
        if fi is None or fi in region_functions(p):
            continue
        flow = Region(())
        rets, _ = Engine(p, flow).run(fi)
        bad = []
        for v, st in rets:
            for x in subterms(v):
                if not is_call(x, "reconstruct_outputs") or len(x.a[1]) < 2 or x.a[1][0].k != "tup":
                    continue
                parts, res = x.a[1][0].a[0], x.a[1][1]
                if len(parts) != 3:
                    bad.append("not a description of a split")
                    continue
                for role, i in slots.items():
                    y = parts[i]
                    if role == "constant":
                        sg = order(y, st, flow)
                        if sg:
                            bad.append(f"constants {show(y)} in a description of results only")
                    if role == "position":
                        while is_call(y, "tuple") or is_call(y, "list"):
                            y = y.a[1][0]
                        if is_call(y, "range"):
                            if len(y.a[1]) != 1:
                                bad.append(f"positions {show(y)}")
                            elif is_call(y.a[1][0], "len") and plain(y.a[1][0].a[1][0]) is not plain(res):
                                bad.append(f"as many positions as {show(y.a[1][0].a[1][0])} has elements")
                    if role == "tree" and (y.k == "call" and callee_name(y) in ("tuple", "range")):
                        bad.append("no structure in the slot of the structure")
        rep.check(not bad, "outputs", fi.name, fi.where, "; ".join(dict.fromkeys(bad)))


# ---------------------------------------------------------------- execution
def rebind_rule(p, rep, slots):
    cls = p.classes.get(TR + ".TracedFunction")
    fi = cls.methods.get("prepare_inputs") if cls else None
    if fi is None:
        rep.broken("TracedFunction.prepare_inputs not found")
        return
    inl = [f.qual for n, f in cls.methods.items() if f.is_property or n.startswith("_")]
    flow = Flow(inl)
    rets, _ = Engine(p, flow).run(fi)
    self_ = T("param", ("root", fi.qual), "self")
    both = T("tup", (T("param", ("root", fi.qual), "args"), T("param", ("root", fi.qual), "kwargs")))
    morph = T("attr", self_, "in_morph")
    sl = slots or {}
    bad = {"order": [], "structure": [], "constants": []}
    looked = [v for n, v, _ in flow.events if n == "loop"]
    n = 0
    for v, st in rets:
        t = one(v)
        seg = order(t, st, flow) if t is not None else None
        n += 1
        flat = next((x for x in reach(V(t), st) if is_call(x, "tree_flatten")), None)
        if flat is not None and plain(flat.a[1][0]) is not plain(both):
            bad["order"].append(f"{show(flat.a[1][0])} is flattened instead of the arguments")
        if seg is None:
            rep.notes.append("rebound: order of the inputs not understood")
        else:
            last = seg[-1] if seg else None
            if last != ("all", T("attr", self_, "captured")):
                if any(is_attr(x, "captured") for _, x in seg):
                    bad["order"].append("the captured values do not come last, in their order")
                else:
                    bad["order"].append("the captured values are not passed")
            head = seg[:-1]
            for k, x in head:
                b = item(x)
                if x.k == "dvalues" and x.a[0].k == "param":
                    bad["order"].append("keyword arguments are passed in the order of the call")
                    continue
                if k not in ("all", "one") or is_attr(x, "captured"):
                    if k != "some" or (b and b[0] is morph):
                        bad["order"].append(f"the parameters are {k} {show(x)}")
                elif b and b[0] is morph and b[1] != sl.get("position", b[1]):
                    bad["order"].append(f"the parameters are picked by slot {b[1]} of the description")
            for lst in [x for x in reach(V(t), st) if x.k == "new" and x.a[0] in ("list", "gen")]:
                for x in split(st.heap.get((lst, "*"), EMPTY)):
                    if x.k == "item" and isinstance(x.a[1], T) and x.a[1].k == "elem" and flat is not None:
                        b = item(x.a[0])
                        if b and is_call(b[0], "tree_flatten") and b[1] != 0:
                            bad["order"].append("not the leaves are picked")
                        e = item(x.a[1].a[0])
                        if e and e[0].k == "attr" and e[0].a[1] != "in_morph":
                            bad["order"].append(f"the parameters are picked by {e[0].a[1]}")
        conds = st.conds
        def tree(x):
            b = item(x)
            return b and is_call(b[0], "tree_flatten") and b[1] == 1
        def traced(x):
            b = item(x)
            return b and b[0] is morph and b[1] == sl.get("tree", 0)
        if not any(c.k == "cmp" and c.a[0] in ("==", "is") and b and (tree(c.a[1]) and traced(c.a[2]) or tree(c.a[2]) and traced(c.a[1])) for c, b in conds.items()):
            if not any(c.k == "call" and any(traced(x) for x in subterms(c)) and any(tree(x) for x in subterms(c)) for c in conds):
                bad["structure"].append("arguments of another structure are accepted")
    if not any(item(x) and item(x)[0] is morph and item(x)[1] == sl.get("constant", 2) for val in looked for x in subterms(val)) and not any(
            item(x) and item(x)[0] is morph and item(x)[1] == sl.get("constant", 2) for v, st in rets for c in st.conds for x in subterms(c)):
        bad["constants"].append("constants other than the traced ones are accepted")
    else:
        # a path that returns without the comparison having succeeded
        for v, st in rets:
            for c, b in st.conds.items():
                if is_call(c, "array_equal") and not b:
                    bad["constants"].append("a constant other than the traced one is accepted")
    for k, v in bad.items():
        rep.check(not v, "rebound", f"prepare_inputs {k}", fi.where, "; ".join(dict.fromkeys(v)))
    ro = cls.methods.get("reconstruct_outputs")
    if ro is not None:
        b2 = []
        rets, _ = Engine(p, Flow()).run(ro)
        for v, st in rets:
            for x in subterms(v):
                if is_call(x, "var_demorph"):
                    if x.a[1][0] is not T("param", ("root", ro.qual), ro.params[1]):
                        b2.append(f"{show(x.a[1][0])} is recombined")
                    if not is_attr(x.a[1][1], "out_morph"):
                        b2.append(f"the results are recombined with {show(x.a[1][1])}")
        rep.check(not b2, "rebound", "reconstruct_outputs", ro.where, "; ".join(b2))
    tro = (p.classes.get(TR + ".Tracer").methods if p.classes.get(TR + ".Tracer") else {}).get("reconstruct_outputs")
    if tro is not None:
        b2 = []
        flow = Flow()
        rets, _ = Engine(p, flow).run(tro)
        _, m, vals = [T("param", ("root", tro.qual), n) for n in tro.params[:3]]
        for v, st in rets:
            for x in subterms(v):
                if is_call(x, "var_demorph"):
                    seg = order(x.a[1][0], st, flow)
                    if seg is not None and seg != [("all", vals)]:
                        b2.append(f"the results are {', '.join(k + ' ' + show(y) for k, y in seg)}")
                    if x.a[1][1] is not m:
                        b2.append("the results are recombined with another description")
        rep.check(not b2, "outputs", "Tracer.reconstruct_outputs", tro.where, "; ".join(b2))
    ev = p.functions.get("mplang.evaluate")
    if ev is not None:
        flow = Flow([f.qual for f in p.functions.values() if f.parent is ev])
        rets, _ = Engine(p, flow).run(ev)
        b2 = []
        for v, st in rets:
            for x in subterms(v):
                if not (x.k == "call" and callee_name(x) == "reconstruct_outputs"):
                    continue
                f = recv_of(x)
                for y in reach(V(x), st):
                    if is_call(y, "evaluate_graph"):
                        g = y.a[1][0]
                        if is_attr(g, "graph") and g.a[0] is not f:
                            b2.append("the results of another function are recombined")
                        seg = order(y.a[1][1], st, flow) if len(y.a[1]) > 1 else None
                        if seg is not None:
                            for k, z in seg:
                                if k != "all":
                                    b2.append(f"the inputs are {k} {show(z)}")
                                elif is_call(z, "prepare_inputs") and recv_of(z) is not f:
                                    b2.append("the inputs are those of another function")
                                elif not is_call(z, "prepare_inputs") and (z.k == "param" or is_attr(z, "params") or is_attr(z, "captured")):
                                    b2.append(f"the function is given {show(z)} without checking or ordering them")
                seg = order(x.a[1][0], st, flow)
                if seg and any(k in ("reversed", "sorted", "set", "part", "some") for k, _ in seg):
                    b2.append("the results are not in order")
        rep.check(not b2, "rebound", "evaluate", ev.where, "; ".join(dict.fromkeys(b2)))


def eager_rule(p, rep, slot_obj):
    cls = p.classes.get("mplang.runtime.interpreter.Interpreter")
    if cls is None:
        rep.broken("Interpreter not found")
        return
    for name in ("bind_primitive", "lift"):
        fi = cls.methods.get(name)
        if fi is None:
            rep.notes.append(f"eager: Interpreter.{name} not found")
            continue
        flow = Flow()
        rets, _ = Engine(p, flow).run(fi)
        bad = []
        demorphs = set()
        for v, st in rets:
            for x in subterms(v):
                if is_call(x, "var_demorph"):
                    demorphs.add((x, st))
        fin = [(c, st) for n, c, st in flow.events if n == "finalize"]
        for x, st in demorphs:
            d = item(x.a[1][1])
            if d and is_call(d[0], "var_morph"):
                if d[1] != 1:
                    bad.append("the description of the split is not what recombines")
                for c, _ in fin:
                    b = item(one(c.args[0]))
                    if b and (plain(b[0]) is not plain(d[0]) or b[1] != 0):
                        bad.append("the outputs of the graph are not the values of the split")
            seg = order(x.a[1][0], st, flow)
            for k, y in seg or []:
                if k in ("reversed", "sorted", "set", "part", "some"):
                    bad.append(f"the results are {k}")
                elif is_call(y, "zip"):
                    for z in y.a[1]:
                        s2 = order(z, st, flow)
                        if s2 and any(k2 != "all" for k2, _ in s2):
                            bad.append(f"the results are paired with {s2[0][0]} values")
            els = x.a[1][0]
        for n, c, st in flow.events:
            if n != "evaluate_graph" or len(c.args) < 2:
                continue
            t = one(c.args[1])
            seg = order(t, st, flow) if t is not None else None
            if seg is None:
                rep.notes.append(f"eager: inputs in {name} not understood")
                continue
            for k, x in seg:
                if not any(is_attr(y, "_captured_vars") for y in subterms(x)):
                    continue
                if k != "all":
                    bad.append(f"the captured objects are {k}: they do not follow the order of the inputs")
            for lst in [x for x in reach(V(t), st) if x.k == "new" and x.a[0] == "list"]:
                for x in split(st.heap.get((lst, "*"), EMPTY)):
                    for y in subterms(x):
                        b = item(y)
                        if b and slot_obj is not None and b[0].k in ("elem", "dval") and any(is_attr(z, "_captured_vars") for z in subterms(b[0])) and b[1] != slot_obj:
                            bad.append(f"slot {b[1]} of the record of a capture is taken as the object")
        rep.check(not bad, "eager", name, fi.where, "; ".join(dict.fromkeys(bad)))


def run(p, rep, tier):
    for k, text in RULES.items():
        rep.rule(k, text, 0)
    sp, rb = p.functions.get(FU + ".list_split"), p.functions.get(FU + ".list_reconstruct")
    sroles = broles = None
    if sp is None or rb is None:
        rep.notes.append("split: list_split/list_reconstruct not found")
    else:
        rep.saw(sp.qual, rb.qual)
        sroles, broles = split_roles(p, rep, sp), rebuild_roles(p, rep, rb)
    slots = morph_rule(p, rep, sroles, broles)
    accessors(p, rep, slots)
    normalized(p, rep)
    so = lift_rule(p, rep)
    run_rule(p, rep, so)
    align_rule(p, rep)
    regions_rule(p, rep)
    whole_outputs(p, rep, slots or {})
    rebind_rule(p, rep, slots)
    eager_rule(p, rep, so)
    rep.notes.append(f"roles: split {sroles}, rebuild {broles}, slots {slots}")
