"""C06: collectives pair every send with a receive on every participant.

Each communication routine is projected onto named participants (sa/roles.py): for every participant set,
root, argument order and routing over three individuals, the sequences of sends and receives of all
participants are derived from the source and matched with each other. Ranks are only compared with each
other in this code (arithmetic on them makes the abstraction give up), so three individuals stand for any
number of them. Code that calls the routines is checked for communicating under uniform conditions only.
"""
from __future__ import annotations

import ast
import copy
from itertools import permutations, product

from rules.common import all_nodes, where
from sa.project import AnalysisBroken, norm_repo_path
from sa.roles import D, Ext, Fn, Hooks, Obj, Outcome, Raised, Roles, Tok, Undecided, is_local

SENDS = ("send", "send_sync")
CTX = "CommContext"


def run(p, rep, tier):
    rep.rule("pair", "for every participant set, root and routing, what one participant sends to another is what the other receives from it, and nobody waits for a message that is sent only after it", 1)
    rep.rule("result", "gathered values are in participant order, reductions include every participant, broadcasts deliver the root's value, and all participants return the same; no one leaves a barrier before all entered", 1)
    rep.rule("routing", "a routed shuffle gives each target the value of the source that the routing names, and nothing to others", 1)
    rep.rule("uniform", "communication steps are not controlled by values that differ between the participants, and all of them use the same participant set", 1)
    rep.rule("predicate", "the uniform predicate is compared over all participants with two complementary reductions before a region runs, and disagreement is raised by all of them", 1)
    rep.rule("mask", "operations nested in a party call see its parties as the participant set, and only members run it", 1)
    algos = find_algorithms(p)
    if not algos:
        raise AnalysisBroken("no collective algorithm (function of a context and participants that sends or receives) found")
    for fi in algos:
        collective(p, rep, fi)
    routed = find_routed(p)
    for fi in routed:
        shuffle(p, rep, fi)
    if not routed:
        rep.notes.append("no routed operation found")
    callers(p, rep, algos)
    masks(p, rep)


# ------------------------------------------------------------------ discovery
def ctx_params(fi):
    out = []
    a = fi.node.args
    for x in (*a.posonlyargs, *a.args, *a.kwonlyargs):
        ann = ast.unparse(x.annotation) if x.annotation is not None else ""
        if CTX in ann or x.arg in ("ctx", "comm_ctx"):
            out.append(x.arg)
    return out


def communicates(p, fi, memo):
    """The function, or what it calls in its module, sends or receives on a context."""
    if fi.qual in memo:
        return memo[fi.qual]
    memo[fi.qual] = False
    r = False
    for n in ast.walk(fi.node):
        if not isinstance(n, ast.Call):
            continue
        if isinstance(n.func, ast.Attribute) and n.func.attr in (*SENDS, "recv") and isinstance(n.func.value, ast.Name) and (n.func.value.id in ctx_params(fi) or "ctx" in n.func.value.id):
            r = True
        else:
            t = p.resolve_expr(n.func, fi.module, fi)
            if t and t[0] == "func" and t[1].module is fi.module and communicates(p, t[1], memo):
                r = True
        if r:
            break
    memo[fi.qual] = r
    return r


def find_algorithms(p):
    out, memo = [], {}
    for fi in p.functions.values():
        if fi.cls is None and fi.parent is None and fi.module.name.startswith("mplang.backends") and ctx_params(fi) and "participants" in fi.allparams and communicates(p, fi, memo):
            out.append(fi)
    return sorted(out, key=lambda f: f.node.lineno)


def find_routed(p):
    """Operation implementations that use the current context directly."""
    out = []
    for n, m, f in all_nodes(p, ast.Call):
        if f is None or f.cls is not None or not m.name.startswith("mplang.backends"):
            continue
        if isinstance(n.func, ast.Attribute) and n.func.attr in (*SENDS, "recv") and n.args:
            g = f
            while g.parent is not None:
                g = g.parent
            if ctx_params(g) and "participants" in g.allparams:
                continue
            if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "current_comm_ctx" for x in ast.walk(g.node)) and g not in out:
                out.append(g)
    # helpers that take the context: their caller is the operation
    return out


# ------------------------------------------------------------------ projecting
class Comm(Hooks):
    def __init__(self, me, n):
        self.me, self.n = me, n
        self.unordered_iter = False

    def call(self, ev, callee, name, recv, args, kwargs, node):
        if isinstance(recv, Obj) and recv.kind == "ctx":
            if name in SENDS:
                to = args[0] if args else kwargs.get("to")
                val = args[1] if len(args) > 1 else kwargs.get("data")
                if not isinstance(to, Tok):
                    raise Undecided(f"sends to {to!r}")
                k = sum(1 for e in ev.trace if e[0] == "send" and e[1] is to)
                ev.trace.append(("send", to, k, val, node))
                return D("sent")
            if name == "recv":
                frm = args[0] if args else kwargs.get("frm")
                if not isinstance(frm, Tok):
                    raise Undecided(f"receives from {frm!r}")
                k = sum(1 for e in ev.trace if e[0] == "recv" and e[1] is frm)
                ev.trace.append(("recv", frm, k, None, node))
                return D("recv", frm, self.me, k, local=True)
            if name == "spawn":
                return recv
        if name == "get_dialect_state":
            return Obj("worker", rank=self.me, world_size=Obj("world_size", n=self.n), current_parties=None)
        if name == "current_comm_ctx":
            return self.ctx()
        if name in ("debug", "info", "warning", "error") and isinstance(recv, (Obj, D)):
            return None
        if name == "wait" and isinstance(recv, D):
            return None
        return NotImplemented

    def ctx(self):
        return Obj("ctx", rank=self.me, world_size=Obj("world_size", n=self.n))


def simulate(traces):
    """Run the traces against each other; participants that never finish are returned with where they wait."""
    pos = {m: 0 for m in traces}
    sent = set()
    progress = True
    while progress:
        progress = False
        for m, tr in traces.items():
            while pos[m] < len(tr):
                e = tr[pos[m]]
                if e[0] == "send":
                    sent.add((m, e[1], e[2]))
                elif e[0] == "recv" and (e[1], m, e[2]) not in sent:
                    break
                pos[m] += 1
                progress = True
    return {m: traces[m][pos[m]] for m in traces if pos[m] < len(traces[m])}


def pairing(rep, rule, fi, traces, world):
    """One check per world: counts per direction agree and everybody finishes."""
    bad = None
    ms = list(traces)
    for a in ms:
        for e in traces[a]:
            if e[1] not in traces:
                bad = bad or (e[4], f"{world}: {a} {e[0]}s {'to' if e[0] == 'send' else 'from'} {e[1]}, which takes no part")
            elif e[1] is a:
                bad = bad or (e[4], f"{world}: {a} {e[0]}s {'to' if e[0] == 'send' else 'from'} itself")
    for a in ms:
        for b in ms:
            if a is b:
                continue
            s = [e for e in traces[a] if e[0] == "send" and e[1] is b]
            r = [e for e in traces[b] if e[0] == "recv" and e[1] is a]
            if len(s) != len(r):
                x = (s[len(r):] or r[len(s):])[0]
                bad = bad or (x[4], f"{world}: {a} sends {len(s)} message(s) to {b}, which receives {len(r)} from it")
    if bad is None:
        stuck = simulate(traces)
        if stuck:
            m, e = next(iter(stuck.items()))
            bad = (e[4], f"{world}: {m} waits for {e[1]}, which waits for others before sending")
    return bad


def alternatives(rep, fi, outs, me, world):
    """Cases that communicate differently because of local data; returns (the ones to match, complaint)."""
    normal = [o for o in outs if o.kind == "return"]
    base = normal or outs
    shape = {}
    for o in outs:
        shape.setdefault(tuple((e[0], e[1], e[2]) for e in o.trace), []).append(o)
    if len(shape) > 1:
        items = sorted(shape.items(), key=lambda kv: -len(kv[0]))
        long = items[0]
        for tr, os in items[1:]:
            for o in os:
                diff = [x for x in o.log if x[1]]
                # an error before any message, from conditions all share, is everybody's error
                if diff:
                    return base, (diff[-1][2], f"{world}: {me} communicates differently depending on {diff[-1][0][:60]}, which the others do not know")
    return base, None


def subst(v, sends, depth=0):
    """Replace received messages by what was sent."""
    if depth > 40:
        return v
    if isinstance(v, D):
        if v.term[0] == "recv":
            s = sends.get((v.term[1], v.term[2], v.term[3]))
            return subst(s[0], sends, depth + 1) if s is not None else v
        args = [subst(x, sends, depth + 1) for x in v.term[1:]]
        if v.term[0] == "bool" and isinstance(args[0], D) and (args[0].term[0] == "bool" or args[0].term[0] in REDUCERS and all(isinstance(x, D) and x.term[0] in ("bool", *REDUCERS) for x in args[0].term[1:])):
            return args[0]
        return D(v.term[0], *args)
    if isinstance(v, list):
        return [subst(x, sends, depth + 1) for x in v]
    if isinstance(v, tuple):
        return tuple(subst(x, sends, depth + 1) for x in v)
    if isinstance(v, dict):
        return {k: subst(x, sends, depth + 1) for k, x in v.items()}
    return v


REDUCERS = ("operator.and_", "operator.or_", "operator.xor")


def leaves(v):
    if isinstance(v, D):
        if v.term[0] == "value":
            return {v.term[1]}
        return set().union(*[leaves(x) for x in v.term[1:]], set())
    if isinstance(v, (list, tuple)):
        return set().union(*[leaves(x) for x in v], set())
    if isinstance(v, dict):
        return set().union(*[leaves(x) for x in v.values()], set())
    return set()


def operators(v):
    if isinstance(v, D):
        return ({v.term[0]} if v.term[0] in REDUCERS else set()).union(*[operators(x) for x in v.term[1:]], set())
    if isinstance(v, (list, tuple)):
        return set().union(*[operators(x) for x in v], set())
    return set()


def locate(fi, node):
    return f"{norm_repo_path(fi.module.path)}:{getattr(node, 'lineno', fi.node.lineno)}"


def collective(p, rep, fi):
    rep.saw(fi.qual)
    has_root = "root" in fi.allparams
    others = [x for x in fi.allparams if x not in ("participants", "root") and x not in ctx_params(fi)]
    value = next((x for x in others if x in ("value", "data", "obj", "x")), None)
    combine = next((x for x in others if x not in (value,)), None)
    if fi.name.startswith("normalize"):
        return
    n_worlds = 0
    pair_bad = res_bad = None
    try:
        for members in ([0], [0, 1], [0, 2], [1, 2], [0, 1, 2]):
            toks = [Tok(i) for i in members]
            for root in toks if has_root else [None]:
                # every participant may list them in its own order, with repetitions
                for order in range(2):
                    n_worlds += 1
                    world = f"participants {{{', '.join(map(str, toks))}}}" + (f", root {root}" if root is not None else "")
                    rets, traces = {}, {}
                    for j, me in enumerate(toks):
                        h = Comm(me, 3)
                        ev = Roles(p, h)
                        given = list(toks)
                        if order and len(given) > 1:
                            k = j % len(given)
                            given = given[k:] + given[:k] + given[:1]

                        def make(me=me, h=h, given=given, root=root):
                            kw = {"participants": list(given)}
                            if root is not None:
                                kw["root"] = root
                            for c in ctx_params(fi):
                                kw[c] = h.ctx()
                            for x in others:
                                kw[x] = D("value", me, local=True) if x == value else D("param", x)
                            if combine is not None:
                                kw[combine] = Ext("operator.and_")
                            return [], kw

                        outs = ev.outcomes(fi, None, make=make)
                        for q in ev.seen_funcs:
                            rep.saw(q)
                        base, complaint = alternatives(rep, fi, outs, me, world)
                        if complaint:
                            pair_bad = pair_bad or complaint
                        o = max(base, key=lambda o: len(o.trace))
                        if o.kind == "raise":
                            pair_bad = pair_bad or (o.node, f"{world}: {me} always fails with {o.value!r}")
                        rets[me], traces[me] = o.value, o.trace
                    pair_bad = pair_bad or pairing(rep, "pair", fi, traces, world)
                    if pair_bad:
                        break
                    sends = {(m, e[1], e[2]): (e[3],) for m, tr in traces.items() for e in tr if e[0] == "send"}
                    final = {m: subst(v, sends) for m, v in rets.items()}
                    res_bad = res_bad or expected(fi, toks, root, final, traces, value, world)
                if pair_bad:
                    break
            if pair_bad:
                break
    except Undecided as u:
        rep.notes.append(f"{fi.name}: not decided ({u})")
        return
    rep.check(pair_bad is None, "pair", fi.name, locate(fi, pair_bad[0]) if pair_bad else fi.where, pair_bad[1] if pair_bad else "")
    rep.check(res_bad is None, "result", fi.name, fi.where, res_bad or "")
    rep.notes.append(f"{fi.name}: {n_worlds} worlds")


def expected(fi, toks, root, final, traces, value, world):
    kinds = fi.name.lower()
    vals = list(final.values())
    if "barrier" in kinds:
        # everyone's end must come after everyone's begin
        for a in toks:
            know = {m: {m} for m in toks}
            order = happens(traces)
            if not set(toks) <= order[a]:
                miss = sorted(x.i for x in set(toks) - order[a])
                return f"{world}: {a} leaves the barrier although P{miss[0]} may not have reached it"
        return None
    if value is None:
        return None
    if len({repr(v) for v in vals}) > 1:
        return f"{world}: participants return different results: " + "; ".join(f"{m}: {str(v)[:50]}" for m, v in final.items())
    v = vals[0]
    if root is not None:
        if leaves(v) != {root}:
            return f"{world}: the result is made from the values of {sorted(map(str, leaves(v)))}, not the root's"
        return None
    if leaves(v) != set(toks):
        miss = sorted(str(t) for t in set(toks) - leaves(v))
        return f"{world}: the result leaves out {', '.join(miss)}"
    if "gather" in kinds:
        if not isinstance(v, (list, tuple)) or [leaves(x) for x in v] != [{t} for t in toks]:
            return f"{world}: the gathered values are not in participant order: {v}"
    for op, name in (("_and", "operator.and_"), ("_or", "operator.or_"), ("_xor", "operator.xor")):
        if kinds.endswith(op) and len(toks) > 1 and operators(v) != {name}:
            return f"{world}: {fi.name} combines the values with {sorted(operators(v))}"
    return None


def happens(traces):
    """For each participant, whose begin its end is known to follow."""
    pos = {m: 0 for m in traces}
    know = {m: {m} for m in traces}
    msgs = {}
    progress = True
    while progress:
        progress = False
        for m, tr in traces.items():
            while pos[m] < len(tr):
                e = tr[pos[m]]
                if e[0] == "send":
                    msgs[m, e[1], e[2]] = set(know[m])
                else:
                    if (e[1], m, e[2]) not in msgs:
                        break
                    know[m] |= msgs[e[1], m, e[2]]
                pos[m] += 1
                progress = True
    return know


# ------------------------------------------------------------------ routed operations
def shuffle(p, rep, fi):
    rep.saw(fi.qual)
    toks = [Tok(i) for i in range(3)]
    pair_bad = res_bad = None
    n_worlds = 0
    try:
        for srcs in product((None, *toks), repeat=3):
            table = {t: s for t, s in zip(toks, srcs) if s is not None}
            n_worlds += 1
            for order in (0, 1):
                routing = dict(table) if not order else dict(reversed(list(table.items())))
                world = "routing {" + ", ".join(f"{t}: {s}" for t, s in routing.items()) + "}"
                rets, traces = {}, {}
                for me in toks:
                    h = Comm(me, 3)
                    ev = Roles(p, h)

                    def make(me=me, routing=routing):
                        op = Obj("op", attrs={"routing": dict(routing)}, outputs=[D("out")], inputs=[D("in")])
                        it = Obj("interpreter")
                        args = [it, op] + [D("value", me, local=True)]
                        return args, {}

                    outs = ev.outcomes(fi, None, make=make)
                    for q in ev.seen_funcs:
                        rep.saw(q)
                    base, complaint = alternatives(rep, fi, outs, me, world)
                    if complaint:
                        pair_bad = pair_bad or complaint
                    o = max(base, key=lambda o: len(o.trace))
                    if o.kind == "raise":
                        pair_bad = pair_bad or (o.node, f"{world}: {me} fails with {o.value!r}")
                    rets[me], traces[me] = o.value, o.trace
                pair_bad = pair_bad or pairing(rep, "pair", fi, traces, world)
                if pair_bad:
                    break
                sends = {(m, e[1], e[2]): (e[3],) for m, tr in traces.items() for e in tr if e[0] == "send"}
                for m, v in rets.items():
                    v = subst(v, sends)
                    want = table.get(m)
                    if want is None and v is not None:
                        res_bad = res_bad or f"{world}: {m} is not a target but returns {v}"
                    if want is not None and (v is None or leaves(v) != {want}):
                        res_bad = res_bad or f"{world}: {m} returns {v}, not the value of {want}"
            if pair_bad:
                break
    except Undecided as u:
        rep.notes.append(f"{fi.name}: not decided ({u})")
        return
    rep.check(pair_bad is None, "pair", fi.name, locate(fi, pair_bad[0]) if pair_bad else fi.where, pair_bad[1] if pair_bad else "")
    rep.check(res_bad is None, "routing", fi.name, fi.where, res_bad or "")
    rep.notes.append(f"{fi.name}: {n_worlds} routings")


# ------------------------------------------------------------------ callers of the collectives
class Steps(Hooks):
    """Collective calls are single steps; everything else is inlined. Regions evaluated are steps as well."""

    def __init__(self, algos, me):
        self.algos = algos
        self.names = {f.qual: f for f in algos}
        self.me = me

    def call(self, ev, callee, name, recv, args, kwargs, node):
        if isinstance(callee, Fn) and callee.fi is not None and callee.fi.qual in self.names:
            f = callee.fi
            b = {}
            for x, v in zip(f.params, args):
                b[x] = v
            b.update(kwargs)
            if f.name.startswith("normalize"):
                return D("norm", b.get("participants"))
            val = next((b[x] for x in b if x in ("value", "data", "obj", "x")), None)
            n = sum(1 for e in ev.trace if e[0] == "step")
            ev.trace.append(("step", f.name, repr(b.get("participants")), repr(b.get("root")), val, node))
            # the result of a collective is the same for everyone, whatever went in
            return D(f.name, f"step {n}")
        if isinstance(callee, Fn) and callee.fi is not None and callee.fi.name.startswith("normalize"):
            return D("norm", *args[1:], *kwargs.values())
        if name == "evaluate_graph":
            ev.trace.append(("region", repr(args[0] if args else None), "", "", None, node))
            return D("results", args[0] if args else None, local=True)
        if name == "get_dialect_state":
            return self.worker()
        if name == "current_comm_ctx":
            return Obj("ctx", rank=self.me, world_size=Obj("world_size", n=3))
        if isinstance(recv, Obj) and recv.kind == "attrs" and name == "get":
            return D("attr", args[0])
        if name in ("unwrap", "item") and isinstance(recv, D):
            return D(name, recv)
        return NotImplemented

    def worker(self):
        return Obj("worker", rank=self.me, world_size=Obj("world_size", n=3), current_parties=D("current_parties"))

    def getattr(self, ev, obj, attr, node):
        return NotImplemented


def callers(p, rep, algos):
    quals = {f.qual for f in algos}
    norm = {f.qual for f in p.functions.values() if f.module in {a.module for a in algos}}
    # functions that call a collective, directly or through a wrapper
    direct = {}
    for n, m, f in all_nodes(p, ast.Call):
        if f is None or f.qual in norm:
            continue
        r = p.resolve_expr(n.func, m, f)
        if r and r[0] == "func" and (r[1].qual in quals):
            direct.setdefault(f.qual, f)
    level = dict(direct)
    grow = True
    while grow:
        grow = False
        for n, m, f in all_nodes(p, ast.Call):
            if f is None or f.qual in norm or f.qual in level:
                continue
            r = p.resolve_expr(n.func, m, f)
            if r and r[0] == "func" and r[1].qual in level:
                level[f.qual] = f
                grow = True
    toks = [Tok(i) for i in range(3)]
    for fi in sorted(level.values(), key=lambda f: f.qual):
        g = fi
        while g.parent is not None:
            g = g.parent
        if g is not fi or fi.cls is not None:
            continue
        rep.saw(fi.qual)
        is_op = "op" in fi.params and any("interp" in x for x in fi.params)
        res = {}
        try:
            for me in toks:
                h = Steps(algos, me)
                ev = Roles(p, h)

                def make(me=me, h=h):
                    kw = {}
                    for i, x in enumerate(fi.allparams):
                        if x in ctx_params(fi):
                            kw[x] = Obj("ctx", rank=me, world_size=Obj("world_size", n=3))
                        elif x == "worker":
                            kw[x] = h.worker()
                        elif x == "op":
                            kw[x] = Obj("op", attrs=Obj("attrs"), regions=[D("region0"), D("region1")], outputs=[D("out")])
                        elif "interp" in x:
                            kw[x] = Obj("interpreter")
                        elif x in ("participants", "root"):
                            kw[x] = D("arg", x)
                        elif fi.node.args.vararg is not None and fi.node.args.vararg.arg == x:
                            continue
                        elif fi.node.args.kwarg is not None and fi.node.args.kwarg.arg == x:
                            continue
                        else:
                            kw[x] = D("value", me, x, local=True)
                    return [], kw

                res[me] = ev.outcomes(fi, None, make=make)
                for q in ev.seen_funcs:
                    rep.saw(q)
        except Undecided as u:
            rep.notes.append(f"{fi.name}: not decided ({u})")
            continue
        uniform(rep, fi, res)
        compared = [f for f in level.values()]
        if any(o.kind == "raise" and any(e[0] == "step" for e in o.trace) for os in res.values() for o in os) or "uniform" in fi.name or "verify" in fi.name:
            predicate(rep, fi, res, is_op)


def uniform(rep, fi, res):
    """Same conditions known to all => same steps, also across participants."""
    bad = None
    groups = {}
    for me, outs in res.items():
        for o in outs:
            key = frozenset((k, val) for k, loc, _, val in o.log if not loc)
            steps = tuple(e[1:4] for e in o.trace if e[0] == "step")
            groups.setdefault(key, []).append((me, steps, o))
    # conditions may be asked in some cases only: compare cases that do not contradict each other
    flat = [(k, *x) for k, xs in groups.items() for x in xs]
    for i, (k1, m1, s1, o1) in enumerate(flat):
        d1 = dict(k1)
        for k2, m2, s2, o2 in flat[i + 1:]:
            if any(d1.get(c, v) != v for c, v in k2):
                continue
            if s1 != s2:
                loc = [x for x in (*o1.log, *o2.log) if x[1]]
                node = loc[-1][2] if loc else (o1.trace or o2.trace)[0][-1]
                why = f"depending on {loc[-1][0][:60]}" if loc else f"as {m1} and as {m2}"
                bad = bad or (node, f"the collective steps are {[x[0] for x in s1]} or {[x[0] for x in s2]} {why}: participants that differ in it wait for each other")
    if any("value(" in e[2] for os in res.values() for o in os for e in o.trace if e[0] == "step"):
        bad = bad or (fi.node, "the participant set depends on a value that differs between the participants")
    # within one case, all steps use one participant set; roots are uniform
    for os in res.values():
        for o in os:
            ps = {e[2] for e in o.trace if e[0] == "step"}
            if len(ps) > 1:
                bad = bad or (o.trace[0][-1], f"the steps use different participant sets: {sorted(ps)}")
            for e in o.trace:
                if e[0] == "step" and e[3] != "None" and ("value(" in e[3] or any(f"P{i}" in e[3] for i in range(3))):
                    bad = bad or (e[-1], f"the root {e[3][:40]} differs between the participants")
                if e[0] == "step" and e[4] is not None and isinstance(e[4], D) and not leaves(e[4]):
                    bad = bad or (e[-1], f"{e[1]} is given {e[4]!r} instead of the participant's own value")
    rep.check(bad is None, "uniform", fi.name, locate(fi, bad[0]) if bad else fi.where, bad[1] if bad else "")


def predicate(rep, fi, res, is_op):
    """Disagreement must be raised by all, and regions run only afterwards."""
    bad = None
    verified = False
    for me, outs in res.items():
        for o in outs:
            steps = [e for e in o.trace if e[0] == "step"]
            if o.kind == "raise" and steps:
                # which condition decided on raising?
                conds = [x for x in o.log if any(e[1] in x[0] for e in steps)]
                if not conds:
                    continue
                k, loc, node, val = conds[-1]
                verified = True
                if len({repr(e[4]).replace("bool(", "").rstrip(")") for e in steps}) > 1:
                    bad = bad or (node, f"the compared reductions are over different values: {sorted({repr(e[4]) for e in steps})}")
                if loc:
                    bad = bad or (node, f"the error depends on {k[:70]}, in which participants differ: some of them go on")
                else:
                    used = {e[1] for e in steps if e[1] in k}
                    if not ("and" in str(used) and "or" in str(used).replace("xor", "") or any("gather" in u for u in used)):
                        bad = bad or (node, f"the comparison {k[:70]} cannot tell that participants disagree")
    if is_op:
        for me, outs in res.items():
            for o in outs:
                order = [e[0] for e in o.trace]
                steps = [e for e in o.trace if e[0] == "step"]
                regs = [e for e in o.trace if e[0] == "region"]
                flag = {k: v for k, loc, _, v in o.log if not loc}
                if regs and steps and order.index("region") < len(order) - 1 - order[::-1].index("step"):
                    bad = bad or (regs[0][-1], "a region runs before the predicate is verified")
                if regs and not steps and not any(v is False for k, v in flag.items() if "attr" in k):
                    bad = bad or (regs[0][-1], "a region runs without the predicate being verified")
                if o.kind == "return" and len(regs) != 1 and not is_loop(fi):
                    bad = bad or (fi.node, f"{len(regs)} regions run on one path")
                if o.kind == "return" and regs:
                    i = regs[0][1]
                    t = next((v for k, loc, _, v in reversed(o.log) if "value(" in k and "isinstance" not in k and "ne(" not in k and "eq(" not in k), None)
                    if t is not None and i.rstrip(")")[-1:] in "01" and (i.rstrip(")")[-1:] == "0") != t:
                        bad = bad or (regs[0][-1], f"the {'else' if t else 'then'} region runs when the predicate is {t}")
    if verified or is_op or "verify" in fi.name:
        if not verified:
            bad = bad or (fi.node, "disagreement between the participants is never raised")
        rep.check(bad is None, "predicate", fi.name, locate(fi, bad[0]) if bad else fi.where, bad[1] if bad else "")


def is_loop(fi):
    return any(isinstance(n, ast.While) for n in ast.walk(fi.node))


# ------------------------------------------------------------------ participant mask
def masks(p, rep):
    """pcall: members evaluate the region with current_parties set to the op's parties; others do not."""
    toks = [Tok(i) for i in range(3)]

    class M(Hooks):
        def __init__(self, me):
            self.me = me
            self.w = None

        def call(self, ev, callee, name, recv, args, kwargs, node):
            if name == "get_dialect_state":
                self.w = Obj("worker", rank=self.me, world_size=Obj("world_size", n=3), current_parties="outer")
                ev.w = self.w
                return self.w
            if name == "evaluate_graph":
                w = getattr(ev, "w", None)
                ev.trace.append(("region", w.attrs.get("current_parties") if w is not None else None, node))
                return D("results")
            return NotImplemented

    for n, m, f in all_nodes(p, ast.Attribute):
        if not (n.attr == "current_parties" and isinstance(n.ctx, ast.Store)) or f is None or f.name == "__init__":
            continue
        g = f
        while g.parent is not None:
            g = g.parent
        if getattr(g, "_c06_seen", None) is rep:
            continue
        g._c06_seen = rep
        if "op" not in g.allparams:
            continue
        rep.saw(g.qual)
        bad = bad2 = None
        try:
            for members in ([0], [1, 2], [0, 1, 2]):
                parties = tuple(Tok(i) for i in members)
                for me in toks:
                    ev = Roles(p, M(me))

                    def make(parties=parties):
                        region = Obj("graph", outputs=[D("o1"), D("o2")])
                        op = Obj("op", attrs={"parties": parties}, regions=[region], outputs=[D("o1"), D("o2")])
                        return [Obj("interpreter"), op], {}

                    for o in ev.outcomes(g, None, make=make):
                        if o.kind == "raise":
                            continue
                        regs = [e for e in o.trace if e[0] == "region"]
                        if me in parties and not regs:
                            bad2 = bad2 or f"{me} of parties {parties} does not run the region"
                        if me not in parties and regs:
                            bad2 = bad2 or f"{me} runs the region although the parties are {parties}"
                        for e in regs:
                            if e[1] is None or e[1] == "outer" or list(e[1]) != list(parties):
                                bad = bad or f"inside the region the participants are {e[1]}, not {parties}"
        except Undecided as u:
            rep.notes.append(f"{g.name}: not decided ({u})")
            continue
        rep.check(bad is None, "mask", f"{g.name}: participants", g.where, bad or "")
        rep.check(bad2 is None, "mask", f"{g.name}: members", g.where, bad2 or "")
