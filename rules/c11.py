"""C11: ill-typed or ill-placed party programs are rejected while they are traced.

The rules of the party-level operations are followed path by path. At the point where the operation is recorded
(or its result type returned) the conditions that hold on that path are collected; the guards the contract of the
operation requires must be among them. The case distinction the contract makes (holders known / unknown) is put to
the analysis as separate scenarios.
"""
from __future__ import annotations

import ast

from rules.common import all_nodes, where
from rules.opmodel import cval, definitions
from sa.engine import C, Client, Engine, T, V, one, show, subterms

FALSE = C(False)

RULES = {
    "holders": "a local call or a move names only parties that hold every operand whose holders are known",
    "merge": "merged values are party values of one type with disjoint known holders",
    "predicate": "the predicate of a conditional or loop is a scalar",
    "regions": "branches have the same results, a loop body returns the state it was given",
    "kinds": "moves and merges accept party values only",
    "result": "the recorded type names exactly the parties that will hold the result, or none when that is decided at run time",
    "signature": "two regions match only if structure, positions, constants, count and types of their results agree",
    "equality": "two types are equal only if all their fields are",
    "recorded": "an operation is recorded with the types its rule returned for its own operands",
}
PARTIES, VTYPE = ("parties", "_parties"), ("value_type", "_value_type")
MP = "mplang.edsl.typing.MPType"


def run(p, rep, tier):
    for k, v in RULES.items():
        rep.rule(k, v, 1)
    defs = definitions(p)
    pcall_static(p, rep, defs)
    pcall_dynamic(p, rep, defs)
    shuffle(p, rep, defs)
    shuffle_dynamic(p, rep, defs)
    converge(p, rep, defs)
    uniform_cond(p, rep, defs)
    while_loop(p, rep, defs)
    signature(p, rep)
    equality(p, rep)
    recorded(p, rep)


# ------------------------------------------------------------------ path machinery
class Paths(Client):
    assume_nonempty_loops = True
    path_sensitive = True
    comp_facts = True
    max_states = 96

    def __init__(self, p, answer=None, stop="add_op"):
        self.p, self.answer, self.stop = p, answer, stop
        self.hits, self.elts = [], {}

    def should_inline(self, it, fi, call):
        return fi.module is it.frame.module and fi.cls is None and fi.module.name != "mplang.edsl.tracer"

    def in_elt(self, fi, node):
        """is node part of the element expression of a comprehension"""
        if fi.qual not in self.elts:
            self.elts[fi.qual] = {id(x) for n in ast.walk(fi.node) if isinstance(n, (ast.GeneratorExp, ast.ListComp, ast.SetComp)) for x in ast.walk(n.elt)}
        return id(node) in self.elts[fi.qual]

    def on_call(self, it, call):
        if call.name == self.stop:
            self.hits.append((call, call.st.copy()))
        return None

    def on_cond(self, it, t, truth, st, node, frame):
        d = decided(t, st)
        if d is not None and d != truth:
            return None
        if self.answer is not None and not (holder_none(t, st) == "one" and self.in_elt(frame.func, node)):
            a = self.answer(t, st)
            if a is not None and a != truth:
                return None
        return st


def decided(t, st):
    """any()/all() over elements that are all alike"""
    if t.k == "call" and callee(t) in ("any", "all"):
        vals = {const(f.a[0]) for a in args(t)[:1] for g in unval(a) for f in st.contents(g, "facts") if f.k == "fact"}
        if vals == {True} or vals == {False}:
            return vals == {True}
    return None


def paths(p, fi, answer=None):
    """-> list of (kind, state, payload): the record points and the returns of fi"""
    cl = Paths(p, answer)
    rets, _ = Engine(p, cl).run(fi)
    return cl.hits, rets


def deps(st, t):
    return set(st.deps(t if isinstance(t, frozenset) else V(t)))


def attrs(ts):
    return {t.a[1] for t in ts if t.k == "attr" and isinstance(t.a[1], str)}


def params(ts):
    return {t.a[1] for t in ts if t.k == "param"}


def names(ts):
    out = set()
    for t in ts:
        if t.k == "call":
            out.add(callee(t))
    return out


def callee(t):
    c = t.a[0]
    if c.k == "attr":
        return c.a[1]
    if c.k in ("ext", "func", "class"):
        return str(c.a[0]).rsplit(".", 1)[-1]
    if c.k == "bound":
        return str(c.a[1]).rsplit(".", 1)[-1]
    return ""


def callee_of(t):
    return callee(t) if t.k == "call" else ""


def recv(t):
    c = t.a[0]
    return c.a[0] if c.k in ("attr", "bound") else None


def args(t):
    return [x for x in t.a[1]] if isinstance(t.a[1], tuple) else []


def unval(x):
    return list(x) if isinstance(x, frozenset) else [x]


def flat(x):
    """a term argument of a comparison may itself be a set of alternatives"""
    return unval(x)


def atoms(st):
    """the atomic facts of a path: any()/all()/not unfolded one level"""
    out = []
    todo = [(t, b, 0) for t, b in st.conds.items()]
    while todo:
        t, b, d = todo.pop()
        out.append((t, b))
        if t.k == "call" and d < 3 and callee(t) in ("any", "all", "bool"):
            n = callee(t)
            if (n == "any" and b) or (n == "all" and not b):
                continue
            for a in args(t)[:1]:
                for g in unval(a):
                    if n == "bool":
                        todo.append((g, b, d + 1))
                        continue
                    alts = [f for f in st.contents(g, "facts") if f.k == "fact" and const(f.a[0]) in (b, ...)]
                    if len(alts) == 1:
                        todo += [(x, y, d + 1) for x, y in alts[0].a[1]]
                        if const(alts[0].a[0]) is ...:
                            todo.append((alts[0].a[0], b, d + 1))
                    elif alts:
                        out.append((T("either", *alts), b))
    return out


def const(t):
    return cval(t) if isinstance(t, T) and t.k == "const" else ...


def is_none_test(t):
    """x when t is `x is None`"""
    if t.k == "cmp" and t.a[0] in ("is", "=="):
        a, b = t.a[1], t.a[2]
        if any(const(x) is None for x in unval(b)):
            return a
        if any(const(x) is None for x in unval(a)):
            return b
    return None


def sub(x):
    return set().union(*[set(subterms(t)) for t in unval(x)]) if x is not None else set()


def holder_none(t, st):
    """the condition asks whether a holder set is unknown: 'one' (of an operand), 'any', 'all' or None"""
    x = is_none_test(t)
    if x is not None:
        d = deps(st, x)
        return "one" if attrs(d) & set(PARTIES) and not names(d) & {"sorted", "intersection", "union", "BitAnd"} else None
    if t.k == "call" and callee(t) in ("any", "all"):
        for a in args(t)[:1]:
            for g in unval(a):
                for f in st.contents(g, "facts"):
                    if f.k == "fact" and const(f.a[0]) is True and any(y and is_none_test(x) is not None and attrs(deps(st, x)) & set(PARTIES) for x, y in f.a[1]):
                        return callee(t)
    return None


def all_known(t, st):
    if t.k == "isinst" and MP in classes(t):
        return True
    h = holder_none(t, st)
    if h in ("one", "any", "all"):
        return False
    return nonempty(t, st)


def some_known(t, st):
    """one operand's holders are known, another's are not"""
    if t.k == "isinst" and MP in classes(t):
        return True
    h = holder_none(t, st)
    if h:
        return h == "any"
    return nonempty(t, st)


def met_unknown(t, st):
    """the operand looked at has unknown holders (others are known)"""
    if t.k == "isinst" and MP in classes(t):
        return True
    h = holder_none(t, st)
    if h:
        return h in ("one", "any")
    return nonempty(t, st)


def classes(t):
    return [c if isinstance(c, str) else str(c.a[0]) for c in (t.a[1] if isinstance(t.a[1], tuple) else (t.a[1],))]


def nonempty(t, st):
    """truth of a container of holders or operands: not empty"""
    if t.k == "new" or t.k == "call" and callee(t) in ("tuple", "list", "set", "frozenset", "sorted") and args(t):
        return True
    if t.k == "cmp" and t.a[0] in ("==", "<"):
        for i in (1, 2):
            for x in unval(t.a[i]):
                if x.k == "call" and callee(x) == "len":
                    o = t.a[3 - i]
                    if const(one(V(o)) if isinstance(o, T) else None) == 0:
                        return False if t.a[0] == "==" else (i == 2)
    return None


def subset(t, b, A, B, st):
    """how the fact (t, b) relates the set A (predicate) to the set B: ok / reversed / weak / dep / None"""
    def side(x):
        d = deps(st, x)
        return (A(d), B(d))
    def rel(x, y, ok="ok"):
        """fact says x is contained in y"""
        sx, sy = side(x), side(y)
        if sx[0] and not sx[1] and sy[1]:
            return ok
        if sx[1] and sy[0] and not sy[1]:
            return "reversed"
        return None
    if t.k == "call":
        n, r, a = callee(t), recv(t), args(t)
        if n in ("issubset", "issuperset") and r is not None and a:
            if not b:
                return None
            return rel(r, a[0]) if n == "issubset" else rel(a[0], r)
        if n == "isdisjoint" and r is not None and a:
            return "weak" if not b and (rel(r, a[0]) or rel(a[0], r)) else None
        if n == "difference" and r is not None and a and not b:
            return rel(r, a[0])
        if n == "len" and a and not b:
            return max((subset(x, b, A, B, st) or "" for x in unval(a[0])), default=None) or None
    if t.k == "cmp":
        op, x, y = t.a[0], t.a[1], t.a[2]
        if op == "<":
            return rel(y, x) if not b else rel(x, y)
        if op == "in" and b:
            return rel(x, y)
        if op == "==" and b:
            for u, w in ((x, y), (y, x)):
                for z in unval(u):
                    if (z.k == "bin" and z.a[0] == "BitAnd") or (z.k == "call" and callee(z) == "intersection"):
                        dz, dw = side(w), None
                        if dz[0] and not dz[1]:
                            return "ok"
                        if dz[1] and not dz[0]:
                            return "reversed"
                    if z.k == "call" and callee(z) == "len" and const_of(w) == 0:
                        return subset(args(z)[0] if isinstance(args(z)[0], T) else next(iter(args(z)[0])), False, A, B, st)
                    if const_of(w) is not ... and const_of(w) in (0,) or (isinstance(w, T) and w.k == "call" and callee(w) == "set" and not args(w)):
                        return subset(z, False, A, B, st)
    if t.k == "bin":
        op, x, y = t.a[0], t.a[1], t.a[2]
        if op == "Sub" and not b:
            return rel(x, y)
        if op == "BitAnd":
            return "weak" if b and (rel(x, y) or rel(y, x)) else None
    d = deps(st, t)
    if A(d) and B(d):
        return "dep"
    return None


def const_of(x):
    xs = unval(x)
    return const(xs[0]) if len(xs) == 1 else ...


def best(st, A, B, skip=()):
    got = [r for t, b in atoms(st) if t not in skip for r in [subset(t, b, A, B, st)] if r]
    for k in ("ok", "dep", "reversed", "weak"):
        if k in got:
            return k
    return None


def rule_of(p, rep, defs, opcode, kind):
    d = defs.get(opcode) or {}
    fi = d.get(kind) or d.get("trace" if kind == "abstract" else "abstract")
    if fi is None:
        rep.notes.append(f"{opcode}: no rule found; nothing analysed")
        return None
    rep.saw(fi.qual)
    return fi


def pname(fi, i, default):
    ps = [x for x in fi.params if x not in ("self",)]
    return ps[i] if i < len(ps) else default


def mp_args(p, st, t):
    """(value type terms, parties terms) of the party type object t"""
    if t.k == "call" and callee(t) in ("MPType", "MP"):
        a = args(t)
        kw = dict(t.a[2]) if len(t.a) > 2 and isinstance(t.a[2], tuple) else {}
        return (unval(a[0]) if a else unval(kw.get("value_type", ())), unval(a[1]) if len(a) > 1 else unval(kw.get("parties", ())))
    vt = [e for n in VTYPE for e in st.heap.get((t, ("a", n)), ())] or list(st.heap.get((t, ("arg", 0)), ()) or st.heap.get((t, ("kwarg", "value_type")), ()))
    pt = [e for n in PARTIES for e in st.heap.get((t, ("a", n)), ())] or list(st.heap.get((t, ("arg", 1)), ()) or st.heap.get((t, ("kwarg", "parties")), ()))
    if vt or pt:
        return vt, pt
    return None


def contents(st, x):
    out, seen = [], set()
    todo = unval(x)
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.k == "new":
            got = [e for s, v in st.slots(t).items() if s == "*" or isinstance(s, tuple) and s[0] in ("i", "k") for e in v]
            if got:
                todo += got
                continue
        out.append(t)
    return out


def out_types(st, call):
    return contents(st, call.kwargs.get("output_types") or call.arg(2, "output_types") or frozenset())


def attr_value(st, call, name):
    out = []
    for o in unval(call.kwargs.get("attrs") or frozenset()):
        out += list(st.heap.get((o, ("k", name)), ()))
    return out


def norm(ts, st):
    """drop list()/tuple()/sorted()/set() around a collection"""
    out = set()
    for t in ts:
        while t.k == "call" and callee(t) in ("list", "tuple", "sorted", "set", "frozenset") and args(t):
            x = unval(args(t)[0])
            if len(x) != 1:
                break
            t = x[0]
        out.add(t)
    return out


# ------------------------------------------------------------------ local calls
def holder_pred(d):
    return bool(attrs(d) & set(PARTIES))


def pcall_static(p, rep, defs):
    op = "simp.pcall_static"
    fi = rule_of(p, rep, defs, op, "trace")
    if fi is None:
        return
    req = pname(fi, 0, "parties")
    A = lambda d: req in params(d)
    A1 = lambda d: req in params(d) and not holder_pred(d)
    for label, scenario in (("all holders known", all_known), ("some holders known", some_known)):
        hits, _ = paths(p, fi, scenario)
        if not hits:
            rep.notes.append(f"{op}: no recording point found ({label})")
            continue
        for call, st in hits:
            k = best(st, A, holder_pred)
            if k is None or k in ("reversed", "weak"):
                how = {None: "without comparing the requested parties with the operands' holders", "reversed": "after checking that the holders are among the requested parties, not the reverse", "weak": "after checking only that requested parties and holders overlap"}[k]
                rep.bad("holders", f"{op}: {label}", where_of(fi, call), f"a local call is recorded {how} ({label}): {path_text(st)}")
                break
            if k == "dep":
                rep.notes.append(f"{op}: guard on holders in an unrecognised form accepted ({label})")
            g = [t for t, b in atoms(st) if subset(t, b, A, holder_pred, st) in ("ok", "dep")]
            d = set().union(*[deps(st, t) for t in g])
            src = attrs(d)
            if "captured" not in src or "params" not in src:
                if {"params", "captured"} & src:
                    rep.bad("holders", f"{op}: {label}", where_of(fi, call), f"the holders of {'captured values' if 'captured' not in src else 'the arguments'} are not compared with the requested parties")
                    break
            ops = {t.a[0] for t in d if t.k == "bin"} | names(d)
            if (ops & {"BitOr", "union", "update", "BitXor"}) and not ops & {"BitAnd", "intersection", "intersection_update"} and not any(t.k == "cmp" and t.a[0] == "in" for t in d):
                rep.bad("holders", f"{op}: {label}", where_of(fi, call), "the operands' holders are joined instead of intersected before the requested parties are compared with them: a party holding only one operand is accepted")
                break
            if bounded(p, fi, d):
                rep.bad("holders", f"{op}: {label}", where_of(fi, call), "only some of the operands' holders are considered")
                break
        else:
            rep.ok("holders", f"{op}: {label}", f"{len(hits)} recording path(s): requested parties checked against the intersection of the known holders of arguments and captured values")
    hits, _ = paths(p, fi, met_unknown)
    bad = next(((c, st) for c, st in hits if not any(A(deps(st, t)) and is_none_test(t) is None and t.k != "isinst" and callee_of(t) not in ("callable",) for t, b in atoms(st))), None)
    if hits:
        rep.check(bad is None, "holders", f"{op}: an operand's holders unknown", where_of(fi, hits[0][0]), "the requested parties are not checked against the known holders as soon as one operand's holders are unknown" if bad else f"{len(hits)} recording path(s)")
    hits, _ = paths(p, fi)
    good = True
    for call, st in hits:
        ats = norm(attr_value(st, call, "parties"), st)
        for t in out_types(st, call):
            m = mp_args(p, st, t)
            if m is None:
                continue
            pt = norm(m[1], st)
            d = set().union(set(), *[deps(st, x) for x in pt])
            if not A(d) or holder_pred(d):
                good = False
                rep.bad("result", op, where_of(fi, call), f"the recorded result type names {', '.join(map(show, pt)) or 'no parties'}, not the requested parties")
            elif ats and not (ats & pt) and not strip_eq(ats, pt):
                rep.notes.append(f"{op}: parties attribute and parties of the result type are different expressions: {[show(x) for x in ats]} / {[show(x) for x in pt]}")
            if not ats or not all(A(deps(st, x)) for x in ats):
                good = False
                rep.bad("result", op, where_of(fi, call), "the recorded operation does not carry the requested parties")
    if hits and good:
        rep.ok("result", op, "result type and recorded parties are the requested parties")


def strip_eq(a, b):
    from rules.common import strip_sites
    return {strip_sites(x) for x in a} & {strip_sites(x) for x in b}


def bounded(p, fi, d):
    """a holder set enters only through a bounded slice or a fixed index of the operands"""
    full = part = False
    for t in d:
        if t.k == "item" and isinstance(t.a[1], T) and t.a[1].k == "slice":
            up = t.a[1].a[1]
            if isinstance(up, T) and up.k == "const" and cval(up) is None:
                full = True
            else:
                part = True
        if t.k == "elem":
            full = full or not any(x.k == "item" and isinstance(x.a[1], T) and x.a[1].k == "slice" and not (x.a[1].a[1].k == "const" and cval(x.a[1].a[1]) is None) for x in subterms(t) if len(x.a) > 1 and isinstance(x.a[1], T) and x.a[1].k == "slice" and isinstance(x.a[1].a[1], T))
        if t.k == "item" and isinstance(t.a[1], T) and t.a[1].k == "const" and isinstance(cval(t.a[1]), int) and attrs(subterms(t.a[0])) & {"params", "captured", "inputs"}:
            part = True
    return part and not full


def where_of(fi, call=None):
    n = getattr(call, "node", None)
    return f"{fi.module.path}:{n.lineno}".replace("/repo/", "") if n is not None and hasattr(n, "lineno") else fi.where


def path_text(st):
    return "; ".join(("" if b else "not ") + show(t)[:120] for t, b in list(st.conds.items())[-4:])


def pcall_dynamic(p, rep, defs):
    op = "simp.pcall_dynamic"
    fi = rule_of(p, rep, defs, op, "trace")
    if fi is None:
        return
    hits, _ = paths(p, fi)
    dynamic(p, rep, op, fi, [(call, st, out_types(st, call)) for call, st in hits])


def dynamic(p, rep, op, fi, results):
    n = 0
    for call, st, types in results:
        for t in types:
            m = mp_args(p, st, t)
            if m is None:
                continue
            n += 1
            if m[1] and any(const(x) is not None for x in m[1]):
                rep.bad("result", op, where_of(fi, call), f"{op} decides at run time which parties hold the result, but its type names {', '.join(map(show, m[1]))}")
                return
    if n:
        rep.ok("result", op, f"{n} result type(s) with run-time holders")
    else:
        rep.notes.append(f"{op}: result type not recognised")


# ------------------------------------------------------------------ moves
def isinst_fact(st, pred, cls=MP):
    for t, b in atoms(st):
        if t.k == "isinst" and b and pred(t.a[0] if isinstance(t.a[0], T) else one(t.a[0])) and classes(t) == [cls]:
            return True
        if t.k == "cmp" and t.a[0] in ("is", "==") and b and any(cls in show(x) for x in unval(t.a[2]) + unval(t.a[1])) and "type" in names(sub(t.a[1]) | sub(t.a[2])):
            return True
    return False


def kinds(p, rep, op, fi, rets, which):
    for v, st in rets:
        for i, name in enumerate(which):
            if not isinst_fact(st, lambda x, name=name: x is not None and any(y.k == "param" and y.a[1] == name for y in subterms(x))):
                rep.bad("kinds", f"{op}: {name}", fi.where, f"{op} accepts an operand `{name}` that is not a party value: {path_text(st)}")
                break
    done = {i.split(": ")[1] for i in ()}
    for name in which:
        if all(isinst_fact(st, lambda x, name=name: x is not None and any(y.k == "param" and y.a[1] == name for y in subterms(x))) for _, st in rets):
            rep.ok("kinds", f"{op}: {name}", f"{len(rets)} accepting path(s) establish that {name} is a party value")


def shuffle(p, rep, defs):
    op = "simp.shuffle"
    fi = rule_of(p, rep, defs, op, "abstract")
    if fi is None:
        return
    src, routing = pname(fi, 0, "src_t"), "routing"
    names_ = list(fi.allparams if not callable(getattr(fi, "allparams", None)) else fi.allparams())
    if routing not in names_:
        rep.notes.append(f"{op}: rule has no routing parameter; nothing analysed")
        return
    _, rets = paths(p, fi, all_known)
    kinds(p, rep, op, fi, rets, [src])
    A = lambda d: routing in params(d)
    B = lambda d: holder_pred(d) and src in params(d)
    good = True
    for v, st in rets:
        k = best(st, A, B)
        hit = [t for t, b in atoms(st) if subset(t, b, A, B, st)]
        if k in (None, "reversed", "weak"):
            rep.bad("holders", op, fi.where, {None: "a move is accepted without comparing its sources with the holders of the value", "reversed": "the check requires every holder to be a source instead of every source to be a holder", "weak": "the check requires only one source to be a holder"}[k])
            good = False
            break
        if hit and all(keyside(t, routing) == "key" for t in hit):
            rep.bad("holders", op, fi.where, "the targets of the routing are compared with the holders of the value, not its sources")
            good = False
            break
    if good and rets:
        good = loop_complete(p, rep, op, fi)
    if good and rets:
        rep.ok("holders", op, f"{len(rets)} accepting path(s) with known holders: every source is one of them")
    _, rets = paths(p, fi)
    good = False
    for v, st in rets:
        for t in contents(st, v):
            m = mp_args(p, st, t)
            if m is None:
                continue
            d = set().union(set(), *[deps(st, x) for x in m[1]])
            if routing not in params(d) or any(const(x) is None for x in m[1]) or (any(keyside(x, routing) == "val" for x in m[1]) and not any(keyside(x, routing) == "key" for x in m[1])) or holder_pred(d):
                rep.bad("result", op, fi.where, f"the result of a move is recorded as held by {', '.join(map(show, m[1]))}, not by the targets of the routing")
                return
            dv = set().union(set(), *[deps(st, x) for x in m[0]])
            if src not in params(dv) or not attrs(dv) & set(VTYPE):
                rep.bad("result", op, fi.where, "the result of a move does not have the type of the moved value")
                return
            good = True
    if good:
        rep.ok("result", op, "the result is held by the targets and keeps the value's type")
    else:
        rep.notes.append(f"{op}: result type not recognised")


def keyside(t, routing):
    """does t look at the keys, the values, or both of the routing"""
    ks = set()
    for x in subterms(t):
        if x.k in ("dval", "dvalues") or x.k == "call" and callee(x) == "values" or x.k == "item" and not (isinstance(x.a[1], T) and x.a[1].k == "const"):
            if any(y.k == "param" and y.a[1] == routing for y in subterms(x)):
                ks.add("val")
        if x.k in ("elem", "dkey", "dkeys") and isinstance(x.a[0], T) and x.a[0].k == "param" and x.a[0].a[1] == routing:
            ks.add("key")
        if x.k == "call" and callee(x) == "keys" and any(y.k == "param" and y.a[1] == routing for y in subterms(x)):
            ks.add("key")
        if x.k == "call" and callee(x) in ("sorted", "tuple", "list", "set") and any(isinstance(y, T) and y.k == "param" and y.a[1] == routing for a in args(x) for y in unval(a)):
            ks.add("key")
    return ks.pop() if len(ks) == 1 else "both" if ks else None


def loop_complete(p, rep, op, fi):
    """loops that check operands are not left early except by rejecting"""
    ok = True
    for n in ast.walk(fi.node):
        if isinstance(n, (ast.For, ast.While)):
            if not any(isinstance(x, ast.Raise) for x in ast.walk(n)):
                continue
            for x in ast.walk(n):
                if isinstance(x, (ast.Break, ast.Return)) and nearest_loop(n, x) is n and unconditional(n, x):
                    rep.bad("holders" if op != "simp.converge" else "merge", op, f"{fi.module.path}:{x.lineno}".replace("/repo/", ""), "the check looks at the first element only")
                    ok = False
    return ok


def nearest_loop(n, x):
    best_ = None
    for m in ast.walk(n):
        if isinstance(m, (ast.For, ast.While)) and any(y is x for y in ast.walk(m)):
            best_ = m
    return best_


def unconditional(loop, x):
    return any(s is x for s in loop.body)


def shuffle_dynamic(p, rep, defs):
    op = "simp.shuffle_dynamic"
    fi = rule_of(p, rep, defs, op, "abstract")
    if fi is None:
        return
    src, idx = pname(fi, 0, "src_t"), pname(fi, 1, "index_t")
    _, rets = paths(p, fi)
    kinds(p, rep, op, fi, rets, [src, idx])
    scalar(p, rep, op + ": index", fi, [(None, st) for _, st in rets], lambda x: any(y.k == "param" and y.a[1] == idx for y in subterms(x)))
    dynamic(p, rep, op, fi, [(None, st, contents(st, v)) for v, st in rets])


def converge(p, rep, defs):
    op = "simp.converge"
    fi = rule_of(p, rep, defs, op, "abstract")
    if fi is None:
        return
    ins = pname(fi, 0, "in_types")
    _, rets = paths(p, fi)
    kinds(p, rep, op, fi, rets, [ins])
    good = True
    for v, st in rets:
        if not any(t.k == "cmp" and t.a[0] == "==" and b and all(attrs(deps(st, x)) & set(VTYPE) for x in (t.a[1], t.a[2])) or (t.k == "cmp" and b and "len" in names(sub(t)) and attrs(deps(st, t)) & set(VTYPE)) for t, b in atoms(st)):
            rep.bad("merge", op + ": value types", fi.where, f"values of different types are merged: no comparison of the operands' value types on an accepting path ({path_text(st)})")
            good = False
            break
    if good and rets and partial_loops(fi, lambda n: any(isinstance(c, ast.Compare) and any(isinstance(a, ast.Attribute) and a.attr in VTYPE for a in ast.walk(c)) for c in ast.walk(n)), zip_ok=True):
        rep.bad("merge", op + ": value types", fi.where, "only some operands' value types are compared")
        good = False
    if good and rets:
        rep.ok("merge", op + ": value types", f"{len(rets)} accepting path(s)")
    for label, scenario in (("all holders known", all_known), ("some holders known", some_known)):
        _, rets = paths(p, fi, scenario)
        bad = None
        for v, st in rets:
            ats = atoms(st)
            if any(holder_none(t, st) == "one" and b for t, b in ats):
                continue
            k = None
            for t, b in ats:
                k = disjoint(t, b, st) or k
            if k is None:
                bad = f"holders may overlap: no comparison of the operands' known holders on an accepting path ({label}): {path_text(st)}"
                break
        if bad is None and partial_loops(fi, lambda n: any(isinstance(c, ast.BinOp) and isinstance(c.op, ast.BitAnd) or isinstance(c, ast.Attribute) and c.attr in ("isdisjoint", "intersection") for c in ast.walk(n)), zip_ok=False):
            bad = "only some pairs of operands are compared for overlapping holders"
        if bad:
            rep.bad("merge", f"{op}: {label}", fi.where, bad)
        elif rets:
            rep.ok("merge", f"{op}: {label}", f"{len(rets)} accepting path(s): known holders pairwise disjoint")
    # result
    for label, scenario in (("all holders known", all_known), ("some holders known", some_known)):
        _, rets = paths(p, fi, scenario)
        n, bad = 0, None
        for v, st in rets:
            for t in contents(st, v):
                m = mp_args(p, st, t)
                if m is None or not m[1]:
                    continue
                n += 1
                d = set().union(set(), *[deps(st, x) for x in m[1]])
                none = [x for x in m[1] if const(x) is None]
                if label.startswith("all"):
                    if len(none) == len(m[1]):
                        if not any(b and holder_none(t2, st) for t2, b in atoms(st)) and not any(t2.k == "new" and not b for t2, b in st.conds.items()):
                            bad = "the merged value's holders are recorded as unknown although those of all operands are known"
                    else:
                        ops = {x.a[0] for x in d if x.k == "bin"} | names(d)
                        if not holder_pred(d):
                            bad = f"the merged value's holders do not come from its operands: {', '.join(map(show, m[1]))}"
                        elif all(x.k in ("attr", "item") for x in norm(m[1], st)):
                            bad = "the merged value's holders are those of a single operand"
                        elif "intersection" in ops or ("BitAnd" in ops and not ops & {"BitOr", "union", "update"}):
                            bad = "the merged value's holders are the common holders of its operands, not all of them"
                elif any(b and holder_none(t2, st) == "any" for t2, b in st.conds.items()) and len(none) != len(m[1]):
                    bad = "the merged value's holders are recorded as known although those of an operand are not"
        if bad:
            rep.bad("result", f"{op}: {label}", fi.where, bad)
        elif n:
            rep.ok("result", f"{op}: {label}", f"{n} result(s)")
        else:
            rep.notes.append(f"{op}: result type not recognised ({label})")


def disjoint(t, b, st):
    def hold(x):
        return holder_pred(deps(st, x))
    if t.k == "bin" and t.a[0] == "BitAnd" and not b and hold(t.a[1]) and hold(t.a[2]):
        return "ok"
    if t.k == "call":
        n, r, a = callee(t), recv(t), args(t)
        if n == "isdisjoint" and b and r is not None and a and hold(r) and hold(a[0]):
            return "ok"
        if n == "intersection" and not b and r is not None and a and hold(r) and hold(a[0]):
            return "ok"
        if n == "len" and not b and a:
            return next((k for x in unval(a[0]) for k in [disjoint(x, False, st)] if k), None)
    if t.k == "cmp":
        if t.a[0] == "in" and not b and hold(t.a[1]) and (hold(t.a[2]) or any(x.k == "new" for x in unval(t.a[2]))):
            return "ok"
        if t.a[0] == "==" and b:
            for u, w in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                for z in unval(u):
                    if z.k == "call" and callee(z) == "len" and hold(z):
                        if const_of(w) == 0:
                            return next((k for x in unval(args(z)[0]) for k in [disjoint(x, False, st)] if k), None)
                        if hold(w):
                            return "dep"
        if t.a[0] == "<" and hold(t.a[1]) and hold(t.a[2]) and "len" in names(sub(t.a[1]) | sub(t.a[2])):
            return "dep"
    return None


def partial_loops(fi, about, zip_ok):
    for n in ast.walk(fi.node):
        its = []
        if isinstance(n, ast.For):
            its, body = [n.iter], n
        elif isinstance(n, (ast.GeneratorExp, ast.ListComp, ast.SetComp)):
            its, body = [g.iter for g in n.generators], n
        for it in its:
            if not about(body):
                continue
            for s in ast.walk(it):
                if isinstance(s, ast.Subscript) and isinstance(s.slice, ast.Slice) and s.slice.upper is not None and not (isinstance(s.slice.upper, ast.Name)):
                    return True
            if not zip_ok:
                for c in ast.walk(it):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "zip" and len(c.args) == 2 and any(isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Slice) and ast.dump(a.value) == ast.dump(o) for a, o in ((c.args[0], c.args[1]), (c.args[1], c.args[0]))):
                        return True
                    if isinstance(c, ast.Attribute) and c.attr == "pairwise":
                        return True
    return False


# ------------------------------------------------------------------ control flow
SHAPE = {"shape", "is_scalar", "ndim", "rank"}


def shape_terms(t):
    """(attribute path below a type) of every shape access in t: [(base term, True if through value_type)]"""
    out = []
    for x in subterms(t):
        if x.k == "attr" and x.a[1] in SHAPE:
            b = x.a[0]
            bs = unval(b)
            for y in bs:
                out.append((y, y.k == "attr" and y.a[1] in VTYPE))
    return out


def scalar_fact(t, b):
    """does the fact say that the shape it mentions is () (or that there is no shape)"""
    if t.k == "cmp":
        x, y = t.a[1], t.a[2]
        if t.a[0] in ("is", "=="):
            for u in unval(x) + unval(y):
                if const(u) is None and u.k == "const" or u.k == "tup" and not (u.a and u.a[0]):
                    return "ok" if b else None
            for u, w in ((x, y), (y, x)):
                if const_of(w) == 0 and any("len" in names(sub(u)) or attrs(sub(u)) & {"ndim", "rank"} for _ in (0,)):
                    return "ok" if b else None
        if t.a[0] == "<":
            if const_of(y) == 1 and b or const_of(x) == 0 and not b:
                return "ok"
            return "weak"
        if t.a[0] == "in":
            return "ok" if b else None
        return None
    if t.k == "attr" and t.a[1] == "is_scalar":
        return "ok" if b else None
    if t.k == "attr" and t.a[1] in SHAPE:
        return "ok" if not b else None
    return "dep"


def scalar(p, rep, inst, fi, hits, is_pred):
    if not hits:
        rep.notes.append(f"{inst}: no recording point found")
        return
    for call, st in hits:
        got, through, mpfact = None, False, None
        for t, b in atoms(st):
            if t.k == "isinst" and is_pred(t) and MP in classes(t):
                mpfact = b
            for base, via in shape_terms(t):
                if not is_pred(base):
                    continue
                k = scalar_fact(t, b)
                if k == "ok" or (k == "dep" and got is None):
                    got = k
                    through = through or via
                elif k == "weak" and got is None:
                    got = "weak"
        if got is None or got == "weak":
            rep.bad("predicate", inst, where_of(fi, call), f"{inst}: accepted without establishing that it is a scalar ({'the shape is only bounded' if got else 'its shape is not compared with ()'}): {path_text(st)}")
            return
        if not through and mpfact is not False:
            rep.bad("predicate", inst, where_of(fi, call), f"{inst}: the shape is looked up on the party type, which has none, so every party value passes; the type of the held value must be examined")
            return
    rep.ok("predicate", inst, f"{len(hits)} recording path(s)")


def depends(name):
    return lambda t: any(y.k == "param" and y.a[1] == name for y in subterms(t))


def uniform_cond(p, rep, defs):
    op = "simp.uniform_cond"
    fi = rule_of(p, rep, defs, op, "trace")
    if fi is None:
        return
    pred, then, els = pname(fi, 0, "pred"), pname(fi, 1, "then_fn"), pname(fi, 2, "else_fn")
    hits, _ = paths(p, fi)
    scalar(p, rep, op + ": predicate", fi, hits, depends(pred))
    bad = None
    for call, st in hits:
        ats = atoms(st)
        both = [(t, b) for t, b in ats if {then, els} <= params(deps(st, t))]
        sig = [(t, b) for t, b in both if t.k == "call" and callee(t) == "is_output_signature_match" and b]
        if sig:
            for t, b in sig:
                r, a = recv(t), args(t)
                if r is not None and a and params(deps(st, r)) & {then, els} == params(deps(st, a[0])) & {then, els}:
                    bad = "the signature of a branch is compared with itself"
            continue
        typ = [t for t, b in both if b and t.k == "cmp" and t.a[0] == "==" and "type" in attrs(deps(st, t))]
        tree = [t for t, b in both if b and ("out_tree" in attrs(deps(st, t)) or morph(st, t, 0))]
        if not typ:
            bad = "the types of the branches' results are not compared"
        elif not tree:
            bad = "the structure of the branches' results is not compared"
        if bad:
            bad += f": {path_text(st)}"
            break
    if bad:
        rep.bad("regions", op + ": branches", where_of(fi, hits[0][0]), bad)
    elif hits:
        rep.ok("regions", op + ": branches", f"{len(hits)} recording path(s)")
    n = 0
    for call, st in hits:
        ts = out_types(st, call)
        for t in ts:
            n += 1
            d = deps(st, t)
            if not params(d) & {then, els} or "type" not in attrs(d):
                rep.bad("result", op, where_of(fi, call), f"the recorded result types are not those of the branches' results: {show(t)}")
                return
        regs = set().union(set(), *[params(deps(st, t)) for t in unval(call.kwargs.get("regions") or frozenset())])
        if call.kwargs.get("regions") and not {then, els} <= regs:
            rep.bad("regions", op + ": regions", where_of(fi, call), "a branch is missing from the recorded operation")
            return
    if n:
        rep.ok("result", op, f"{n} result type(s) taken from the branches")


def morph(st, t, i):
    return any(x.k == "item" and const_of(x.a[1]) == i and any(y.k == "attr" and y.a[1] == "out_morph" for y in unval(x.a[0])) for x in deps(st, t))


def while_loop(p, rep, defs):
    op = "simp.while_loop"
    fi = rule_of(p, rep, defs, op, "trace")
    if fi is None:
        return
    cond, body, init = pname(fi, 0, "cond_fn"), pname(fi, 1, "body_fn"), pname(fi, 2, "init")
    hits, _ = paths(p, fi)
    scalar(p, rep, op + ": condition", fi, hits, lambda t: depends(cond)(t) and not depends(body)(t))
    need = {
        "condition has one traced result": None, "body returns as many values as the state has": None,
        "body returns the types of the state": None, "body returns the structure of the state": None,
    }
    for call, st in hits:
        ats = [(t, b, params(deps(st, t)), deps(st, t)) for t, b in atoms(st)]
        def var(d, st=st):
            return "out_var_pos" in attrs(d) or "outputs" in attrs(d) or any(x.k == "item" and const_of(x.a[1]) == 1 and any(y.k == "attr" and y.a[1] == "out_morph" for y in unval(x.a[0])) for x in d)
        def imm(d):
            return "out_imms" in attrs(d) or any(x.k == "item" and const_of(x.a[1]) == 2 and any(y.k == "attr" and y.a[1] == "out_morph" for y in unval(x.a[0])) for x in d)
        c = [(t, b, d) for t, b, ps, d in ats if cond in ps and body not in ps]
        def traced_one(t, b, d):
            if not var(d) or imm(d):
                return False
            if t.k == "cmp" and t.a[0] == "==":
                return (b and any(const_of(x) == 1 for x in (t.a[1], t.a[2]))) or (not b and any(const_of(x) == 0 for x in (t.a[1], t.a[2])))
            return b and t.k in ("item", "attr", "call")
        one_traced = any(traced_one(t, b, d) for t, b, d in c)
        count = any(t.k == "cmp" and t.a[0] == "==" and b and any(const_of(x) == 1 for x in (t.a[1], t.a[2])) and "len" in names(d) for t, b, d in c)
        if not (one_traced and count):
            need["condition has one traced result"] = f"the loop condition may return {'a constant' if not one_traced else 'several values'}"
        bd = [(t, b, ps, d) for t, b, ps, d in ats if body in ps]
        def sides(t):
            a, b_ = t.a[1], t.a[2]
            da, db = params(deps(st, a)), params(deps(st, b_))
            return (body in da) != (body in db)
        eqs = [(t, d) for t, b, ps, d in bd if b and t.k == "cmp" and t.a[0] == "==" and sides(t)]
        if not any("len" in names(d) and var(d) and not imm(d) for t, d in eqs):
            need["body returns as many values as the state has"] = "the number of traced results of the body is not compared with the size of the state"
        def typed(t):
            return all("type" in attrs(deps(st, x)) for x in (t.a[1], t.a[2]))
        calls = [t for t, b, ps, d in bd if b and t.k == "call" and "type" in attrs(d)]
        if not any(typed(t) and "len" not in names(sub(t.a[1]) | sub(t.a[2])) for t, d in eqs) and not calls:
            need["body returns the types of the state"] = "the types of the body's results are not compared with those of the state"
        if not any("out_tree" in attrs(d) or morph(st, t, 0) for t, d in eqs):
            need["body returns the structure of the state"] = "the structure the body returns is not compared with that of the state: values are put back at other places"
        for t in out_types(st, call):
            d = deps(st, t)
            if not params(d) & {init}:
                rep.bad("result", op, where_of(fi, call), f"the recorded result types are not those of the loop state: {show(t)}")
                return
    if not hits:
        rep.notes.append(f"{op}: no recording point found")
        return
    if partial_loops(fi, lambda n: any(isinstance(c, ast.Compare) and any(isinstance(a, ast.Attribute) and a.attr == "type" for a in ast.walk(c)) for c in ast.walk(n)), zip_ok=True):
        need["body returns the types of the state"] = "only some of the body's results are compared with the state"
    for k, v in need.items():
        rep.check(v is None, "regions", f"{op}: {k}", where_of(fi, hits[0][0]), v or f"{len(hits)} recording path(s)")
    rep.ok("result", op, "result types are the types of the loop state")


# ------------------------------------------------------------------ comparison of signatures and types
def signature(p, rep):
    fis = [f for f in list(p.functions.values()) if f.name == "is_output_signature_match" and f.cls is not None]
    if not fis:
        rep.notes.append("no is_output_signature_match found")
    for fi in fis:
        rep.saw(fi.qual)
        cl = SigPaths(p)
        rets, _ = Engine(p, cl).run(fi)
        missing = {}
        for v, st in rets:
            if all(const(t) is False for t in v):
                continue
            if len(v) == 1 and all(t.k == "call" and callee(t) == "all" and st.contents(unval(args(t)[0])[0]) == V(FALSE) for t in v if t.k == "call" and args(t)) and any(t.k == "call" for t in v):
                continue
            ts = set().union(set(), *[deps(st, t) for t, b in st.conds.items() if b or t.k != "cmp"], *[deps(st, t) for t in v])
            for t in list(v):
                ts |= set(subterms(t))
            a = attrs(ts)
            has = {
                "structure": "out_tree" in a or any(m_item(x, 0) for x in ts),
                "positions of traced results": "out_var_pos" in a or any(m_item(x, 1) for x in ts),
                "constants": "out_imms" in a or any(m_item(x, 2) for x in ts),
                "types": any(x.k == "cmp" and x.a[0] == "==" and all("type" in attrs(deps(st, y)) and not {"type", "len"} & names(sub(y)) for y in x.a[1:3]) for x in ts | set(st.conds)) or any(x.k == "call" and "match" in callee(x) for x in ts),
                "number of results": "len" in names(ts) or cl.strict,
            }
            if "out_morph" in a and any(x.k == "cmp" and x.a[0] == "==" and any(y.k == "attr" and y.a[1] == "out_morph" for z in (x.a[1], x.a[2]) for y in unval(z)) for x in list(st.conds)):
                has["structure"] = has["positions of traced results"] = has["constants"] = True
            for k, ok in has.items():
                if not ok:
                    missing[k] = st
        for k in ("structure", "positions of traced results", "constants", "types", "number of results"):
            rep.check(k not in missing, "signature", f"{fi.qual.rsplit('.', 2)[-2]}: {k}", fi.where, f"two regions are said to match although the {k} were not compared" if k in missing else "compared on every accepting path")


def m_item(x, i):
    return x.k == "item" and const_of(x.a[1]) == i and any(y.k == "attr" and y.a[1] == "out_morph" for y in unval(x.a[0]))


class SigPaths(Client):
    assume_nonempty_loops = True
    path_sensitive = True
    comp_facts = True
    max_states = 64

    def __init__(self, p):
        self.p, self.strict = p, False

    def should_inline(self, it, fi, call):
        return fi.cls is not None and fi.module is it.frame.module and fi.name not in ("run",)

    def on_call(self, it, call):
        if call.name == "zip" and any(const(t) is True for t in call.kwargs.get("strict", ())) and any("type" in ast.dump(it.frame.func.node) for _ in (0,)):
            self.strict = True
        return None


def base_types(p):
    out = []
    for c in p.classes.values():
        if any(getattr(x, "name", "") == "BaseType" for x in p.mro(c)):
            out.append(c)
    return out


def equality(p, rep):
    for c in base_types(p):
        eq = p.find_method(c, "__eq__")
        init = p.find_method(c, "__init__")
        if eq is None or init is None or getattr(eq.cls, "name", "") in ("object", "BaseType") and getattr(eq.cls, "name", "") != c.name:
            continue
        fields = set()
        given = set(init.allparams) - {init.params[0]}
        for n in ast.walk(init.node):
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and any(isinstance(x, ast.Name) and x.id in given for x in ast.walk(n.value)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == init.params[0]:
                        fields.add(t.attr)
        if not fields:
            continue
        rep.saw(eq.qual)
        me = eq.params[0]
        got = compared(p, c, eq, me, 3)
        if got is None:
            rep.notes.append(f"{c.name}.__eq__: comparison in an unrecognised form")
            continue
        for f in sorted(fields):
            rep.check(f in got, "equality", f"{c.name}.{f}", eq.where, f"two {c.name} objects that differ in `{f}` compare equal: checks that compare types accept one for the other" if f not in got else "compared")


def compared(p, c, eq, me, depth):
    """fields of self read by the comparison (through properties and helper methods)"""
    other = eq.params[1] if len(eq.params) > 1 else None
    mine, theirs = set(), set()
    dynamic = False
    lossy = {id(x) for n in ast.walk(eq.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("len", "bool", "type", "isinstance", "max", "min", "sum") for a in n.args for x in ast.walk(a)}
    for n in ast.walk(eq.node):
        if id(n) in lossy:
            continue
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in (me, other):
            if n.attr in ("__dict__", "__class__"):
                dynamic = dynamic or n.attr == "__dict__"
                continue
            (mine if n.value.id == me else theirs).update(expand(p, c, n.attr, depth))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("vars", "getattr", "hash", "str", "repr") and n.args:
            dynamic = True
    if dynamic:
        return None
    return mine & theirs


def expand(p, c, attr, depth):
    m = p.find_method(c, attr)
    if m is None or depth == 0:
        return {attr}
    out = {attr}
    for n in ast.walk(m.node):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and m.params and n.value.id == m.params[0]:
            out |= expand(p, c, n.attr, depth - 1)
    return out


# ------------------------------------------------------------------ the tracer
def recorded(p, rep):
    n = 0
    for fi in list(p.functions.values()):
        if fi.name != "bind_primitive" or fi.cls is None or not any(isinstance(x, ast.Attribute) and x.attr == "add_op" for x in ast.walk(fi.cls.node)):
            continue
        rep.saw(fi.qual)
        cl = Rec(p)
        Engine(p, cl).run(fi, self_cls=fi.cls)
        for call, st in cl.hits:
            n += 1
            ot = call.kwargs.get("output_types") or frozenset()
            ins = call.kwargs.get("inputs") or frozenset()
            d = deps(st, ot)
            ev = [t for t in d if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == "_abstract_eval"]
            inst = f"{fi.qual.rsplit('.', 2)[-2]}: types"
            if not ev:
                rep.bad("recorded", inst, where_of(fi, call), f"an operation is recorded with types that are not the result of its rule: {', '.join(map(show, list(ot)[:2]))}")
                continue
            opnds = set().union(*[params(deps(st, x)) for t in ev for a in args(t) for x in unval(a)] or [set()])
            at = set().union(*[attrs(deps(st, x)) for t in ev for a in args(t) for x in unval(a)] or [set()])
            di = deps(st, ins)
            alike = {t for a in ev for x in args(a) for y in unval(x) for t in deps(st, y) if t.k == "elem"} & {t for t in di if t.k == "elem"}
            if "type" not in at or not (opnds & params(di) or alike):
                rep.bad("recorded", inst, where_of(fi, call), "the rule is not applied to the types of the operation's operands")
                continue
            rep.ok("recorded", inst, "the rule's result for the types of the operands is what is recorded")
    if not n:
        rep.notes.append("no recording of operations through abstract evaluation found")


class Rec(Client):
    assume_nonempty_loops = True
    path_sensitive = True
    comp_facts = True

    def __init__(self, p):
        self.p, self.hits = p, []

    def should_inline(self, it, fi, call):
        return fi.module is it.frame.module and fi.name not in ("lift",) and it.frame.func.name != fi.name

    def on_call(self, it, call):
        if call.name == "add_op":
            self.hits.append((call, call.st.copy()))
        return None
