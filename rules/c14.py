"""C14: a packed program runs exactly as compiled, or is refused.

Compilation, packing, loading and running of an artifact are followed symbolically. On every completing path the rules
look at what is known (the path conditions) and what was built (the fields of the artifact).
"""
from __future__ import annotations

import ast

from sa.engine import Client, Engine, C, T, V, one, show, split, subterms

PROG, TOOL = "mplang.edsl.program", "mplang.tool.program"
CP = PROG + ".CompiledProgram"
RULES = {
    "refuse": "compilation completes only for functions without captured values, constant outputs and unmapped inputs",
    "derive": "every descriptive field of an artifact is computed from the graph that is stored in it",
    "version": "a loaded artifact has the supported format version and signature kind",
    "integrity": "a loaded artifact's digest, signature and descriptive fields equal those recomputed from its graph, on every path",
    "digest": "the digest is a cryptographic hash of the whole serialized graph and of nothing else",
    "nested": "descriptive fields take nested regions into account",
    "container": "packing and unpacking agree on the member, its encoding and its size, and unpacking is bounded",
    "run": "a compiled program is run with exactly its inputs in order, and yields its outputs in order",
}
STRONG = {"hashlib.sha256", "hashlib.sha384", "hashlib.sha512", "hashlib.sha3_256", "hashlib.sha3_384", "hashlib.sha3_512", "hashlib.blake2b", "hashlib.blake2s"}
IMPURE = ("time.", "random.", "uuid.", "datetime.", "os.", "secrets.", "builtins.id", "builtins.hash", "builtins.repr", "builtins.str")


def has(t, f):
    return any(f(x) for x in subterms(t))


def is_graph(t):
    return t.k == "attr" and t.a[1] == "graph" or t.k == "call" and show(t.a[0]).endswith(("serde.from_json", "serde.loads")) or t.k == "param" and t.a[-1] == "graph"


def callname(t):
    return show(t.a[0]).split(".")[-1] if t.k == "call" else ""


class Flow(Client):
    exact = True
    max_states = 64
    max_depth = 10
    modules = (PROG, TOOL)

    def __init__(self, p):
        self.p = p
        self.seen = []

    def should_inline(self, it, fi, call):
        if fi.module.name not in self.modules:
            return False
        # what is computed from a graph alone is kept as an uninterpreted function of the graph
        args = [one(v) for v in [*call.args, *call.kwargs.values()]]
        if len(args) == 1 and args[0] is not None and is_graph(args[0]):
            rs = [n.value for n in ast.walk(fi.node) if isinstance(n, ast.Return) and n.value is not None]
            made = [self.p.resolve_expr(x.func, fi.module, fi) for x in rs if isinstance(x, ast.Call)]
            return bool(rs) and len(made) == len(rs) and all(m is not None and m[0] == "class" for m in made)
        return True

    def quiet_call(self, it, call):
        return True

    def on_call(self, it, call):
        self.seen.append((call, it.where(call.node)))
        q = call.target.qual if call.target is not None else call.ext or ""
        if q in ("mplang.edsl.serde.from_json", "mplang.edsl.serde.loads") and it.frame.module.name == TOOL and call.args:
            fi = self.p.functions.get(CP + ".from_json")
            if fi is not None:
                return it.call_term(T("bound", T("class", CP), fi.qual), [call.args[0]], {}, call.st, call.node)
        return None


def fields(st, o):
    return {k[1]: v for k, v in st.slots(o).items() if isinstance(k, tuple) and k[0] == "a"}


def run(p, rep, tier):
    for k, v in RULES.items():
        rep.rule(k, v, 0)
    for q in (TOOL + ".compile_program", TOOL + ".unpack", TOOL + ".pack", PROG + ".compute_graph_digest", CP + ".from_json"):
        if q not in p.functions:
            rep.broken(f"{q} not found")
            return
    rep.saw(*[q for q, f in p.functions.items() if f.module.name in (PROG, TOOL)], "mplang.evaluate")
    compiling(p, rep)
    loading(p, rep)
    digest(p, rep)
    container(p, rep)
    running(p, rep)


def holds_for(t, b, is_x, n):
    """does the condition hold when the number recognised by is_x is n? None if it is not a comparison with a constant"""
    if t.k != "cmp" or t.a[0] not in ("==", "<"):
        return None
    l, r = t.a[1], t.a[2]
    num = lambda x: n if is_x(x) else x.a[-1] if x.k == "const" and type(x.a[-1]) is int else None
    x, y = num(l), num(r)
    if x is None or y is None:
        return None
    return (x == y if t.a[0] == "==" else x < y) is b


def feasible(st, is_x, numbers):
    """the numbers that the path's comparisons allow; None if something else is said about it"""
    left = list(numbers)
    for t, b in st.conds.items():
        if has(t, is_x):
            rs = [holds_for(t, b, is_x, n) for n in left]
            if None in rs:
                return None
            left = [n for n, r in zip(left, rs) if r]
    return left


def empties(st, want):
    """what the path knows about the emptiness of a value: True empty, False not, None unknown, '?' an unclear test"""
    res = None
    ln = lambda x: x.k == "call" and callname(x) == "len" and want(x.a[1][0])
    if any(has(t, ln) for t in st.conds) and not any(want(t) for t in st.conds):
        f = feasible(st, ln, range(6))
        if f is not None:
            return f == [0]
    for t, b in st.conds.items():
        if not has(t, want):
            continue
        if want(t):
            r = not b
        elif t.k == "call" and callname(t) in ("len", "bool") and want(t.a[1][0]):
            r = not b
        elif t.k == "cmp" and t.a[0] in ("==", "<"):
            l, r_ = t.a[1], t.a[2]
            ln = lambda x: x.k == "call" and callname(x) == "len" and want(x.a[1][0])
            if t.a[0] == "==" and (ln(l) and r_ is C(0) or ln(r_) and l is C(0)):
                r = b
            elif t.a[0] == "<" and ln(r_) and l is C(0):
                r = not b
            elif t.a[0] == "<" and ln(l) and r_ is C(1):
                r = b
            elif t.a[0] == "==" and (want(l) or want(r_)):
                o = r_ if want(l) else l
                r = b if o.k in ("tup", "new") else "?"
            elif t.a[0] == "==" and b is True and any(x.k == "const" and x.a[-1] == 0 for x in (l, r_)):
                r = True if has(l if r_.k == "const" else r_, ln) and callname(l if r_.k == "const" else r_) == "len" else "?"
            else:
                r = "?"
        else:
            r = "?"
        if r is True or r is False:
            return r
        res = r
    return res


def compiling(p, rep):
    fi = p.functions[TOOL + ".compile_program"]
    w = Flow(p)
    rets, _ = Engine(p, w).run(fi)
    rets = [(v, s) for v, s in rets if one(v) is not None and one(v).k == "new" and str(one(v).a[0]) == "obj:" + CP]
    if not rets:
        rep.notes.append("compile_program: no completing path that builds an artifact was recognised")
        return
    tests = {
        "captured values": lambda t: t.k == "attr" and t.a[1] == "captured",
        "constant outputs": lambda t: t.k == "attr" and t.a[1] == "out_imms" or t.k == "item" and t.a[0].k == "attr" and t.a[0].a[1] == "out_morph" and t.a[1] is C(2),
    }
    for name, want in tests.items():
        got = [(empties(s, want), s) for _, s in rets]
        if any(g is False for g, _ in got):
            rep.bad("refuse", name, fi.where, f"compile_program completes on a path where the traced function is known to have {name}")
        elif any(g is None for g, _ in got):
            rep.bad("refuse", name, fi.where, f"compile_program completes on a path that never looks whether the traced function has {name}")
        elif any(g == "?" for g, _ in got):
            rep.notes.append(f"refuse {name}: test of another form")
        else:
            rep.ok("refuse", name, f"{len(got)} completing path(s)")
    ins = lambda t: has(t, lambda x: x.k == "attr" and x.a[1] == "inputs")
    pos = lambda t: has(t, lambda x: x.k == "attr" and x.a[1] in ("in_var_pos", "params") or x.k == "attr" and x.a[1] == "in_morph")
    compare(rep, "refuse", "unmapped inputs", fi.where, [s for _, s in rets], pos, ins, "compile_program completes without comparing the graph's inputs with the positions of the traced arguments")
    # the fields
    kinds = {"graph_digest": ("compute_graph_digest",), "required_opcodes": (), "required_world_size": ()}
    for f in ("graph_digest", "required_opcodes", "required_world_size"):
        bad = None
        for v, s in rets:
            fs = fields(s, one(v))
            g = one(fs.get("graph", V()))
            x = one(fs.get(f, V()))
            if g is None or x is None:
                bad = bad or "?"
                continue
            ok = g in set(subterms(x)) or any(g in s.deps(V(y)) for y in subterms(x) if y.k == "new")
            if not ok and x.k == "const" and x.a[-1] in (0, None) and f == "required_world_size":
                ok = any(g in set(subterms(t)) for t in s.conds)
            if not ok:
                bad = f"the artifact's {f} ({show(x)}) is not computed from the graph stored in it"
            elif f == "graph_digest" and callname(x) != "compute_graph_digest" and not has(x, lambda y: callname(y) == "compute_graph_digest" and y.a[1] == (g,)):
                bad = "?"
        emit(rep, "derive", f, fi.where, bad)
    for f, attr in (("input_arity", "inputs"), ("output_arity", "outputs")):
        bad = None
        for v, s in rets:
            fs = fields(s, one(v))
            g, sig = one(fs.get("graph", V())), one(fs.get("signature", V()))
            x = one(fields(s, sig).get(f, V())) if sig is not None else None
            if g is None or x is None:
                bad = bad or "?"
                continue
            want = T("attr", g, attr)
            if want in set(subterms(x)) and x.k == "call" and callname(x) == "len" and x.a[1][0] is want:
                continue
            bad = f"the artifact's {f} is {show(x)}, not the number of the stored graph's {attr}" if want not in set(subterms(x)) or x.k == "bin" else "?"
        emit(rep, "derive", f, fi.where, bad)


def emit(rep, rule, inst, where, bad):
    if bad == "?":
        rep.notes.append(f"{rule} {inst}: undecided")
    elif bad:
        rep.bad(rule, inst, where, bad)
    else:
        rep.ok(rule, inst)


def compare(rep, rule, inst, where, states, a, b, msg, skip=None):
    """every state knows that a value recognised by a equals one recognised by b"""
    bad = None
    for s in states:
        if skip is not None and skip(s):
            continue
        eq = related = False
        bounds = set()
        for t, truth in s.conds.items():
            sides = [(t.a[1], t.a[2], 0), (t.a[2], t.a[1], 1)] if t.k == "cmp" and t.a[0] == "<" else []
            if t.k == "call" and callname(t) in ("issubset", "issuperset") and t.a[1]:
                recv = t.a[0].a[0] if t.a[0].k in ("attr", "bound") and isinstance(t.a[0].a[0], T) else None
                if recv is not None:
                    sides = [(recv, t.a[1][0], 2), (t.a[1][0], recv, 3)]
            for l, r, d in sides:
                if mentions(s, l, a) and mentions(s, r, b) and not mentions(s, l, b):
                    bounds.add(d)
            if t.k == "cmp" and t.a[0] == "==":
                for l, r in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                    if mentions(s, l, a) and mentions(s, r, b) and not (mentions(s, l, b) and not mentions(s, r, b)):
                        if truth is True:
                            eq = True
                        elif truth is False:
                            bad = f"{msg.split(' completes')[0]} completes although they differ" if " completes" in msg else msg
            if mentions(s, t, a) and mentions(s, t, b):
                related = True
        if not eq:
            bad = bad or (msg.replace("without comparing", "although it only bounds,").replace(" with the", " by the") if len(bounds) == 1 else "?" if related else msg)
    emit(rep, rule, inst, where, bad)


def mentions(s, t, f):
    return has(t, f) or any(f(x) for o in subterms(t) if o.k == "new" for x in s.deps(V(o)))


def loading(p, rep):
    fi = p.functions[TOOL + ".unpack"]
    w = Flow(p)
    rets, _ = Engine(p, w).run(fi)
    good = [(v, s) for v, s in rets if one(v) is not None and one(v).k == "new" and str(one(v).a[0]) == "obj:" + CP]
    if not good or len(good) != len(rets):
        rep.notes.append("unpack: a completing path whose result was not recognised")
        if not good:
            return
    states = [s for _, s in good]
    key = lambda k: lambda t: t.k == "item" and t.a[1] is C(k) or t.k == "attr" and t.a[1] == k
    # version and kind: compared with a constant
    for k, name in (("schema_version", "format version"), ("kind", "signature kind")):
        bad = None
        for s in states:
            ok = related = False
            num = lambda x: key(k)(x) or x.k == "call" and callname(x) == "int" and x.a[1] and key(k)(x.a[1][0])
            f = [n for n in range(-1, 12) if all(holds_for(t, b, num, n) is not False for t, b in s.conds.items() if has(t, num))]
            if len(f) > 1 and any(holds_for(t, b, num, 1) is not None for t, b in s.conds.items() if has(t, num)):
                bad = f"unpack completes for several values of the {name} ({', '.join(map(str, f[:4]))}…)"
                continue
            for t, b in s.conds.items():
                if not mentions(s, t, key(k)):
                    continue
                if t.k == "cmp" and t.a[0] == "==" and (t.a[1].k == "const" or t.a[2].k == "const"):
                    if b:
                        ok = True
                    related = related or b
                elif t.k == "cmp" and t.a[0] == "in" and t.a[1].k != "const":
                    ok = ok or b
                elif not (t.k == "cmp" and t.a[0] in ("in", "is")):
                    related = True
            if not ok:
                bad = "?" if related else f"unpack completes without requiring the supported {name}"
        emit(rep, "version", name, fi.where, bad)
    graph = lambda t: is_graph(t)
    attr = lambda k: lambda t: t.k == "attr" and t.a[1] == k
    compare(rep, "integrity", "input arity", fi.where, states, key("input_arity"), attr("inputs"), "unpack completes without comparing the signature's input arity with the graph")
    compare(rep, "integrity", "output arity", fi.where, states, key("output_arity"), attr("outputs"), "unpack completes without comparing the signature's output arity with the graph")
    compare(rep, "integrity", "digest", fi.where, states, key("graph_digest"), lambda t: callname(t) == "compute_graph_digest", "unpack completes without comparing the stored digest with the graph's digest")
    compare(rep, "integrity", "operations", fi.where, states, key("required_opcodes"), graph, "unpack completes without comparing the list of required operations with the graph")

    def absent(s):
        return any(b is True and t.k == "cmp" and t.a[0] == "is" and mentions(s, t, key("required_world_size")) for t, b in s.conds.items())

    compare(rep, "integrity", "world size", fi.where, states, key("required_world_size"), graph, "unpack completes without comparing a stored world size with the graph", absent)
    # the digest is the one of the graph that is returned
    bad = None
    for v, s in good:
        g = one(fields(s, one(v)).get("graph", V()))
        for t, b in s.conds.items():
            for x in subterms(t):
                if callname(x) == "compute_graph_digest" and g is not None and x.a[1] and x.a[1][0] is not g:
                    bad = f"unpack checks the digest of {show(x.a[1][0])}, but returns another graph"
        if any(t.k == "isinst" for t in s.conds) is False:
            pass
    emit(rep, "integrity", "same graph", fi.where, bad)
    # nested regions
    for t in {x for s in states for t in s.conds for x in subterms(t) if x.k == "call" and x.a[0].k == "func" and len(x.a[1]) == 1 and is_graph(x.a[1][0])}:
        q = t.a[0].a[0]
        if q == PROG + ".compute_graph_digest" or q not in p.functions:
            continue
        from rules.common import call_graph, reachable

        todo, seen = [q], set()
        cg = call_graph(p)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += list(cg.get(x, ()))
        reads = any(isinstance(n, ast.Attribute) and n.attr == "regions" for x in seen if x in p.functions for n in ast.walk(p.functions[x].node))
        rep.check(reads, "nested", q.split(".")[-1], p.functions[q].where, f"{q.split('.')[-1]} never looks into the regions of operations")


class Digest(Flow):
    def __init__(self, p):
        super().__init__(p)
        self.mutations, self.filters = [], []

    def should_inline(self, it, fi, call):
        return fi.module.name == PROG

    def on_setitem(self, it, obj, idx, val, st, node, frame):
        if any(is_content(x) for t in split(obj) for x in subterms(t)):
            self.mutations.append((it.where(node), show(one(idx)) if one(idx) is not None else "?"))
        return st

    def on_delitem(self, it, obj, idx, st, node, frame):
        if any(is_content(x) for t in split(obj) for x in subterms(t)):
            self.mutations.append((it.where(node), show(one(idx)) if one(idx) is not None else "?"))
        return st

    def on_call(self, it, call):
        if call.name == "update" and one(call.recv or V()) is not None and has(one(call.recv), lambda x: x.k == "ext" and str(x.a[0]).startswith("hashlib.")):
            st = call.st.copy()
            slot = (one(call.recv), "*")
            st.heap[slot] = st.heap.get(slot, V()) | call.args[0]
            return [(V(C(None)), st)]
        if call.recv is not None and call.name in ("pop", "clear", "popitem", "update", "remove") and any(is_content(x) for t in split(call.recv) for x in subterms(t)):
            self.mutations.append((it.where(call.node), call.name))
        return None

    def on_cond(self, it, t, truth, st, node, frame):
        if t.k == "cmp" and any(x.k == "const" and isinstance(x.a[-1], str) for x in t.a[1:]) and has(t, is_content):
            self.filters.append((it.where(node), show(t)))
        return st


def is_content(t):
    return t.k == "call" and callname(t) in ("to_json", "dumps", "dumps_b64") and "json.dumps" not in show(t.a[0]) and any(x.k == "param" for x in subterms(t))


def digest(p, rep):
    fi = p.functions[PROG + ".compute_graph_digest"]
    w = Digest(p)
    rets, _ = Engine(p, w).run(fi)
    g = T("param", ("root", fi.qual), fi.params[0] if fi.params else "graph")
    strong = whole = pure = None
    for v, s in rets:
        for t in split(v):
            subs = set(subterms(t)) | {x for o in subterms(t) if o.k == "new" for x in s.deps(V(o))}
            subs |= {x for o in list(subs) if o.k == "call" for y in s.heap.get((o, "*"), ()) for x in subterms(y)}
            exts = {x.a[0] for x in subs if x.k == "ext"}
            if not any(x in subs for x in (g,)):
                whole = whole or f"compute_graph_digest returns {show(t)}, which does not depend on the graph"
                continue
            hashes = {e for e in exts if str(e).startswith("hashlib.")}
            named = [x for x in subs if x.k == "call" and x.a[0] is T("ext", "hashlib.new")]
            if not hashes & STRONG and not (named and all(x.a[1] and x.a[1][0].k == "const" and "hashlib." + str(x.a[1][0].a[-1]) in STRONG for x in named)):
                weak = hashes or {e for e in exts if str(e).startswith(("zlib.", "binascii.", "builtins.hash"))}
                strong = strong or (f"compute_graph_digest uses {', '.join(sorted(map(str, weak)))}" if weak else "?")
            if t.k in ("item",) and t.a[1].k == "slice":
                strong = f"compute_graph_digest keeps only part of the hash ({show(t)[-40:]})"
            contents = [x for x in subs if is_content(x) and (x.a[1][:1] == (g,) or x.a[0].k == "bound" and x.a[0].a[0] is g or x.a[0].k == "attr" and x.a[0].a[0] is g)]
            if not contents:
                parts = {x.a[1] for x in subs if x.k == "attr" and x.a[0] is g}
                missing = {"inputs", "operations", "outputs"} - parts
                whole = whole or (f"compute_graph_digest covers only {', '.join(sorted(parts)) or 'part of the graph'}, not {', '.join(sorted(missing))}" if missing else "?")
                continue
            for c in contents:
                proj = [x for x in subs if x.k == "item" and x.a[0] is c or x.k == "call" and x.a[0].k == "attr" and x.a[0].a[0] is c and x.a[0].a[1] == "get"]
                direct = [x for x in subs if x.k == "call" and any(y is c for y in [*x.a[1], *[b for _, b in x.a[2]]])] or t is c
                if proj and not direct:
                    whole = whole or f"compute_graph_digest covers only {', '.join(sorted({show(x.a[1]) if x.k == 'item' else 'a part' for x in proj}))} of the serialized graph"
                elif not direct:
                    whole = whole or "?"
            if w.mutations:
                whole = whole if whole and whole != "?" else f"compute_graph_digest changes the serialized graph before hashing it ({w.mutations[0][1]} at {w.mutations[0][0]})"
            if w.filters:
                whole = whole if whole and whole != "?" else f"compute_graph_digest leaves out part of the serialized graph ({w.filters[0][1]} at {w.filters[0][0]})"
            imp = sorted(e for e in exts if str(e).startswith(IMPURE[:-2]))
            if imp:
                pure = f"compute_graph_digest depends on {', '.join(imp)}, not only on the program"
            for x in subs:
                if x.k == "call" and x.a[0] is T("ext", "json.dumps"):
                    kw = dict(x.a[2])
                    if kw.get("sort_keys") is not C(True):
                        pure = pure or "compute_graph_digest serializes without sorting keys: equal programs built in another order differ"
    emit(rep, "digest", "algorithm", fi.where, strong)
    emit(rep, "digest", "coverage", fi.where, whole)
    emit(rep, "digest", "determinism", fi.where, pure)


def container(p, rep):
    fp, fu = p.functions[TOOL + ".pack"], p.functions[TOOL + ".unpack"]
    w = Flow(p)
    Engine(p, w).run(fp)
    add = [(c, wh) for c, wh in w.seen if c.name == "addfile"]
    infos = [(c, wh) for c, wh in w.seen if c.name == "TarInfo"]
    enc = {one(c.arg(0, "encoding")) for c, _ in w.seen if c.name == "encode" and c.recv is not None} - {None}
    u = Flow(p)
    rets, _ = Engine(p, u).run(fu)
    names = {one(c.arg(0, "name")) for c, _ in u.seen if c.name in ("getmember", "extractfile") and c.arg(0, "name") is not None and one(c.arg(0, "name")) is not None and one(c.arg(0, "name")).k == "const"}
    dec = {one(c.arg(0, "encoding")) for c, _ in u.seen if c.name == "decode"} - {None}
    made = {one(c.arg(0, "name")) for c, _ in infos} - {None}
    if made and names and all(x.k == "const" for x in made):
        rep.check(names <= made, "container", "member name", fu.where, f"pack writes {', '.join(map(show, made))}, unpack reads {', '.join(map(show, names))}")
    else:
        rep.notes.append("container: member name undecided")
    norm = lambda x: str(x.a[-1]).lower().replace("-", "").replace("_", "")
    if enc and dec:
        rep.check({norm(x) for x in enc} == {norm(x) for x in dec}, "container", "encoding", fu.where, f"pack encodes with {', '.join(map(show, enc))}, unpack decodes with {', '.join(map(show, dec))}")
    # the member holds the whole program
    prog = T("param", ("root", fp.qual), fp.params[0])
    bad = None
    for c, wh in add:
        src = c.arg(1, "fileobj")
        data = [x for t in split(src or V()) for x in subterms(t)]
        if not any(x.k == "call" and callname(x) in ("to_json", "dumps") and x.a[1][:1] == (prog,) for x in data):
            bad = "?" if prog in data else f"pack writes {show(one(src)) if src and one(src) is not None else 'a value'}, which does not contain the program"
        o = one(c.arg(0, "tarinfo"))
        size = one(c.st.heap.get((o, ("a", "size")), V())) if o is not None else None
        payload = one(src).a[1][0] if src and one(src) is not None and one(src).k == "call" and one(src).a[1] else None
        if size is None:
            bad = bad or "?"
        elif payload is not None and not (size.k == "call" and callname(size) == "len" and size.a[1][0] is payload):
            bad = bad or (f"pack records {show(size)} as the size of the member" if size.k == "const" or callname(size) == "len" and size.a[1][0] is not payload else "?")
    if add:
        emit(rep, "container", "content", fp.where, bad)
    else:
        rep.notes.append("container: no addfile call recognised")
    # bounded
    bad = None
    lim = T("param", ("root", fu.qual), "max_artifact_json_bytes")
    for _, s in rets:
        if not any(lim in set(subterms(t)) for t in s.conds):
            bad = "unpack completes without comparing the member's size with the limit"
    if "max_artifact_json_bytes" in fu.allparams:
        emit(rep, "container", "size limit", fu.where, bad)


class Run(Client):
    exact = True
    max_states = 64

    def __init__(self, p):
        self.p = p
        self.evals, self.made = [], []

    def should_inline(self, it, fi, call):
        return fi.parent is not None or fi.name == "<lambda>"

    def quiet_call(self, it, call):
        return True

    def known_type(self, it, t):
        return None

    def on_getitem(self, it, obj, idx, st, node, frame):
        i = one(idx)
        lit = it.literal_elems(obj, st) if i is not None and i.k == "slice" else None
        if lit is not None and all(x.k == "const" for x in i.a):
            o, st = it._exact_obj("list", lit[slice(*[x.a[-1] for x in i.a])], node, st)
            return [(V(o), st)]
        return None

    def on_cond(self, it, t, truth, st, node, frame):
        if t.k == "isinst" and t.a[0].k == "param" and t.a[0].a[-1] == "fn":
            is_cp = any(q.endswith(".CompiledProgram") for q in t.a[1])
            return st if truth is is_cp else None
        return st

    def on_call(self, it, call):
        if call.name == "evaluate_graph" or call.target is not None and call.target.name == "evaluate_graph":
            self.evals.append((call, it.where(call.node)))
            o = T("rawresult", 0)
            return [(V(o), call.st.with_fact(("evaluated", 0)))]
        if call.callee.k == "class" and str(call.callee.a[0]).endswith(".InterpObject"):
            self.made.append((call, it.where(call.node)))
        return None


def running(p, rep):
    fi = p.functions.get("mplang.evaluate")
    if fi is None:
        rep.notes.append("mplang.evaluate not found")
        return
    w = Run(p)
    par = lambda n: T("param", ("root", fi.qual), n)
    xs = [T("param", ("root", fi.qual), f"argument {i}") for i in range(3)]
    args = {}
    a = fi.node.args
    if a.vararg is not None:
        args[a.vararg.arg] = V(T("tup", tuple(xs)))
    fn = par(fi.params[0])
    rets, _ = Engine(p, w).run(fi, args=args)
    if not w.evals:
        rep.notes.append("evaluate: no graph evaluation recognised for a compiled program")
        return
    g = T("attr", fn, "graph")
    bad_graph = bad_arity = bad_kw = bad_in = None
    kwp = par(a.kwarg.arg) if a.kwarg is not None else None
    for call, where in w.evals:
        st = call.st
        got = one(call.arg(0, "graph")) if call.arg(0, "graph") is not None else None
        if got is not g:
            bad_graph = f"a compiled program is run on {show(got) if got is not None else 'another graph'}"
        arity = lambda t: t.k == "attr" and (t.a[1] == "input_arity" or t.a[1] == "inputs")
        eq = None
        for t, b in st.conds.items():
            if has(t, arity):
                if t.k == "cmp" and t.a[0] == "==" and (t.a[1] is C(3) or t.a[2] is C(3) or has(t, lambda x: callname(x) == "len" and x.a[1][0] in (T("tup", tuple(xs)),))):
                    eq = b if eq is None else eq and b
                elif t.k == "cmp" and t.a[0] == "<" and (t.a[1] is C(3) or t.a[2] is C(3)):
                    side = t.a[1] is C(3)
                    eq = True if eq == ("bound", not side) else ("bound", side) if eq is None else eq
                else:
                    eq = eq if eq is not None else "?"
        if eq is not True:
            bad_arity = bad_arity or ("?" if eq == "?" else "a compiled program is run without requiring as many inputs as its signature has")
        if kwp is not None and not any(kwp in set(subterms(t)) for t in st.conds):
            bad_kw = "a compiled program is run although keyword arguments were given, which are ignored"
        ins = call.arg(1, "inputs")
        e = w_lits(p, ins, st)
        if e is None:
            bad_in = bad_in or "?"
        else:
            order = [[i for i, x in enumerate(xs) if any(x in set(subterms(t)) or x in st.deps(V(t)) for t in split(v))] for v in e]
            if order != [[0], [1], [2]]:
                bad_in = f"a compiled program is run with its inputs arranged as {order}"
    emit(rep, "run", "graph", fi.where, bad_graph)
    emit(rep, "run", "arity", fi.where, bad_arity)
    emit(rep, "run", "keywords", fi.where, bad_kw)
    emit(rep, "run", "inputs", fi.where, bad_in)
    bad = None
    for v, s in rets:
        for t in split(v):
            if t.k == "call" and callname(t) in ("reversed", "sorted", "set"):
                bad = f"the results of a compiled program are returned through {callname(t)}()"
    for call, where in w.made:
        val, ty = one(call.arg(0, "runtime_obj")) if call.args else None, one(call.args[1]) if len(call.args) > 1 else None
        if val is None or ty is None:
            continue
        if not has(val, lambda x: x.k == "rawresult"):
            continue
        idx = [x.a[1] for x in subterms(ty) if x.k == "item" and x.a[0].k == "attr" and x.a[0].a[1] == "outputs"]
        if idx and idx[0].k == "const":
            bad = f"every result of a compiled program gets the type of output {show(idx[0])}"
        if has(ty, lambda x: x.k == "attr" and x.a[1] == "inputs"):
            bad = "the results of a compiled program get the types of its inputs"
    emit(rep, "run", "outputs", fi.where, bad)


def w_lits(p, v, st):
    return Engine(p, Run(p)).literal_elems(v, st) if v is not None else None
