"""C01: whatever is written by serialization is recovered by the matching reader."""
from __future__ import annotations

import ast

from sa.engine import C, EMPTY, NONE, Client, Engine, St, T, V, norm_value, one, show, split, subterms
from sa.project import AnalysisBroken
from rules.common import all_nodes, call_graph, dotted_of
from rules.serde_model import NF, CODEC_NAMES, SerdeClient, callee_ext, callee_name, leftover_codecs, recv_of, strip_all, strip_coerce, strip_conv

ASSUMPTIONS = [
    "third-party encoders/decoders (json, base64, gzip, numpy tobytes/frombuffer, pyarrow IPC, tenseal/SEAL save/load) are inverse of each other",
    "BinaryContext.add_segment returns the index under which the segment is later found (checked structurally by rule container)",
]

SERDE = "mplang.edsl.serde"


def serde_pairs(p):
    m = p.modules.get(SERDE)
    if m is None:
        raise AnalysisBroken("module mplang.edsl.serde not found")
    pairs = {}
    for d, e in (("from_json", "to_json"), ("_from_binary_json", "_to_binary_json"), ("loads", "dumps"), ("loads_b64", "dumps_b64"), ("loads_binary", "dumps_binary")):
        if d in m.functions and e in m.functions:
            pairs[m.functions[d].qual] = m.functions[e].qual
    return pairs


def serializable_classes(p):
    out = []
    for c in p.classes.values():
        w, r = p.find_method(c, "to_json"), p.find_method(c, "from_json")
        if w is None or r is None:
            continue
        if any(d.endswith("abstractmethod") for d in w.deco_names() + r.deco_names()):
            continue
        if "typing.Protocol" in p.ext_bases(c):
            continue
        out.append(c)
    return out


def is_registered(c):
    return any(d.split(".")[-1] == "register_class" for d in c.deco_names())


class CtorModel:
    """Constructor parameters of a class and the attributes they determine."""

    def __init__(self, p, c):
        self.c = c
        init = p.find_method(c, "__init__")
        self.attr_params = {}
        self.ident = {}
        self.ann = {}
        if init is not None:
            self.params = [x for x in init.allparams[1:]]
            a = init.node.args
            for x in (*a.posonlyargs, *a.args, *a.kwonlyargs):
                if x.annotation is not None:
                    self.ann[x.arg] = ast.unparse(x.annotation)
            cl = SerdeClient(set(), lambda fi: fi.cls is not None and fi.cls in p.mro(c))
            eng = Engine(p, cl)
            st = T("param", ("root", init.qual), init.params[0])
            rets, _ = eng.run(init, self_cls=c)
            for _, s in rets:
                for (o, slot), v in s.heap.items():
                    if o is st and isinstance(slot, tuple) and slot[0] == "a":
                        n = slot[1]
                        ps = {y.a[1] for y in s.deps(v) if y.k == "param" and y is not st and y.a[0] == ("root", init.qual)}
                        # derived from other attributes already assigned
                        for y in s.deps(v):
                            if y.k == "attr" and y.a[0] is st and y.a[1] in self.attr_params:
                                ps |= self.attr_params[y.a[1]]
                        self.attr_params.setdefault(n, set()).update(ps)
                        nf = NF(s, {}, project=p)(v)
                        if len(nf) == 1:
                            b = strip_all(one(nf))
                            if b.k == "param" and b.a[1] in self.params:
                                self.ident[n] = b.a[1]
        else:
            self.params = []
            for n, ann, _d, _k in p.dataclass_fields(c):
                self.params.append(n)
                self.ann[n] = ast.unparse(ann)
                self.attr_params[n] = {n}
                self.ident[n] = n
        self.init = init
        # parameters that never reach an attribute carry no state
        live = set().union(*self.attr_params.values()) if self.attr_params else set()
        self.params = [x for x in self.params if x in live]
        self.all = init.allparams[1:] if init is not None else list(self.params)

    def bind(self, call):
        out = {}
        if self.init is not None:
            pos = self.init.params[1:]
        else:
            pos = self.params
        for i, a in enumerate(call.args):
            if i < len(pos):
                out[pos[i]] = a
        for k, v in call.kwargs.items():
            out[k] = v
        return out


def run(p, rep, tier):
    rep.rule("tags", "every tag the generic writer can emit is decoded by the generic reader to the same value (writer variant composed with reader, codec pairs cancelled)", 22)
    rep.rule("order", "a subclass/array-like test precedes the general test that would swallow it (bool before int, tabular before __array__)", 4)
    rep.rule("class", "for every serializable class and every constructor parameter: the reader rebuilds it from exactly what the writer stored from it", 55)
    rep.rule("kinds", "registered kinds are unique, own, and do not shadow built-in tags; subclasses of registered classes register themselves", 35)
    rep.rule("siblings", "binary writer and binary reader come in pairs, and the JSON and binary readers accept the same built-in tags", 2)
    rep.rule("container", "binary container: every length prefix is followed by the bytes it measures, formats agree, reads are bounds-checked", 3)
    rep.rule("graph", "every field of a graph, its operations and values is written and restored in its place", 12)
    rep.rule("eqhash", "types: equality compares every constructor parameter; the hash uses only compared fields and no order that equality ignores", 16)
    rep.rule("ordered", "serialized values are written to text in their own order (dictionaries keep theirs); only text that is merely hashed may be canonicalised", 0)
    pairs = serde_pairs(p)
    ordered_rule(p, rep, pairs)
    tags_rule(p, rep, pairs)
    class_rule(p, rep, pairs)
    kinds_rule(p, rep)
    container_rule(p, rep)
    graph_rule(p, rep, pairs)
    eqhash_rule(p, rep)


# ------------------------------------------------------------------ order of dictionaries
def ordered_rule(p, rep, pairs):
    """The entries of a written dictionary come back in the order they were in (columns of a table type, attributes)."""
    writers = set(pairs.values())

    TEXT = ("json.dumps", "json.dump", "yaml.dump", "yaml.safe_dump")
    writing = {m for n, m, f in all_nodes(p, (ast.Name, ast.Attribute)) if (n.attr if isinstance(n, ast.Attribute) else n.id) == "to_json"}
    sites = {}
    for n, m, f in all_nodes(p, ast.Call):
        if m in writing and f is not None and dotted_of(p, n.func, m, f) in TEXT:
            while f.parent is not None:
                f = f.parent
            sites.setdefault(f.qual, f)
    called = {}
    for a, bs in call_graph(p).items():
        for b in bs:
            called.setdefault(b, set()).add(a)
    # a private helper is judged where it is used
    work = list(sites.values())
    while work:
        f = work.pop()
        if f.name.startswith("_") and not f.name.startswith("__"):
            for a in called.get(f.qual, ()):
                g = p.functions.get(a)
                if g is not None and g.module is f.module and g.qual not in sites:
                    sites[g.qual] = g
                    work.append(g)

    class O(Client):
        max_states = 64

        def __init__(self, root):
            super().__init__()
            self.root, self.found, self.sinks = root, {}, []

        def should_inline(self, it, fi, call):
            return fi.module is self.root.module and fi.qual not in writers and fi.cls is None

        def on_call(self, it, call):
            if call.ext in TEXT:
                arg = call.arg(0, "obj")
                k = call.kwargs.get("sort_keys")
                from_writer = arg is not None and any(y.k == "call" and y.a[0].k == "func" and y.a[0].a[0] in writers or y.k == "call" and callee_name(y) == "to_json" for x in arg for y in subterms(x, set()))
                if from_writer:
                    t = T("call", T("ext", call.ext), tuple(sorted(arg, key=show)[:1]), (), call.site)
                    t = T("attr", t, "text")
                    srt = k is not None and not all(x is C(False) or x is C(None) for x in k)
                    sure = srt and all(x.k == "const" and x.a[-1] for x in k)
                    self.found[t] = (sure, call.where())
                    return [(V(t), call.st)]
                return None
            if call.ext and call.ext.startswith("hashlib."):
                return None
            for v in call.all_args():
                for x in v:
                    self.sinks.append(x)
            return None

    for q, f in sorted(sites.items()):
        cl = O(f)
        rets, _ = Engine(p, cl).run(f, self_cls=f.cls)
        if not cl.found:
            continue
        rep.saw(q)
        private = f.name.startswith("_") and called.get(f.qual)
        out = {y for v, st in rets for x in v for y in _unhashed(x)} if not private else set()
        out |= {y for x in cl.sinks if not (x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "encode") for y in _unhashed(x)} - ({T("attr", t, "encode") for t in cl.found})
        bad = [w for t, (srt, w) in cl.found.items() if srt and t in out]
        rep.check(not bad, "ordered", q, bad[0] if bad else f.where, "the serialized value is written with its dictionary entries sorted: the order of columns and attributes is not the one read back")


def _unhashed(x):
    """Subterms that do not lie under a hash function."""
    out, work = set(), [x]
    while work:
        y = work.pop()
        if not isinstance(y, T) or y in out:
            continue
        if y.k == "call" and y.a[0].k == "ext" and y.a[0].a[0].startswith("hashlib."):
            continue
        out.add(y)
        stack = list(y.a)
        while stack:
            z = stack.pop()
            if isinstance(z, T):
                work.append(z)
            elif isinstance(z, (tuple, frozenset)):
                stack.extend(z)
    return out


# ------------------------------------------------------------------ generic tags
def _norm_conds(st, nf):
    out = {}
    for t, truth in st.conds.items():
        if t.k == "cmp":
            out[T("cmp", t.a[0], nf.t(t.a[1]), nf.t(t.a[2]))] = truth
        elif t.k == "isinst":
            out[T("isinst", nf.t(t.a[0]), t.a[1])] = truth
        else:
            out[nf.t(t)] = truth
    return out


SCALARS = {"builtins.bool": "bool", "builtins.int": "int", "builtins.float": "float", "builtins.str": "str", "numpy.integer": "int", "numpy.floating": "float", "numpy.bool_": "bool"}


def tags_rule(p, rep, pairs):
    m = p.modules[SERDE]
    decoded = {}
    for wname, rname in (("to_json", "from_json"), ("_to_binary_json", "_from_binary_json")):
        w, r = p.need_func(f"{SERDE}.{wname}"), p.need_func(f"{SERDE}.{rname}")
        keep = set(pairs) | set(pairs.values())
        keep -= {w.qual, r.qual}
        # the entry points recurse; the engine keeps recursive calls symbolic by itself
        cl = SerdeClient(keep, lambda fi: fi.module is m)
        cl.max_states = 64
        eng = Engine(p, cl)
        rets, _ = eng.run(w)
        rep.saw(w.qual, r.qual, *eng.inlined)
        obj = T("param", ("root", w.qual), w.params[0])
        variants = []
        for v, st in rets:
            for t in split(v):
                if t.k == "new" and t.a[0] == "dict":
                    kinds = st.heap.get((t, ("k", "_kind")), EMPTY)
                    for k in split(kinds):
                        if k.k == "const":
                            variants.append((k.a[1], t, st))
                        else:
                            variants.append((None, t, st))
                elif t.k == "call" and t.a[0].k == "func" and callee_name(t) in ("to_json", "_to_binary_json"):
                    # delegation to the generic writer (array-like -> numpy, fallback)
                    delegate(rep, p, wname, w, obj, t, st, pairs)
                elif t.k == "call" and t.a[0].k == "attr" and callee_name(t) in ("to_json", "to_binary_json"):
                    # a registered object: its own payload, tagged with its own kind
                    ks = st.heap.get((t, ("k", "_kind")), EMPTY)
                    good = recv_of(t) is obj and ks == V(T("attr", obj, "_serde_kind"))
                    rep.check(good, "tags", f"{wname}:registered:{callee_name(t)}", w.where, f"a registered object is written as {show(t)} tagged {[show(k) for k in ks]} instead of its own payload tagged with its own kind")
        seen = set()
        # several path states may give the same tag: each must round trip
        for kind, t, st in variants:
            if kind is None:
                continue
            rkeep = keep if rname == "from_json" else keep - {f"{SERDE}.from_json"}
            rrets, rraises = Engine(p, SerdeClient(rkeep, lambda fi: fi.module is m)).run(r, args={r.params[0]: V(t)}, st=st)
            where = w.where
            inst = f"{wname}:{kind}"
            if not rrets:
                rep.bad("tags", inst, where, f"tag {kind!r} written by {wname} has no path through {rname} that returns a value")
                continue
            for rv, rst in rrets:
                msg = judge_variant(kind, obj, rv, rst, st, pairs, p)
                rep.check(msg is None, "tags", inst, where, f"{wname} -> {rname}: {msg}")
            order_rule(rep, wname, w, kind, obj, st)
            seen.add(kind)
        decoded[wname] = seen
    # json/binary sibling: every tag of the JSON writer that the binary reader may meet is accepted by it
    r = p.need_func(f"{SERDE}._from_binary_json")
    w = p.need_func(f"{SERDE}.to_json")
    keep = set(pairs) | set(pairs.values())
    keep -= {w.qual, r.qual}
    eng = Engine(p, SerdeClient(keep, lambda fi: fi.module is m))
    obj = T("param", ("root", w.qual), w.params[0])
    fj = f"{SERDE}.from_json"
    for v, st in eng.run(w)[0]:
        for t in split(v):
            if t.k == "new" and t.a[0] == "dict":
                for k in split(st.heap.get((t, ("k", "_kind")), EMPTY)):
                    if k.k != "const":
                        continue
                    rr, _ = Engine(p, SerdeClient(keep, lambda fi: fi.module is m)).run(r, args={r.params[0]: V(t)}, st=st)
                    ok = bool(rr)
                    for rv, rst in rr:
                        # either decoded here, or handed over unchanged to the JSON reader
                        for x in split(rv):
                            if x.k == "call" and callee_name(x) == "from_json" and x.a[0].k == "func":
                                ok = ok and bool(x.a[1]) and x.a[1][0] is t
                    rep.check(ok, "siblings", f"json tag {k.a[1]} in binary reader", r.where, f"the binary reader drops JSON tag {k.a[1]!r}")


def delegate(rep, p, wname, w, obj, t, st, pairs):
    """to_json(np.asarray(obj)): the delegate receives an identity conversion of obj."""
    nf = NF(st, pairs, project=p)
    a = nf.t(t.a[1][0]) if t.a[1] else None
    rep.check(a is obj, "tags", f"{wname}:delegate:{callee_name(t)}", w.where, f"{wname} delegates to {callee_name(t)} with {show(a)} instead of the object itself")
    if any(c.k == "call" and callee_name(c) == "hasattr" and any(y.k == "const" and y.a[1] == "__array__" for y in c.a[1]) and truth for c, truth in st.conds.items()):
        for tab in ("pyarrow.Table", "pandas.DataFrame"):
            neg = any(c.k == "isinst" and c.a[0] is obj and any(x.startswith(tab.split(".")[0]) and x.endswith(tab.split(".")[1]) for x in c.a[1]) and truth is False for c, truth in st.conds.items())
            # the import-failure paths carry no test; accept when the module name is None there
            absent = any(v is V(NONE) or (len(v) == 1 and one(v) is NONE) for (f, n), v in st.env.items() if n in ("pa", "pd", tab.split(".")[0]))
            rep.check(neg or absent, "order", f"{wname}:{tab} before __array__", w.where, f"{tab} objects reach the generic __array__ branch and lose their columns")


def order_rule(rep, wname, w, kind, obj, st):
    ts = {x for c, truth in st.conds.items() if c.k == "isinst" and c.a[0] is obj and truth for x in c.a[1]}
    neg = {x for c, truth in st.conds.items() if c.k == "isinst" and c.a[0] is obj and truth is False for x in c.a[1]}
    if "builtins.int" in ts and "builtins.bool" not in ts:
        rep.check("builtins.bool" in neg, "order", f"{wname}:bool before int", w.where, "booleans are swallowed by the integer branch")


def judge_variant(kind, obj, rv, rst, wst, pairs, p):
    nf = NF(rst, pairs, project=p)
    n = nf(rv)
    conds = wst.conds
    pos = {x for c, tr in conds.items() if c.k == "isinst" and c.a[0] is obj and tr for x in c.a[1] if len(c.a[1]) == 1}
    posany = {x for c, tr in conds.items() if c.k == "isinst" and c.a[0] is obj and tr for x in c.a[1]}
    neg = {x for c, tr in conds.items() if c.k == "isinst" and c.a[0] is obj and tr is False for x in c.a[1]}
    types = pos or (posany - neg)
    for x in n:
        if any(y.k == "item" and y.a[0].k == "new" for y in subterms(x)):
            miss = [show(y.a[1]) for y in subterms(x) if y.k == "item" and y.a[0].k == "new"]
            return f"tag {kind!r}: the reader uses field(s) {miss} the writer does not store"
        if x is NONE:
            if conds.get(T("cmp", "is", obj, NONE)) is True:
                continue
            return f"tag {kind!r} decodes to None"
        base = strip_coerce(x)
        sc = {SCALARS[t] for t in types if t in SCALARS}
        if sc:
            if base is not obj:
                return f"tag {kind!r}: decoded as {show(x)}, not the written scalar"
            if x.k == "coerce" and x.a[0] not in sc:
                return f"tag {kind!r}: written from {sorted(sc)} but decoded with {x.a[0]}()"
            continue
        if x is obj:
            if "builtins.tuple" in types and "builtins.list" not in types:
                pass
            continue
        if x.k == "conv":
            src = strip_conv(x)
            want = None
            if "builtins.list" in pos:
                want = "list"
            elif "builtins.tuple" in posany and "builtins.list" in neg:
                want = "tuple"
            elif "builtins.dict" in posany:
                want = "dict"
            if src is not obj:
                return f"tag {kind!r}: rebuilt from {show(src)} instead of the written object"
            if want and x.a[0] != want:
                return f"tag {kind!r}: a {want} is decoded as a {x.a[0]}"
            if x.a[0] == "dict":
                # string-keyed form keeps keys verbatim: JSON would turn other keys into strings
                raw_keys = any(True for t in [1]) and kind is not None and _keys_raw(wst, kind, obj)
                if raw_keys:
                    guarded = any(_mentions_keys(c, wst, obj) for c in conds)
                    if not guarded:
                        return f"tag {kind!r}: keys are written verbatim with no test that they are strings"
            continue
        if x.k == "coerce" and strip_all(x) is obj:
            continue
        if x.k == "arrow_of_pandas" and x.a[0] is obj:
            continue
        lo = leftover_codecs(x)
        if lo:
            return f"tag {kind!r}: encoders/decoders do not cancel ({sorted(lo)} left in {show(x)})"
        return f"tag {kind!r}: decoded value is {show(x)}"
    return None


def _keys_raw(wst, kind, obj):
    for (o, slot), v in wst.heap.items():
        if o.k == "new" and o.a[0] == "dict" and slot == "keys":
            if any(t.k == "dkey" and t.a[0] is obj for t in split(v)):
                return True
    return False


def _mentions_keys(c, st, obj):
    for y in st.deps(c):
        if (y.k in ("dkeys", "dkey", "ditems") and y.a[0] is obj) or (y.k == "elem" and y.a[0] is obj):
            return True
    return False


# ------------------------------------------------------------------ classes
def class_rule(p, rep, pairs):
    keep = set(pairs) | set(pairs.values())
    for c in serializable_classes(p):
        if c.name == "Graph" and c.module.name == "mplang.edsl.graph":
            continue  # own rule
        cm = CtorModel(p, c)
        if not cm.params:
            continue
        forms = [("to_json", "from_json")]
        wb, rb = p.find_method(c, "to_binary_json"), p.find_method(c, "from_binary_json")
        if wb is not None or rb is not None:
            rep.check(wb is not None and rb is not None, "siblings", f"{c.qual} binary pair", c.where, "has only one side of to_binary_json/from_binary_json: its binary form is read by the wrong reader")
            if wb is not None and rb is not None:
                forms.append(("to_binary_json", "from_binary_json"))
        for wn, rn in forms:
            w, r = p.find_method(c, wn), p.find_method(c, rn)
            stub = _is_stub(w) or _is_stub(r)
            if stub:
                rep.ok("class", f"{c.qual}.{wn} (refuses)", w.where)
                continue
            check_pair(p, rep, pairs, keep, c, cm, w, r)


def _is_stub(fi):
    body = [s for s in fi.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return len(body) == 1 and isinstance(body[0], ast.Raise)


def check_pair(p, rep, pairs, keep, c, cm, w, r):
    rep.saw(w.qual, r.qual)
    mods = {k.module.name for k in p.mro(c)}

    def pred(fi):
        return fi.module.name in mods or fi.name in ("to_json", "from_json")

    eng = Engine(p, SerdeClient(keep, pred))
    selft = T("param", ("root", w.qual), w.params[0])
    eng.param_types[selft] = c
    rets, _ = eng.run(w, self_cls=c)
    nvar = 0
    for v, st in rets:
        for t in split(v):
            if not (t.k == "new" and t.a[0] == "dict"):
                if t.k == "bottom":
                    continue
                raise AnalysisBroken(f"{w.qual}: returns {show(t)}; the analysis expects a dict built in the method")
            nvar += 1
            captured = []

            def hook(it, call, captured=captured):
                if call.cls is not None and (call.cls is c or c in p.mro(call.cls)):
                    captured.append((cm.bind(call), call.st, call.site))
                return None

            args = {r.params[1]: V(t)}
            eng2 = Engine(p, TypedSerde(keep, pred, hook, cm, selft))
            rr, _ = eng2.run(r, args=args, st=st, self_cls=c)
            rep.saw(*eng2.inlined)
            if not rr:
                rep.bad("class", f"{c.qual}.{r.name}", r.where, "no path of the reader accepts what the writer produces")
                continue
            if not captured:
                # built through another constructor (e.g. helper); fall back to returned objects
                raise AnalysisBroken(f"{r.qual}: no construction of {c.name} seen")
            for b, bst, _site in captured:
                # the state at return holds later attribute stores
                for prm in cm.params:
                    inst = f"{c.qual}.{r.name}:{prm}"
                    if prm not in b:
                        # left to its default: only right when the writer's value equals the default on this path
                        rep.bad("class", inst, r.where, f"constructor parameter {prm!r} of {c.name} is not restored by {r.name}")
                        continue
                    msg = judge_param(p, pairs, c, cm, selft, prm, b[prm], bst, t, w)
                    rep.check(msg is None, "class", inst, r.where, f"{c.name}: {msg}")
    if nvar == 0:
        raise AnalysisBroken(f"{w.qual}: no dict-producing return found")


class TypedSerde(SerdeClient):
    """what was stored from a field has the type the field declares"""

    def __init__(self, keep, pred, hook, cm, selft):
        super().__init__(keep, pred, hook)
        self.cm, self.selft = cm, selft

    def known_type(self, it, t):
        if t.k == "attr" and t.a[0] is self.selft:
            ann = self.cm.ann.get(self.cm.ident.get(t.a[1], ""), "")
            if ann in ("bool", "int", "str", "bytes", "float", "dict", "list", "tuple"):
                return ann
        return None


def judge_param(p, pairs, c, cm, selft, prm, v, st, wdict, w):
    nf = NF(st, pairs, project=p)
    conds = _norm_conds(st, nf)
    for x in nf(v):
        deps = st.deps(x)
        miss = [show(y.a[1]) for y in deps if y.k == "item" and y.a[0] is wdict]
        if miss:
            return f"{prm!r} is read from field(s) {sorted(set(miss))} that {w.name} does not write"
        base = strip_all(x)
        if base.k == "attr" and base.a[0] is selft and cm.ident.get(base.a[1]) == prm:
            cont = _container_mismatch(cm.ann.get(prm, ""), x)
            if cont:
                return f"{prm!r} {cont}"
            continue
        if base.k == "const":
            same = False
            for (ct, tr) in conds.items():
                if ct.k == "cmp" and ct.a[0] in ("==", "is") and tr is True:
                    for a, b in ((ct.a[1], ct.a[2]), (ct.a[2], ct.a[1])):
                        if b is base and a.k == "attr" and a.a[0] is selft and prm in cm.attr_params.get(a.a[1], ()):
                            same = True
                if ct.k == "attr" and ct.a[0] is selft and prm in cm.attr_params.get(ct.a[1], ()) and base.a[1] is tr:
                    same = True
            if same:
                continue
            return f"{prm!r} is set to the constant {base.a[1]!r} whatever was written"
        used = {y.a[1] for y in deps if y.k == "attr" and y.a[0] is selft and y.a[1] in cm.attr_params}
        up = set().union(*[cm.attr_params[u] for u in used]) if used else set()
        if prm not in up:
            return f"{prm!r} is rebuilt from {sorted(up) or 'nothing'}: the written value of {prm!r} is lost"
        if up - {prm} and not (up - {prm} <= ALLOW_MIX.get((c.name, prm), set())):
            return f"{prm!r} is rebuilt from other state too: {sorted(up - {prm})}"
        lo = leftover_codecs(x) - {"from_bytes", "to_bytes"}
        lo -= {"save", "load", "tobytes"} if not ({"frombuffer"} & lo) else set()
        bad = [n for n in lo if n in ("b64decode", "b64encode", "fromhex", "hex", "frombuffer", "decompress", "compress", "from_json", "to_json", "_from_binary_json", "_to_binary_json", "loads", "dumps", "unhexlify", "hexlify")]
        # writes through files or third-party objects leave the encoder inside an opaque chain on both sides
        bad = _unbalanced(x, deps)
        if bad:
            return f"{prm!r}: encode/decode steps do not cancel: {bad}"
        # object rebuilt by attribute stores: each attribute from its own namesake
        for y in split(v):
            sl = {s[1]: vv for s, vv in st.slots(y).items() if isinstance(s, tuple) and s[0] == "a"} if y.k == "call" else {}
            if sl:
                wr = {z.a[1] for z in st.deps(V(wdict)) if z.k == "attr" and z.a[0].k == "attr" and z.a[0].a[0] is selft}
                for n, vv in sl.items():
                    src = {z.a[1] for z in st.deps(vv) if z.k == "attr" and z.a[0].k == "attr" and z.a[0].a[0] is selft}
                    if n in wr and src != {n}:
                        return f"attribute {n!r} of {prm!r} is restored from {sorted(src)}"
                lost = {n for n in wr if n not in sl}
                if lost:
                    return f"attributes {sorted(lost)} of {prm!r} are written but not restored"
    return None


ALLOW_MIX = {
    # a BFV ciphertext is loaded with the help of the transferred parameter context
    ("BFVValue", "data"): {"ctx", "is_cipher"},
}


def _unbalanced(x, deps):
    """Decoders left without their encoder (or the reverse) in the dependency chain."""
    names = {}
    for y in deps:
        if y.k == "call":
            n = callee_ext(y) or callee_name(y)
            names[n.split(".")[-1]] = names.get(n.split(".")[-1], 0) + 1
    bad = []
    for d, e in (("b64decode", "b64encode"), ("urlsafe_b64decode", "urlsafe_b64encode"), ("fromhex", "hex"), ("decompress", "compress"), ("unhexlify", "hexlify"), ("from_json", "to_json"), ("_from_binary_json", "_to_binary_json"), ("loads", "dumps")):
        if (d in names) != (e in names):
            bad.append(d if d in names else e)
    return bad


def _container_mismatch(ann, x):
    y = x
    while y.k == "coerce":
        y = y.a[1]
    if y.k != "conv":
        return None
    want = None
    a = ann.replace(" ", "")
    if a.startswith(("tuple", "Tuple")):
        want = ("tuple",)
    elif a.startswith(("list", "List")):
        want = ("list",)
    elif a.startswith(("dict", "Dict")):
        want = ("dict",)
    elif a.startswith(("set", "frozenset")):
        want = ("set", "frozenset")
    if want and y.a[0] not in want:
        return f"is declared {ann} but restored as a {y.a[0]}"
    return None


# ------------------------------------------------------------------ kinds
def kinds_rule(p, rep):
    reg = [c for c in p.classes.values() if is_registered(c)]
    kinds = {}
    for c in reg:
        v = c.class_attr("_serde_kind")
        k = None
        if v is not None:
            try:
                k = ast.literal_eval(v)
            except ValueError:
                k = None
        if k is None:
            owner = p.find_class_attr(c, "_serde_kind")
            rep.bad("kinds", c.qual, c.where, f"registered without a kind of its own (inherits {owner[0].name if owner else 'nothing'}): its data is decoded as another class")
            continue
        if k in kinds:
            rep.bad("kinds", c.qual, c.where, f"kind {k!r} is also used by {kinds[k].qual}")
        elif k.startswith("_"):
            rep.bad("kinds", c.qual, c.where, f"kind {k!r} shadows the built-in tag namespace")
        else:
            rep.ok("kinds", c.qual, c.where)
        kinds[k] = c
    for c in p.classes.values():
        if is_registered(c):
            continue
        parents = [b for b in p.mro(c)[1:] if is_registered(b)]
        if parents:
            rep.bad("kinds", c.qual, c.where, f"subclass of registered {parents[0].name} is not registered itself: it is written under the parent's kind and read back as the parent")
    # registry writes only through the duplicate-checked registrar
    f = p.need_func(f"{SERDE}.register_class")
    ok_dup = [False]

    class K(Client):
        def should_inline(self, it, fi, call):
            return fi.module.name == SERDE

        def on_setitem(self, it, obj, idx, val, st, node, frame):
            for o in split(obj):
                if o.k == "modvar":
                    # overwritten only when absent or identical
                    absent = st.conds.get(T("cmp", "in", one(idx), o)) is False
                    same = any(t.k == "cmp" and t.a[0] == "is" and tr is True and one(val) in (t.a[1], t.a[2]) for t, tr in st.conds.items())
                    rep.check(absent or same, "kinds", "register_class refuses a second class for one kind", it.where(node), "a kind can be re-registered to a different class")
                    ok_dup[0] = True
            return st

    Engine(p, K()).run(f)
    rep.saw(f.qual)
    if not ok_dup[0]:
        rep.notes.append("register_class: registry store not recognised")


# ------------------------------------------------------------------ container
def container_rule(p, rep):
    m = p.modules[SERDE]
    w, r = p.need_func(f"{SERDE}.dumps_binary"), p.need_func(f"{SERDE}.loads_binary")
    rep.saw(w.qual, r.qual)
    fm_w, fm_r = set(), set()
    bad_prefix = []
    n_prefix = [0]

    def is_pack(t):
        return t.k == "call" and ((callee_ext(t) or "").startswith("struct.pack") or callee_name(t) in ("pack", "to_bytes"))

    class W(Client):
        def should_inline(self, it, fi, call):
            return fi.module is m and fi.name not in ("_to_binary_json", "to_json")

        def on_call(self, it, call):
            if (call.ext or "").startswith("struct.pack") and call.args:
                fm_w.add(show(one(call.args[0])))
            if call.name in ("append", "write") and call.callee.k == "attr" and len(call.args) == 1:
                t = one(call.args[0])
                st = call.st
                last = next((f[1] for f in st.facts if f[0] == "last"), None)
                st = st.without(lambda f: f[0] == "last")
                if not is_pack(t):
                    n_prefix[0] += 1
                    okk = last is not None and is_pack(last) and any(y.k == "call" and callee_ext(y) == "builtins.len" and y.a[1] and y.a[1][0] is t for y in subterms(last))
                    if not okk:
                        bad_prefix.append((it.where(call.node), show(t), show(last) if last else None))
                st = st.with_fact(("last", t))
                call.st = st
                r = it._method(call, st)
                return r if r is not None else it.opaque(call, st)
            return None

    class R(Client):
        def should_inline(self, it, fi, call):
            return fi.module is m and fi.name not in ("_from_binary_json", "from_json")

        def on_call(self, it, call):
            if (call.ext or "").startswith("struct.unpack") and call.args:
                fm_r.add(show(one(call.args[0])))
            return None

        def on_getitem(self, it, obj, idx, st, node, frame):
            i = one(idx)
            if i.k == "slice" and i.a[1] is not NONE:
                base_is_data = any(y.k == "param" for y in st.deps(obj))
                if base_is_data and i.a[1].k == "bin":
                    hi = i.a[1]
                    bounded = False
                    for t, tr in st.conds.items():
                        if t.k == "cmp" and t.a[0] == "<":
                            # not (len(data) < hi)
                            if tr is False and t.a[2] is hi and _is_len(t.a[1]):
                                bounded = True
                            if tr is True and t.a[1] is hi and _is_len(t.a[2]):
                                bounded = True
                    rep.check(bounded, "container", f"{r.name}: slice up to a decoded length is bounds-checked", it.where(node), f"slice [{show(i)}] is taken without checking it lies inside the buffer: truncated data is accepted")
            return None

    Engine(p, W()).run(w)
    Engine(p, R()).run(r)
    if n_prefix[0]:
        rep.check(not bad_prefix, "container", "each segment is preceded by its own length", w.where, f"bytes appended without their length directly before: {bad_prefix[:2]}")
    if fm_w or fm_r:
        rep.check(fm_w == fm_r, "container", "length formats agree", w.where, f"writer packs {sorted(fm_w)}, reader unpacks {sorted(fm_r)}")
    # add_segment: returns the position at which the bytes are stored
    bc = p.need_class("BinaryContext")
    add = p.need_method(bc, "add_segment")
    rep.saw(add.qual)
    good = [True]
    seen = [0]

    class A(Client):
        def on_call(self, it, call):
            if call.name == "append" and call.recv is not None:
                seen[0] += 1
                return [(V(NONE), call.st.with_fact("appended"))]
            if call.ext == "builtins.len" and call.args:
                return [(V(T("lenat", one(call.args[0]), "after" if "appended" in call.st.facts else "before")), call.st)]
            return None

    rets, _ = Engine(p, A()).run(add)
    for v, st in rets:
        t = one(v)
        ok = (t.k == "lenat" and t.a[1] == "before") or (t.k == "bin" and t.a[0] == "Sub" and t.a[1].k == "lenat" and t.a[1].a[1] == "after" and t.a[2] is C(1))
        rep.check(ok and "appended" in st.facts, "container", "add_segment returns the index of the added segment", add.where, f"returns {show(t)}")


def _is_len(t):
    return t.k == "call" and callee_ext(t) == "builtins.len"


# ------------------------------------------------------------------ graph
def graph_rule(p, rep, pairs):
    g = p.need_class("Graph", "edsl.graph")
    opc = p.need_class("Operation", "edsl.graph")
    w, r = p.need_method(g, "to_json"), p.need_method(g, "from_json")
    rep.saw(w.qual, r.qual)
    keep = set(pairs) | set(pairs.values())
    add = {n: p.need_method(g, n).qual for n in ("add_input", "add_op", "add_output", "add_value")}
    rec = {"add_input": [], "add_op": [], "add_output": [], "rename": [], "opname": []}
    selft = T("param", ("root", w.qual), w.params[0])

    dropped, placed = [], []

    def names_of(obj):
        return any(o.k == "attr" and o.a[1] == "values" for o in split(obj))

    class K(SerdeClient):
        def on_delitem(self, it, obj, idx, st, node, frame):
            if names_of(obj):
                dropped.append((innermost_loop(node, frame), st, it.where(node)))
            return st

        def on_setitem(self, it, obj, idx, val, st, node, frame):
            if names_of(obj):
                placed.append(innermost_loop(node, frame))
            return SerdeClient.on_setitem(self, it, obj, idx, val, st, node, frame)

        def should_inline(self, it, fi, call):
            if fi.qual in add.values() or fi.qual in keep or fi.name == "__init__":
                return False
            return fi.module is g.module

        def on_call(self, it, call):
            if call.name == "pop" and call.recv is not None and names_of(call.recv):
                dropped.append((innermost_loop(call.node, call.frame), call.st, call.where()))
            if call.target is not None and call.target.qual in add.values():
                rec.setdefault(call.target.name, []).append((call.bind(), call.st, it.where(call.node)))
            return None

        def on_setattr(self, it, obj, attr, val, st, node, frame):
            if attr == "name" and frame.func is not None:
                for o in split(obj):
                    kind = "opname" if o.k in ("item", "elem") and o.a[0].k == "attr" and o.a[0].a[1] == "operations" else "rename"
                    rec[kind].append((val, st, it.where(node)))
            return st

    eng = Engine(p, K(keep, lambda fi: False), step_budget=300000)
    rets, _ = eng.run(w)
    for v, st in rets:
        for t in split(v):
            Engine(p, K(keep, lambda fi: False), step_budget=300000).run(r, args={r.params[1]: V(t)}, st=st, self_cls=g)
    A = lambda b, n: T("attr", b, n)
    E = lambda b: T("elem", b)
    op = E(A(selft, "operations"))
    inp = E(A(selft, "inputs"))

    def expect(kind, field, target, judge_src):
        recs = rec.get(kind, [])
        if not recs:
            rep.bad("graph", f"{kind}:{field}", r.where, f"the reader never calls {kind}")
            return
        for b, st, where in recs:
            v = b.get(field) if isinstance(b, dict) else b
            inst = f"{kind}:{field}"
            if v is None:
                rep.bad("graph", inst, where, f"{field!r} is not passed: it is lost when a graph is read back")
                continue
            nf = NF(st, pairs, project=p)
            n = nf(v)
            bad = None
            for x in n:
                b0 = strip_all(x)
                if b0.k == "new" and b0.a[0] == "dict" and not st.slots(b0):
                    continue
                m = judge_src(b0, st, nf)
                if m:
                    bad = m
            rep.check(bad is None, "graph", inst, where, f"{field!r} is restored from {bad}")

    def is_(t):
        return lambda x, st, nf: None if x is t else show(x)

    def list_of(t):
        """list whose elements normalise to t"""

        def j(x, st, nf):
            if x.k == "new":
                c = st.slots(x).get("*")
                if c is not None:
                    for y in nf(c):
                        if strip_all(y) is not t:
                            return show(y)
                    return None
            if t.k == "elem" and x is t.a[0]:
                return None
            return show(x)

        return j

    def by_name(src):
        """values looked up by the written name"""

        def j(x, st, nf):
            if x.k == "new":
                c = st.slots(x).get("*")
                if c is None:
                    return show(x)
                for y in nf(c):
                    m = one_by_name(y, src)
                    if m:
                        return m
                return None
            return one_by_name(x, src)

        return j

    def one_by_name(y, src):
        if y.k == "item" and any(z.k == "attr" and z.a[1] == "values" for z in subterms(y.a[0])) and y.a[1] is A(src, "name"):
            return None
        return show(y)

    expect("add_input", "name", inp, is_(A(inp, "name")))
    expect("add_input", "type", inp, is_(A(inp, "type")))
    expect("add_op", "opcode", op, is_(A(op, "opcode")))
    expect("add_op", "inputs", op, by_name(E(A(op, "inputs"))))
    expect("add_op", "output_types", op, list_of(A(E(A(op, "outputs")), "type")))
    expect("add_op", "attrs", op, lambda x, st, nf: None if x is A(op, "attrs") else _dict_of(x, st, nf, A(op, "attrs")))
    expect("add_op", "regions", op, list_of(E(A(op, "regions"))))
    expect("add_output", "value", None, by_name(E(A(selft, "outputs"))))
    # names
    for kind, src in (("rename", A(E(A(op, "outputs")), "name")), ("opname", A(op, "name"))):
        if not rec[kind]:
            rep.bad("graph", kind, r.where, f"{'value' if kind == 'rename' else 'operation'} names are not restored")
        for v, st, where in rec[kind]:
            nf = NF(st, pairs, project=p)
            for x in nf(v):
                rep.check(strip_all(x) is src, "graph", kind, where, f"name restored from {show(x)}")
    fields = [f[0] for f in opc.own_fields()]
    covered = {"opcode", "inputs", "outputs", "attrs", "regions", "name"}
    for f in fields:
        rep.check(f in covered, "graph", f"Operation.{f}", opc.where, f"operation field {f!r} is not known to the serializer")
    # names given while reading never displace another value's name
    bad = [w for l, st, w in dropped if l is not None and l in placed and not any(t.k == "cmp" and t.a[0] in ("is", "==") and truth for t, truth in st.conds.items() if any(y.k == "attr" and y.a[1] == "values" for y in subterms(t, set())))]
    rep.check(not bad, "graph", "names-apart", bad[0] if bad else r.where, "values are renamed one by one: the name dropped for one value may be the one just given to another")
    gen_names(p, rep, g, r)
    # every sequence is iterated whole and in order
    for v, st in rets:
        for t in split(v):
            for y in st.deps(V(t)):
                if y.k == "new" and st.heap.get((y, "filtered")) is not None:
                    rep.bad("graph", "complete", w.where, "elements are filtered out while writing")
                if y.k == "call" and callee_ext(y) in ("builtins.sorted", "builtins.reversed", "builtins.set", "builtins.filter"):
                    rep.bad("graph", "complete", w.where, f"the order of {show(y)} is changed while writing")
    rep.ok("graph", "complete", w.where)


def innermost_loop(node, frame):
    """The loop statement whose body the node is in, across inlined helpers."""
    while frame is not None:
        if frame.func is not None and isinstance(node, ast.AST):
            best = None
            for n in ast.walk(frame.func.node):
                if isinstance(n, (ast.For, ast.While)) and any(y is node for b in n.body for y in ast.walk(b)):
                    if best is None or any(y is n for y in ast.walk(best)):
                        best = n
            if best is not None:
                return best
        node, frame = frame.site, frame.caller
    return None


def gen_names(p, rep, g, r):
    """A generated name never meets one that is taken: while a graph is read back, names that look generated are."""
    add = p.need_method(g, "add_value")
    if any(isinstance(n, ast.Attribute) and "counter" in n.attr and isinstance(n.ctx, ast.Store) for n in ast.walk(r.node)):
        return                          # the counter is set while reading
    calls = [(n, m, f) for n, m, f in all_nodes(p, ast.Call) if isinstance(n.func, ast.Attribute) and n.func.attr == "add_value" and f is not None and f.cls is g]
    if not any(len(n.args) < 2 and not n.keywords for n, m, f in calls):
        return                          # no value is added without a name

    class N(Client):
        loop_conds = True
        path_sensitive = True

        def on_cond(self, it, term, truth, st, node, frame):
            if term.k == "cmp" and term.a[0] == "in":
                # nothing is added between two tests of one name
                return None if ("tested", term, not truth) in st.facts else st.with_fact(("tested", term, truth))
            return st

        def should_inline(self, it, fi, call):
            return fi.cls is g and fi is not add

    name = next((a for a in add.params[1:] if "name" in a), None)
    if name is None:
        return
    rets, raises = Engine(p, N()).run(add, args={name: V(NONE_T)}, self_cls=g)
    rep.saw(add.qual)
    bad = not rets
    for exc, st in raises:
        if exc.k == "exc" and exc.a[0] == ("?",):
            continue                    # not raised here
        if any(f[0] == "tested" and f[2] and any(y.k == "attr" and y.a[1] == "values" for y in subterms(f[1], set())) for f in st.facts if isinstance(f, tuple)):
            bad = True
    for v, st in rets:
        if not any(t.k == "cmp" and t.a[0] == "in" and any(y.k == "attr" and y.a[1] == "values" for y in subterms(t, set())) for t in st.conds):
            bad = True
    rep.check(not bad, "graph", "names-free", add.where, "a generated name may be one that is already taken (a graph that was read back cannot be read or extended)")


NONE_T = C(None)


def _dict_of(x, st, nf, src):
    if x.k == "conv" and strip_all(x) is src:
        return None
    return show(x)


# ------------------------------------------------------------------ eq / hash
def eqhash_rule(p, rep):
    bt = p.need_class("BaseType", "edsl.typing")
    for c in [bt, *p.subclasses(bt)]:
        eq = p.find_method(c, "__eq__")
        if eq is None or c is bt:
            continue
        if c.name in ("ScalarType",):
            continue
        cm = CtorModel(p, c)
        mods = {k.module.name for k in p.mro(c)}

        class K(Client):
            max_states = 64

            def should_inline(self, it, fi, call):
                return fi.module.name in mods

        eng = Engine(p, K())
        s = T("param", ("root", eq.qual), eq.params[0])
        o = T("param", ("root", eq.qual), eq.params[1])
        eng.param_types[s] = c
        rets, _ = eng.run(eq, self_cls=c)
        rep.saw(eq.qual)
        compared_all = None
        for v, st in rets:
            for t in split(v):
                if t.k == "const" and not t.a[1]:
                    continue
                if t.k == "ext" and "NotImplemented" in t.a[0]:
                    continue
                cmps = set()
                for ct, tr in list(st.conds.items()) + [(t, True)]:
                    if tr is True:
                        for z in subterms(ct):
                            if z.k == "cmp" and z.a[0] in ("==", "is"):
                                a, b = z.a[1], z.a[2]
                                cmps |= _pairs_compared(a, b, s, o)
                compared_all = cmps if compared_all is None else compared_all & cmps
        if compared_all is None:
            raise AnalysisBroken(f"{eq.qual}: no return of a positive comparison")
        params = set()
        for a in compared_all:
            params |= cm.attr_params.get(a, set())
        for prm in cm.params:
            rep.check(prm in params, "eqhash", f"{c.qual}.__eq__:{prm}", eq.where, f"types differing only in {prm!r} compare equal")
        h = p.find_method(c, "__hash__")
        own = "__eq__" in c.methods
        if h is None or (own and "__hash__" not in c.methods and not c.is_dataclass):
            if own and "__hash__" not in c.methods:
                rep.bad("eqhash", f"{c.qual}.__hash__", c.where, "defines __eq__ without __hash__: instances become unhashable")
            continue
        eng = Engine(p, K())
        hs = T("param", ("root", h.qual), h.params[0])
        eng.param_types[hs] = c
        rets, _ = eng.run(h, self_cls=c)
        rep.saw(h.qual)
        for v, st in rets:
            deps = st.deps(v)
            attrs = {y.a[1] for y in deps if y.k == "attr" and y.a[0] is hs and y.a[1] in cm.attr_params}
            hp = set().union(*[cm.attr_params[a] for a in attrs]) if attrs else set()
            rep.check(hp <= params, "eqhash", f"{c.qual}.__hash__:fields", h.where, f"hash uses {sorted(hp - params)} which equality ignores: equal types hash differently")
            order = _order_sensitive(v, st, hs)
            rep.check(not order, "eqhash", f"{c.qual}.__hash__:order", h.where, f"hash depends on the insertion order of {order}, which equality ignores: equal types hash differently")
            ids = [y for y in deps if y.k == "call" and callee_ext(y) == "builtins.id"]
            rep.check(not ids, "eqhash", f"{c.qual}.__hash__:identity", h.where, "hash uses object identity")


def _pairs_compared(a, b, s, o):
    out = set()
    if a.k == "tup" and b.k == "tup" and len(a.a[0]) == len(b.a[0]):
        for x, y in zip(a.a[0], b.a[0]):
            out |= _pairs_compared(x, y, s, o)
        return out
    for x, y in ((a, b), (b, a)):
        if x.k == "attr" and x.a[0] is s and y is T("attr", o, x.a[1]):
            out.add(x.a[1])
    # wrapped on both sides alike: f(self.x) == f(other.x)
    if not out:
        ax = {z.a[1] for z in subterms(a) if z.k == "attr" and z.a[0] in (s, o)}
        bx = {z.a[1] for z in subterms(b) if z.k == "attr" and z.a[0] in (s, o)}
        if len(ax) == 1 and ax == bx and a.k == b.k == "call" and a.a[0] is b.a[0] and (a.a[0].k == "ext" and a.a[0].a[0] in ("builtins.tuple", "builtins.list", "builtins.dict")):
            out |= ax
    return out


def _order_sensitive(v, st, hs):
    """attr whose dict items enter the hash through an ordered sequence"""
    out = set()

    def walk(t, unordered):
        if isinstance(t, T):
            if t.k == "call":
                n = callee_ext(t) or ""
                u = unordered or n in ("builtins.frozenset", "builtins.set", "builtins.sorted")
                for x in t.a[1]:
                    walk(x, u)
                if recv_of(t) is not None:
                    walk(recv_of(t), u)
                return
            if t.k in ("ditems", "dkeys", "dvalues") and not unordered:
                out.add(show(t.a[0]))
                return
            if t.k == "new":
                for slot, val in st.slots(t).items():
                    if slot in ("*", "over") or isinstance(slot, tuple):
                        walk(one(val), unordered or t.a[0] == "set")
                return
            if t.k in ("elem", "dkey", "dval") :
                return
            for x in t.a:
                walk(x, unordered)
        elif isinstance(t, (tuple, frozenset)):
            for x in t:
                walk(x, unordered)

    for t in split(v):
        walk(t, False)
    return sorted(out)
