"""C13: device placement never exposes a private value to another device in the clear.

The device layer is interpreted abstractly once per case: a small cluster with two devices of every kind is fixed, a
value is placed on one of them, and `put`, `device(...)` and the inference of devices are followed with an abstract
model of the party-level operations. The model tracks which party holds which *form* of the value: the clear value, one
secret share of it, a ciphertext under a key, key material, quotes. Every movement between parties is checked against
what the two devices allow.
"""
from __future__ import annotations

import ast

from rules.c12 import Build, Case, cval, is_case
from sa.engine import C, Engine, NONE, T, TRUE, V, one, show, split, subterms

API, CL = "mplang.libs.device.api", "mplang.libs.device.cluster"
DIA = "mplang.dialects."
RULES = {
    "clear": "no party outside the two devices, and no party of a protected target, ever sees the value in the clear",
    "session": "ciphertexts between an enclave and another device use a key both derive from an attested enclave key",
    "result": "a transfer ends with the value, in the target's form, on exactly the target's parties",
    "tag": "the result is tagged with the device that holds it",
    "refuse": "kinds without a protected transfer are refused",
    "run": "a function runs on the parties of its device, on arguments brought to that device",
    "infer": "an inferred device is the only device, or the only protected one; otherwise inference fails",
    "cache": "a cached session is reused only for the same pair of devices in the same context, in the same roles",
}
DEVICES = {"P0": ("ppu", (0,)), "P1": ("PPU", (1,)), "S0": ("SPU", (2, 3, 4)), "S1": ("SPU", (5, 6)), "T0": ("TEE", (7,)), "T1": ("tee", (8,)), "X0": ("GPU", (9,)), "M0": ("spu", (0, 1))}
KIND = {d: k.upper() for d, (k, _) in DEVICES.items()}
RANKS = {d: r for d, (_, r) in DEVICES.items()}
SUPPORTED = {("PPU", "PPU"), ("PPU", "SPU"), ("SPU", "PPU"), ("PPU", "TEE"), ("TEE", "PPU"), ("TEE", "SPU"), ("SPU", "TEE")}
TAG = "__device__"


def F(kind, *a):
    return T("form", kind, *a)


def mp(pairs):
    return T("mp", tuple(sorted(pairs, key=lambda x: x[0])))


def at(m, r):
    return next((f for k, f in m.a[0] if k == r), None)


def ranks(m):
    return tuple(k for k, _ in m.a[0])


def clear_in(f):
    """sources visible in the clear to whoever holds the form"""
    if not isinstance(f, T):
        return set()
    if f.k == "form":
        k = f.a[0]
        if k == "clear":
            return {f.a[1]}
        if k in ("share", "ct", "sk", "pk", "quote", "attested", "secret", "key", "secure", "garbage"):
            return set()
    out = set()
    for x in f.a:
        for y in x if isinstance(x, (tuple, frozenset)) else (x,):
            out |= clear_in(y)
    return out


def forms_in(f, kinds):
    return {x for x in subterms(f) if x.k == "form" and x.a[0] in kinds} if f.k != "form" or f.a[0] in kinds or f.a[0] == "computed" else set()


# ------------------------------------------------------------------ the model of party-level operations
class World(Case):
    exact = True
    max_states = 64
    max_depth = 14

    def __init__(self, p, tag_name):
        super().__init__(p, None)
        self.b = Build(p)
        self.n = 0
        self.tag = tag_name
        nodes, devs = {}, {}
        for r in range(10):
            nodes[r] = self.b.obj(CL + ".Node", name=f"node{r}", rank=r)
        for d, (k, rs) in DEVICES.items():
            members = self.container("list", [nodes[r] for r in rs])
            devs[d] = self.b.obj(CL + ".Device", name=d, kind=k, members=members, config=T("config", d))
        dev_dict, node_dict = self.container("dict", {d: t for d, t in devs.items()}), self.container("dict", {f"node{r}": t for r, t in nodes.items()})
        self.cluster = self.b.obj(CL + ".ClusterSpec", devices=dev_dict, nodes=node_dict, cluster_id="c")
        self.ctx = T("context", "current")
        self.inlab = False

    def container(self, kind, xs):
        self.b.n += 1
        o = T("new", kind, ("world", self.b.n))
        for k, v in xs.items() if isinstance(xs, dict) else enumerate(xs):
            self.b.st.heap[(o, ("k" if kind == "dict" else "i", k))] = V(v)
        self.b.st.heap[(o, "exact")] = V(TRUE)
        return o

    def value(self, dev, name):
        """a value living on a device"""
        x = F("clear", name)
        rs = RANKS[dev]
        m = mp([(r, F("share", x, i, len(rs), "given " + name)) for i, r in enumerate(rs)] if KIND[dev] == "SPU" else [(r, x) for r in rs])
        self.b.st.heap[(m, ("a", self.tag))] = V(C(dev))
        return m

    # ------- engine hooks
    def should_inline(self, it, fi, call):
        return fi.module.name.startswith("mplang.libs.device") or fi.name == "<lambda>"

    def quiet_call(self, it, call):
        return True

    def known_type(self, it, t):
        return None

    def fresh(self, what):
        self.n += 1
        return f"{what}{self.n}"

    def on_cond(self, it, t, truth, st, node, frame):
        if t.k == "isinst" and isinstance(t.a[0], T) and t.a[0].k in ("mp", "param", "config"):
            q = t.a[1]
            if t.a[0].k == "mp":
                return st if truth is any(x.endswith((".Object", ".InterpObject", ".TraceObject")) for x in q) else None
        if t.k == "cmp" and t.a[0] == "in" and is_cache(t.a[2]):
            return None if truth else st
        return super().on_cond(it, t, truth, st, node, frame)

    def on_getitem(self, it, obj, idx, st, node, frame):
        b, i = one(obj), one(idx)
        if is_cache(b):
            if isinstance(node, ast.Call):
                return [(V(NONE), st)]
            it.add_raise(T("exc", ("KeyError",), 0), st)
            return []
        if b is not None and b.k == "new" and i is not None:
            lit = it.literal_elems(obj, st) if b.a[0] != "dict" else None
            if lit is not None and i.k == "const" and isinstance(cval(i), int):
                try:
                    return [(lit[cval(i)], st)]
                except IndexError:
                    it.add_raise(T("exc", ("IndexError",), 0), st)
                    return []
            if lit is not None and i.k == "slice":
                try:
                    s = slice(*[cval(x) for x in i.a])
                    o, st = it._exact_obj("list", lit[s], node, st)
                    return [(V(o), st)]
                except (TypeError, AttributeError):
                    return None
            if b.a[0] == "dict" and (b, "exact") in st.heap and i.k == "const" and (b, ("k", cval(i))) not in st.heap and not isinstance(node, ast.Call):
                it.add_raise(T("exc", ("KeyError",), 0), st)
                return []
        if b is not None and b.k == "tup" and i is not None and i.k == "const" and isinstance(cval(i), int) and not -len(b.a[0]) <= cval(i) < len(b.a[0]):
            it.add_raise(T("exc", ("IndexError",), 0), st)
            return []
        return super().on_getitem(it, obj, idx, st, node, frame)

    def on_getattr(self, it, obj, attr, st, node, frame):
        b = one(obj)
        if b is not None and b.k == "context":
            return [(V(self.cluster), st)] if attr == "_cluster_spec" else None
        if b is not None and b.k == "mp" and (b, ("a", attr)) in st.heap:
            return [(st.heap[(b, ("a", attr))], st)]
        return super().on_getattr(it, obj, attr, st, node, frame)

    def on_call(self, it, call):
        st = call.st
        q = call.target.qual if call.target is not None else call.ext or ""
        a0 = one(call.args[0]) if call.args else None
        if call.ext in ("builtins.getattr", "builtins.hasattr", "builtins.setattr") and a0 is not None and a0.k == "mp" and len(call.args) >= 2:
            n = one(call.args[1])
            if n is not None and n.k == "const":
                slot = (a0, ("a", cval(n)))
                if call.name == "setattr":
                    st = st.copy()
                    st.heap[slot] = call.args[2]
                    return [(V(NONE), st)]
                if call.name == "hasattr":
                    return [(V(C(slot in st.heap)), st)] if cval(n) == self.tag else None
                if slot in st.heap:
                    return [(st.heap[slot], st)]
                if len(call.args) > 2 and cval(n) == self.tag:
                    return [(call.args[2], st)]
        if call.ext == "builtins.hasattr" and a0 is not None and (a0.k in ("const", "tup") or a0.k == "new" and a0.a[0] in ("list", "dict", "set", "gen")) and len(call.args) == 2 and one(call.args[1]) is C(self.tag):
            return [(V(C(False)), st)]
        if call.ext in ("builtins.hasattr", "builtins.getattr") and a0 is not None and a0.k == "attr" and a0.a[0].k == "mp" and a0.a[1] == "type" and len(call.args) >= 2:
            n = one(call.args[1])
            if n is not None and n.k == "const" and cval(n) in ("value_type", "parties"):
                return [(V(C(True) if call.name == "hasattr" else T("attr", a0, cval(n))), st)]
        if call.callee.k == "attr" and call.name in ("upper", "lower", "strip", "casefold") and not call.args:
            r = one(call.recv)
            if r is not None and r.k == "const" and isinstance(cval(r), str):
                return [(V(C(getattr(cval(r), call.name)())), st)]
        if call.ext == "builtins.str" and a0 is not None and a0.k == "const":
            return [(V(C(str(cval(a0)))), st)]
        if call.ext == "builtins.isinstance" and a0 is not None and a0.k == "mp":
            types = it._types_of_value(call.args[1], st)
            return [(V(C(any(x.endswith((".Object", ".InterpObject", ".TraceObject")) for x in types))), st)]
        if q == "mplang.edsl.context.find_context" or q.endswith(".get_current_context"):
            return [(V(self.ctx), st)]
        if call.ext and call.ext.startswith("jax.") and call.name in ("tree_map", "map") and len(call.args) >= 2:
            return [(V(t), s) for t, s in self.tmap(it, call.args[0], call.args[1], st, call.node)]
        if call.ext and call.ext.startswith("jax.") and call.name in ("tree_flatten", "flatten", "tree_leaves", "leaves"):
            ls = self.leaves(it, call.args[0], st)
            if ls is not None:
                o, st = it._exact_obj("list", [V(x) for x in ls], call.node, st)
                return [(V(o if call.name.endswith("leaves") else T("tup", (o, T("fresh", "treedef", 0)))), st)]
        if q == "functools.wraps":
            return None
        if q.startswith(DIA):
            r = self.dialect(it, call, q[len(DIA):], st)
            if r is not None:
                return r
        if call.callee.k == "userfn":
            return self.user(it, call, call.args, call.kwargs, False)
        return super().on_call(it, call)

    # ------- containers
    def parts(self, it, t, st):
        if t.k == "tup":
            return "tup", list(t.a[0])
        if t.k == "new" and t.a[0] in ("list", "gen", "set"):
            lit = it.literal_elems(V(t), st)
            if lit is not None and all(one(x) is not None for x in lit):
                return "list", [one(x) for x in lit]
        if t.k == "new" and t.a[0] == "dict":
            sl = st.slots(t)
            if all(k == "exact" or isinstance(k, tuple) and k[0] == "k" for k in sl):
                return "dict", {k[1]: one(v) for k, v in sl.items() if k != "exact"}
        return None, None

    def leaves(self, it, v, st):
        t = one(v) if not isinstance(v, T) else v
        if t is None:
            return None
        kind, xs = self.parts(it, t, st)
        if kind is None:
            return [] if t.k == "const" and cval(t) is None else None if t.k in ("star", "rest", "phi") else [t]
        out = []
        for x in xs.values() if kind == "dict" else xs:
            ls = self.leaves(it, x, st)
            if ls is None:
                return None
            out += ls
        return out

    def tmap(self, it, fn, tree, st, node):
        t = one(tree) if not isinstance(tree, T) else tree
        kind, xs = self.parts(it, t, st)
        if kind is None:
            if t.k == "const" and cval(t) is None:
                return [(t, st)]
            return [(one(v) if one(v) is not None else T("phi", frozenset(v)), s) for v, s in it.call_term(one(fn), [V(t)], {}, st, node)]
        items = list(xs.items()) if kind == "dict" else list(enumerate(xs))
        cur = [([], st)]
        for k, x in items:
            cur = [(acc + [(k, y)], s2) for acc, s in cur for y, s2 in self.tmap(it, fn, x, s, node)]
        out = []
        for acc, s in cur:
            out.append(self.make(it, kind, acc, s, node))
        return out

    def make(self, it, kind, items, st, node):
        if kind == "tup":
            return T("tup", tuple(v for _, v in items)), st
        if kind == "dict":
            o, st = it._exact_obj("dict", [], node, st)
            for k, v in items:
                st.heap[(o, ("k", k))] = V(v)
            return o, st
        return it._exact_obj("list", [V(v) for _, v in items], node, st)

    def localize(self, it, t, r, st, node, miss):
        if t.k == "mp":
            f = at(t, r)
            if f is None:
                miss.append(t)
                return t, st
            return f, st
        kind, xs = self.parts(it, t, st)
        if kind is None:
            return t, st
        items = []
        for k, x in xs.items() if kind == "dict" else enumerate(xs):
            y, st = self.localize(it, x, r, st, node, miss)
            items.append((k, y))
        return self.make(it, kind, items, st, node)

    def globalize(self, it, per, st, node):
        """{rank: local result} -> party-level result"""
        first = next(iter(per.values()))
        if first.k == "form":
            return mp([(r, f) for r, f in per.items()]), st
        kinds = {r: self.parts(it, f, st) for r, f in per.items()}
        kind, xs = kinds[next(iter(per))]
        if kind is None:
            if first.k == "const":
                return first, st
            return mp([(r, F("computed", f)) for r, f in per.items()]), st
        items = []
        for k in list(xs) if kind == "dict" else range(len(xs)):
            sub = {}
            for r in per:
                k2, x2 = kinds[r]
                if k2 is None or (k not in x2 if k2 == "dict" else k >= len(x2)):
                    return mp([(r, F("computed", f)) for r, f in per.items()]), st
                sub[r] = x2[k]
            y, st = self.globalize(it, sub, st, node)
            items.append((k, y))
        return self.make(it, "tup" if kind == "list" else kind, items, st, node)

    # ------- operations
    def unsure(self, it, call, st):
        t = T("call", call.callee, tuple(one(a) or T("phi", frozenset(a)) for a in call.args), tuple((k, one(v)) for k, v in call.kwargs.items()), call.site)
        return [(V(t), st.with_fact(("unsure", it.where(call.node), call.name)))]

    def dialect(self, it, call, name, st):
        node = call.node
        arg = lambda i, n: (lambda v: one(v) if v is not None else None)(call.arg(i, n))
        if name.startswith("simp."):
            op = name[5:]
            if op in ("pcall_static", "pcall"):
                return self.pcall(it, call, st)
            if op == "shuffle_static":
                m, routing = arg(0, "src"), arg(1, "routing")
                kind, xs = self.parts(it, routing, st) if routing is not None else (None, None)
                if m is None or m.k != "mp" or kind != "dict" or any(v is None or v.k != "const" for v in xs.values()):
                    return self.unsure(it, call, st)
                out = []
                for to, v in xs.items():
                    f = at(m, cval(v))
                    if f is None:
                        return self.reject(it, st)
                    if to != cval(v):
                        st = st.with_fact(("move", cval(v), to, f, it.where(node)))
                    out.append((to, f))
                return [(V(mp(out)), st)]
            if op == "converge":
                pairs = []
                for v in call.args:
                    m = one(v)
                    if m is None or m.k != "mp":
                        return self.unsure(it, call, st)
                    pairs += m.a[0]
                if len({r for r, _ in pairs}) != len(pairs):
                    return self.reject(it, st)
                return [(V(mp(pairs)), st)]
            if op == "constant":
                rs = self.parties(it, call.arg(0, "parties"), st)
                if rs is None:
                    return self.unsure(it, call, st)
                v = arg(1, "data")
                f = F("clear", "host") if v is None or v.k != "mp" else F("computed", v)
                return [(V(mp([(r, f) for r in rs])), st)]
            return self.unsure(it, call, st) if any(x.k == "mp" for v in call.args for t in split(v) for x in subterms(t)) else None
        x0, x1 = arg(0, ""), arg(1, "")
        form = lambda t, k: t is not None and t.k == "form" and t.a[0] in (k if isinstance(k, tuple) else (k,))
        bad = [(V(F("garbage", name)), st)]
        here = getattr(self, "rank", None)
        if name == "crypto.kem_keygen":
            i = self.fresh("key")
            return [(V(T("tup", (F("sk", i, here), F("pk", i, here)))), st)]
        if name == "tee.quote_gen":
            return [(V(F("quote", x0, here)), st)] if form(x0, "pk") else bad
        if name == "tee.attest":
            return [(V(F("attested", x0.a[1], x0.a[2], here)), st)] if form(x0, "quote") else bad
        if name == "crypto.kem_derive":
            pk = x1.a[1] if form(x1, "attested") else x1
            if not form(x0, "sk") or not form(pk, "pk"):
                return bad
            sec = F("secret", frozenset({(x0.a[1], x0.a[2]), (pk.a[1], pk.a[2])}))
            if form(x1, "attested"):
                st = st.with_fact(("attested", sec, pk.a[2], x1.a[2], here if x1.a[3] == here else None))
            return [(V(sec), st)]
        if name == "crypto.hkdf":
            return [(V(F("key", x0, arg(1, "info") or NONE)), st)] if form(x0, ("secret", "key")) else bad
        if name == "crypto.sym_encrypt":
            return [(V(F("ct", x0, x1)), st)] if form(x0, ("secret", "key")) and x1 is not None else bad
        if name == "crypto.sym_decrypt":
            return [(V(x1.a[2]), st)] if form(x1, "ct") and x1.a[1] is x0 else bad
        if name == "spu.make_shares":
            x, n = arg(1, "data"), call.arg(2, "count")
            n = cval(one(n)) if n is not None and one(n) is not None and one(n).k == "const" else None
            if not isinstance(n, int) or x is None:
                return self.unsure(it, call, st)
            i = self.fresh("shares")
            return [(V(T("tup", tuple(F("share", x, j, n, i) for j in range(n)))), st)]
        if name == "spu.reconstruct":
            kind, xs = self.parts(it, arg(1, "shares"), st) if arg(1, "shares") is not None else (None, None)
            if kind in (None, "dict") or not xs:
                return self.unsure(it, call, st)
            if all(form(x, "share") for x in xs) and len({(x.a[1], x.a[3], x.a[4]) for x in xs}) == 1 and {x.a[2] for x in xs} == set(range(xs[0].a[3])) and len(xs) == xs[0].a[3]:
                ok = [x.a[2] for x in xs] == list(range(len(xs)))
                return [(V(xs[0].a[1] if ok else F("garbage", "shares in another order")), st)]
            return bad
        if name == "tensor.jax_fn" and x0 is not None and x0.k == "userfn":
            return [(V(x0), st)]
        if name == "spu.run_jax":
            return self.user(it, call, call.args[2:], call.kwargs, True, one(call.args[1]) if len(call.args) > 1 else None)
        return None

    def reject(self, it, st):
        st = st.with_fact(("rejected", self.fresh("rejection")))
        it.add_raise(T("exc", ("TypeError",), 0), st)
        return []

    def parties(self, it, v, st):
        lit = it.literal_elems(v, st) if v is not None else None
        if lit is None or any(one(x) is None or one(x).k != "const" for x in lit):
            return None
        return [cval(one(x)) for x in lit]

    def pcall(self, it, call, st):
        fn = call.arg(1, "fn")
        rs = self.parties(it, call.arg(0, "parties"), st)
        if rs is None or fn is None or one(fn) is None or any(one(a) is not None and one(a).k in ("star", "rest") for a in call.args) or "**" in call.kwargs:
            return self.unsure(it, call, st)
        args, kw = call.args[2:], {k: v for k, v in call.kwargs.items() if k not in ("parties", "fn")}
        cur = [({}, st)]
        for r in rs:
            nxt = []
            for per, s in cur:
                miss, la, lk = [], [], {}
                for a in args:
                    y, s = self.localize(it, one(a) or T("phi", frozenset(a)), r, s, call.node, miss)
                    la.append(V(y))
                for k, a in kw.items():
                    y, s = self.localize(it, one(a) or T("phi", frozenset(a)), r, s, call.node, miss)
                    lk[k] = V(y)
                if miss:
                    return self.reject(it, s)
                old, self.rank = getattr(self, "rank", None), r
                try:
                    res = it.call_term(one(fn), la, lk, s, call.node)
                finally:
                    self.rank = old
                for v, s2 in res:
                    nxt.append(({**per, r: one(v) or T("phi", frozenset(v))}, s2))
            cur = nxt
        out = []
        for per, s in cur:
            if per:
                t, s = self.globalize(it, per, s, call.node)
                out.append((V(t), s))
        return out

    def user(self, it, call, args, kwargs, secure, fn=None):
        """the program's function is run on local arguments"""
        r = getattr(self, "rank", None)
        ls = []
        for a in [*args, *[v for k, v in kwargs.items() if k != "**"]]:
            xs = self.leaves(it, a, call.st)
            ls += xs if xs is not None else [T("unknown", 0)]
        st = call.st.with_fact(("user", r, tuple(ls), secure, it.where(call.node)))
        if "**" in kwargs or any(one(a) is not None and one(a).k in ("star", "rest") for a in args):
            st = st.with_fact(("unsure", it.where(call.node), "arguments"))
        return [(V(F("secure", "result") if secure else F("clear", "result")), st)]


def is_cache(t):
    return t is not None and t.k == "modvar" and str(t.a[0]).startswith("mplang.libs.device")


# ------------------------------------------------------------------ harness
def harness(p, text):
    """a caller of the device API, analysed in its module"""
    m = p.modules[API]
    from sa.project import FuncInfo

    node = ast.parse(text).body[0]
    return FuncInfo(API + ".<program>", node.name, node, m, None, None, [])


def follow(p, text, vals, tag, heap=None):
    w = World(p, tag)
    terms = {}
    for k, v in vals.items():
        terms[k] = V(w.value(*v)) if isinstance(v, tuple) else V(v) if isinstance(v, T) else V(C(v))
    for k, v in (heap or {}).items():
        w.b.st.heap[k] = v
    fi = harness(p, text)
    e = Engine(p, w)
    rets, raises = e.run(fi, args=terms, st=w.b.st)
    return w, terms, rets, raises


def tag_name(p):
    m = p.modules[API]
    vs = m.assigns.get("DEVICE_ATTR_NAME", [])
    return vs[0].value if len(vs) == 1 and isinstance(vs[0], ast.Constant) else TAG


def run(p, rep, tier):
    for k, v in RULES.items():
        rep.rule(k, v, 0)
    if API not in p.modules:
        rep.broken("device API module not found")
        return
    tag = tag_name(p)
    for q in (API + ".put", API + ".device"):
        if q not in p.functions:
            rep.notes.append(f"{q} not found; nothing analysed")
            return
    rep.saw(*[q for q, f in p.functions.items() if f.module.name == API])
    transfers(p, rep, tag)
    running(p, rep, tag)
    inferring(p, rep, tag)
    cache(p, rep)


def unsure_of(st):
    return sorted({f"{f[2]} at {f[1]}" for f in st.facts if isinstance(f, tuple) and f[0] == "unsure"})


def rejected(raises):
    """an operation is definitely given a value that its party does not hold"""
    return not any(unsure_of(s) for _, s in raises) and any(isinstance(f, tuple) and f[0] == "rejected" for _, s in raises for f in s.facts)


def moves_ok(frm, to, st):
    """-> [(rule, where, message)]"""
    bad = []
    fk, tk = KIND[frm], KIND[to]
    sees = set(RANKS[frm] if fk != "SPU" else ()) | set(RANKS[to] if tk != "SPU" else ())
    got = {}
    if fk == "SPU":
        n = len(RANKS[frm])
        for i, r in enumerate(RANKS[frm]):
            got.setdefault(r, set()).add(F("share", F("clear", "x"), i, n, "given x"))
    for f in sorted((f for f in st.facts if isinstance(f, tuple) and f[0] == "move"), key=lambda f: (f[4], f[1], f[2])):
        _, a, b, form, where = f
        src = clear_in(form)
        if "x" in src and not (fk == "PPU" and tk == "PPU" and b in RANKS[to]):
            whom = f"a party of the {tk} device" if b in RANKS[to] else f"party {b}, which is on neither device"
            bad.append(("clear", where, f"{fk} to {tk}: the value is sent in the clear to {whom}"))
        for x in subterms(form):
            if x.k == "form" and x.a[0] in ("sk", "secret", "key") and not inside_key(form, x):
                bad.append(("session", where, f"{fk} to {tk}: {'a private key' if x.a[0] == 'sk' else 'a session key'} is sent from party {a} to party {b}"))
        if form.k == "form" and form.a[0] == "ct" and clear_in(form.a[2]):
            msg = key_ok(form.a[1], frm, to, st)
            if msg:
                bad.append(("session", where, f"{fk} to {tk}: {msg}"))
        for x in forms_in(form, ("share",)):
            got.setdefault(b, set()).add(x)
            if len(got[b]) > 1 and b not in sees:
                ids = {s.a[2] for s in got[b] if (s.a[1], s.a[3], s.a[4]) == (x.a[1], x.a[3], x.a[4])}
                if len(ids) == x.a[3]:
                    bad.append(("clear", where, f"{fk} to {tk}: party {b} receives every share of the value"))
    return bad


def inside_key(form, x):
    """x only occurs as the key of a ciphertext in form"""
    if form is x:
        return False
    if form.k == "form" and form.a[0] == "ct":
        return inside_key(form.a[2], x) if isinstance(form.a[2], T) else True
    if form.k == "form" and form.a[0] in ("quote", "attested", "pk", "share", "clear"):
        return True
    return not any(isinstance(y, T) and x in set(subterms(y)) and not inside_key(y, x) for y in form.a)


def key_ok(key, frm, to, st):
    sec = key
    while sec.k == "form" and sec.a[0] == "key":
        sec = sec.a[1]
    if sec.k != "form" or sec.a[0] != "secret":
        return "the ciphertext's key is not a session key of the two devices"
    tee, other = (to, frm) if KIND[to] == "TEE" else (frm, to)
    if {r for _, r in sec.a[1]} != {RANKS[tee][0], RANKS[other][0]}:
        return "the session key is not shared by exactly the two devices"
    att = [f for f in st.facts if isinstance(f, tuple) and f[0] == "attested" and f[1] is sec]
    if not any(f[2] == f[3] == RANKS[tee][0] and f[4] == RANKS[other][0] for f in att):
        return "the session key is not derived from an enclave key that the other device attested"
    return None


def transfers(p, rep, tag):
    names = [d for d in DEVICES if d not in ("M0",)]
    done = {}
    for frm in names:
        for to in names:
            pair = f"{KIND[frm]} to {KIND[to]}" if frm != to else f"{KIND[frm]} to itself"
            w, terms, rets, raises = follow(p, "def program(to, x):\n    return put(to, x)", {"to": to, "x": (frm, "x")}, tag)
            x = one(terms["x"])
            probs, unsure = [], []
            for v, st in rets:
                u = unsure_of(st)
                for r, where, msg in moves_ok(frm, to, st):
                    probs.append((r, where, msg))
                if frm != to and (KIND[frm], KIND[to]) not in SUPPORTED and not u:
                    if "GPU" in (KIND[frm], KIND[to]):
                        probs.append(("refuse", p.functions[API + ".put"].where, f"{pair}: a value is transferred although the device kind is unknown"))
                    elif not any(isinstance(f, tuple) and f[0] == "move" for f in st.facts):
                        probs.append(("refuse", p.functions[API + ".put"].where, f"{pair}: no protected transfer is defined, yet the value is relabelled"))
                if u:
                    unsure += u
                    continue
                m = one(v)
                if m is None or m.k != "mp":
                    unsure.append(f"{pair}: result {show(m) if m is not None else v}")
                    continue
                t = st.heap.get((m, ("a", w.tag)))
                if t is None or one(t) is not None and one(t).k == "const" and cval(one(t)) != to:
                    probs.append(("tag", p.functions[API + ".put"].where, f"{pair}: the result is tagged with {cval(one(t)) if t is not None else 'no device'} instead of {to}"))
                if frm == to:
                    if m is not x and any(isinstance(f, tuple) and f[0] == "move" for f in st.facts):
                        probs.append(("result", p.functions[API + ".put"].where, f"{pair}: the value is moved although it is in place"))
                    continue
                if ranks(m) != RANKS[to]:
                    probs.append(("result", p.functions[API + ".put"].where, f"{pair}: the result is held by parties {ranks(m)} instead of {RANKS[to]}"))
                    continue
                for i, r in enumerate(RANKS[to]):
                    f = at(m, r)
                    if f.k == "form" and f.a[0] == "computed":
                        unsure.append(f"{pair}: {show(f)}")
                    elif KIND[to] == "SPU":
                        good = f.k == "form" and f.a[0] == "share" and f.a[1] is F("clear", "x") and f.a[2] == i and f.a[3] == len(RANKS[to])
                        if not good:
                            probs.append(("result", p.functions[API + ".put"].where, f"{pair}: party {i} of the secure device ends with {describe(f)} instead of share {i}"))
                            break
                        if len({at(m, k).a[4] for k in RANKS[to]}) != 1:
                            probs.append(("result", p.functions[API + ".put"].where, f"{pair}: the parties end with shares of different sharings"))
                            break
                    elif f is not F("clear", "x"):
                        probs.append(("result", p.functions[API + ".put"].where, f"{pair}: the target ends with {describe(f)} instead of the value"))
            d = done.setdefault(pair, {"probs": [], "unsure": [], "rets": 0, "raises": 0, "rejected": True})
            d["probs"] += probs
            d["unsure"] += unsure
            d["rets"] += len(rets)
            d["raises"] += len(raises)
            d["rejected"] = d["rejected"] and rejected(raises)
            d["kinds"] = (KIND[frm], KIND[to], frm == to)
    for pair, d in done.items():
        fk, tk, same = d["kinds"]
        rules = ["tag", "result"] if d["rets"] else []
        if not same and d["rets"]:
            rules.append("clear")
            if "TEE" in (fk, tk) and "SPU" not in (fk, tk):
                rules.append("session")
        if not same and (fk, tk) not in SUPPORTED:
            rules = ["refuse"] + (rules if any(r in ("clear", "session") for r, _, _ in d["probs"]) else [])
        if not d["rets"] and (same or (fk, tk) in SUPPORTED) and d["rejected"]:
            rep.bad("result", pair, p.functions[API + ".put"].where, f"{pair}: the transfer always fails: an operation is given a value its party does not hold")
            continue
        if not d["rets"] and (same or (fk, tk) in SUPPORTED):
            rep.notes.append(f"{pair}: no completing path" + (f" ({d['unsure'][0]})" if d["unsure"] else ""))
            continue
        for r in dict.fromkeys([*rules, *[r for r, _, _ in d["probs"]]]):
            mine = [(w, m) for k, w, m in d["probs"] if k == r]
            if mine:
                rep.bad(r, pair, mine[0][0], mine[0][1])
            elif d["unsure"]:
                rep.notes.append(f"{pair}: {r} undecided: {d['unsure'][0]}")
            else:
                rep.ok(r, pair, f"{d['rets']} completing path(s)")


def describe(f):
    return {"clear": "the clear value", "share": "a share" + (f" {f.a[2]} of {f.a[3]}" if f.k == "form" and f.a[0] == "share" else ""), "ct": "a ciphertext", "garbage": f"a meaningless result of {f.a[1]}" if f.k == "form" and f.a[0] == "garbage" else ""}.get(f.a[0] if f.k == "form" else "", show(f))


# ------------------------------------------------------------------ running functions
def ran(st):
    return [f for f in st.facts if isinstance(f, tuple) and f[0] == "user"]


def proper(form, dev, r):
    """the form a value of this device must have at party r"""
    if KIND[dev] == "SPU":
        return form.k == "form" and (form.a[0] == "share" and form.a[2] == RANKS[dev].index(r) and form.a[3] == len(RANKS[dev]) or form.a[0] == "secure")
    return form.k == "form" and form.a[0] == "clear"


def running(p, rep, tag):
    where = p.functions[API + ".device"].where
    fn = T("userfn", "program")
    for dev in ("P0", "P1", "S0", "T0"):
        for frm in ("P0", "P1", "S0", "T0", "M0"):
            if frm != dev and (KIND[frm], KIND[dev]) not in SUPPORTED:
                continue
            for auto, via in ((True, ""), (True, ".jax"), (False, "")):
                heap = {} if auto else {(T("mod", API), ("a", "g_auto_trans")): V(C(False))}
                inst = f"{KIND[dev]} function, argument from {'itself' if frm == dev else ('a shared-party ' if frm == 'M0' else '') + KIND[frm]}" + ("" if auto else ", transfers off") + (", through jax" if via else "")
                w, terms, rets, raises = follow(p, "def program(dev, fn, x, y):\n    return device(dev)" + via + "(fn)(x, [y], k=(x, {'a': y}))", {"dev": dev, "fn": fn, "x": (frm, "x"), "y": (frm, "y")}, tag, heap)
                probs, unsure = [], []
                for v, st in rets:
                    us = ran(st)
                    u = unsure_of(st)
                    if {f[1] for f in us} - set(RANKS[dev]):
                        probs.append(f"it runs on parties {sorted({f[1] for f in us})}, the device has {list(RANKS[dev])}")
                    for f in us:
                        if KIND[dev] == "SPU" and not f[3]:
                            probs.append("it runs outside the secure runtime, directly on the shares")
                        for x in f[2]:
                            if x.k == "unknown" or any(y.k == "form" and y.a[0] == "computed" for y in subterms(x)):
                                unsure.append("arguments")
                            elif x.k in ("form", "mp") and not proper(x, dev, f[1]):
                                probs.append(f"it runs on {describe(x)} of a value that lives on {frm}")
                        if not u and {s for x in f[2] for s in ({"x", "y"} & names(x))} != {"x", "y"}:
                            unsure.append("arguments not recognised")
                    if u:
                        unsure += u
                        continue
                    if us and {f[1] for f in us} != set(RANKS[dev]):
                        probs.append(f"it runs on parties {sorted({f[1] for f in us})}, the device has {list(RANKS[dev])}")
                    m = one(v)
                    t = st.heap.get((m, ("a", w.tag))) if m is not None and m.k == "mp" else None
                    if m is None or m.k != "mp":
                        unsure.append("result " + (show(m) if m is not None else "?"))
                    elif t is None or cval(one(t)) != dev:
                        rep.bad("tag", inst, where, f"the result of a function on {dev} is tagged with {cval(one(t)) if t is not None else 'no device'}")
                if probs:
                    rep.bad("run", inst, where, f"device('{dev}') runs a function although {probs[0]}" if "value that lives" in probs[0] else f"device('{dev}'): {probs[0]}")
                elif unsure:
                    rep.notes.append(f"{inst}: undecided: {unsure[0]}")
                elif not rets and auto and rejected(raises):
                    rep.bad("run", inst, where, f"device('{dev}') always fails: a party is given a value it does not hold")
                elif not rets and auto:
                    rep.notes.append(f"{inst}: no completing path")
                else:
                    rep.ok("run", inst, f"{len(rets)} completing path(s)" if rets else "refused")
    for dev in ("X0", "unknown"):
        w, terms, rets, raises = follow(p, "def program(dev, fn, x):\n    return device(dev)(fn)(x)", {"dev": dev, "fn": fn, "x": ("P0", "x")}, tag)
        bad = [st for _, st in rets if ran(st)]
        w, terms, rets, raises = follow(p, "def program(dev, fn, x):\n    return device(dev)(fn)(x)", {"dev": dev, "fn": fn, "x": C(1)}, tag)
        bad += [st for _, st in rets if ran(st)]
        rep.check(not bad, "run", "unknown device" if dev == "unknown" else "unknown device kind", where, "a function runs on " + ("a device that is not in the cluster" if dev == "unknown" else "a device of unknown kind"))


def names(x):
    return {y.a[1] for y in subterms(x) if y.k == "form" and y.a[0] == "clear"}


def exc_name(e):
    return e.a[0][0] if e.k == "exc" and e.a[0] else "?"


INFER = [(("P0",), "P0"), (("S0",), "S0"), (("T0",), "T0"), (("P0", "P1"), None), (("P0", "S0"), "S0"), (("S0", "P0"), "S0"), (("P0", "T0"), "T0"), (("P0", "P1", "S0"), "S0"), (("S0", "T0"), None), (("S0", "S1"), None), (("P0", "S0", "T0"), None), (("P0", "P1", "T1"), "T1"), (("S1", "P1"), "S1")]


def inferring(p, rep, tag):
    where = p.functions[API + ".device"].where
    fn = T("userfn", "program")
    for devs, want in INFER:
        args = ", ".join(f"x{i}" for i in range(len(devs)))
        vals = {"fn": fn, **{f"x{i}": (d, f"x{i}") for i, d in enumerate(devs)}}
        call = f"x0, k=[{', '.join(f'x{i}' for i in range(1, len(devs)))}]" if len(devs) > 1 else "x0"
        w, terms, rets, raises = follow(p, f"def program(fn, {args}):\n    return device()(fn)({call})", vals, tag)
        inst = " and ".join(KIND[d] for d in devs)
        probs, unsure = [], []
        for v, st in rets:
            if unsure_of(st):
                unsure += unsure_of(st)
                continue
            where_ran = tuple(sorted({f[1] for f in ran(st)}))
            if not where_ran:
                continue
            if want is None:
                probs.append(f"a function of values on {', '.join(devs)} runs on parties {list(where_ran)} instead of being refused")
            elif where_ran != RANKS[want]:
                probs.append(f"a function of values on {', '.join(devs)} runs on parties {list(where_ran)} instead of on {want}")
        if probs:
            rep.bad("infer", inst, where, probs[0])
        elif want is not None and not rets and not unsure and raises and all(str(exc_name(e)).endswith("DeviceInferenceError") for e, s in raises if exc_name(e) not in ("ImportError", "LookupError", "RuntimeError", "?")) and any(str(exc_name(e)).endswith("DeviceInferenceError") for e, _ in raises):
            rep.bad("infer", inst, where, f"a function of values on {', '.join(devs)} is refused instead of running on {want}")
        elif unsure or (want is not None and not rets):
            rep.notes.append(f"inference for {inst}: undecided" + (f": {unsure[0]}" if unsure else ""))
        else:
            rep.ok("infer", inst, want or "refused")


# ------------------------------------------------------------------ the session cache
class CacheWorld(World):
    """the session function with an arbitrary cached entry"""

    def __init__(self, p, tag):
        super().__init__(p, tag)
        self.stores, self.loads = [], []

    def on_cond(self, it, t, truth, st, node, frame):
        if t.k == "cmp" and t.a[0] == "in" and is_cache(t.a[2]):
            return st
        return super().on_cond(it, t, truth, st, node, frame)

    def on_getitem(self, it, obj, idx, st, node, frame):
        b = one(obj)
        if is_cache(b):
            self.loads.append((one(idx), it.where(node)))
            return [(V(T("cached", one(idx))), st)]
        return super().on_getitem(it, obj, idx, st, node, frame)

    def on_setitem(self, it, obj, idx, val, st, node, frame):
        if is_cache(one(obj)):
            self.stores.append((one(idx), val, st.copy(), it.where(node)))
        return st

    def on_call(self, it, call):
        if call.ext == "builtins.id" and call.args:
            return [(V(T("id", one(call.args[0]))), call.st)]
        return super().on_call(it, call)


def cache(p, rep):
    m = p.modules[API]
    users = [f for f in p.functions.values() if f.module is m and any(isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in m.assigns and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)) and f.cls is None]
    if not users:
        rep.ok("cache", "session cache", "no module-level cache")
        return
    for fi in users:
        w = CacheWorld(p, tag_name(p))
        devs = {}
        for k in fi.params:
            devs[k] = V(T("param", ("root", fi.qual), k))
        e = Engine(p, w)
        rank_params = [k for k in fi.params if "rank" in k]
        args = {k: V(C(n)) for n, k in enumerate(rank_params)}
        rets, _ = e.run(fi, args=args, st=w.b.st)
        names = [k for k in fi.params if k not in rank_params]
        hit = [(v, st) for v, st in rets if any(x.k == "cached" for t in split(v) for x in subterms(t))]
        if not w.stores:
            rep.notes.append(f"{fi.qual}: stores nothing recognisable in its cache")
            continue
        if not hit:
            rep.ok("cache", fi.name, "cached entries are never returned")
            continue
        bad = unsure = None
        for v, st in hit:
            cached = next(x for t in split(v) for x in subterms(t) if x.k == "cached")
            key = cached.a[0]
            d = set(subterms(key)) | set(st.deps(V(key)))
            for k in names:
                if T("param", ("root", fi.qual), k) not in d:
                    # the key may use the ranks instead of the device names
                    bad = bad or (fi.where, f"the cache key does not contain `{k}`: a session with one device is reused for another")
            fresh = False
            for t, b in st.conds.items():
                if b is True and t.k == "cmp" and t.a[0] in ("==", "is"):
                    d = set(subterms(t)) | set(st.deps(V(t)))
                    if any(x.k == "cached" for x in d) and w.ctx in d:
                        fresh = True
            if not fresh and w.ctx not in (set(subterms(key)) | set(st.deps(V(key)))):
                bad = bad or (fi.where, "a cached session is returned without checking that it belongs to the current context")
            # roles
            got = one(v)
            for _, val, s, where in w.stores:
                sv = one(val)
                if got is not None and got.k == "tup" and sv is not None and sv.k == "tup":
                    for i, x in enumerate(got.a[0]):
                        if x.k == "item" and x.a[0].k == "cached" and x.a[1].k == "const" and isinstance(cval(x.a[1]), int) and cval(x.a[1]) < len(sv.a[0]):
                            stored = sv.a[0][cval(x.a[1])]
                            for v2, s2 in rets:
                                f = one(v2)
                                if (v2, s2) not in hit and f is not None and f.k == "tup" and i < len(f.a[0]) and f.a[0][i].k == "mp" and stored.k == "mp" and ranks(f.a[0][i]) != ranks(stored):
                                    bad = bad or (where, "the cached session returns its keys in another order than a new session")
        if bad:
            rep.bad("cache", fi.name, *bad)
        elif unsure:
            rep.notes.append(f"{fi.name}: {unsure}")
        else:
            rep.ok("cache", fi.name, f"{len(hit)} returning path(s) with a cached session, {len(w.stores)} store(s)")

