"""A symbolic model of the multi-party protocol libraries (mplang.libs.mpc).

Every protocol function is followed with symbolic ranks and inputs: local calls run their function at the named party,
moves (simp.shuffle_static) are recorded as messages, random draws are atoms of the party that drew them. What a party
can learn from the messages it receives is the closure of a small set of decomposition rules (what is structural, what a
mask hides, what a public permutation does not hide); operations that are not listed hide their arguments, so an alarm
is always a concrete way of computing the secret.
"""
from __future__ import annotations

import ast

from sa.engine import Client, Engine, C, T, V, one, show, split, subterms

LIB = "mplang.libs.mpc"
DIA = "mplang.dialects."
DRAWS = {"crypto.random_bytes", "crypto.random_bits", "crypto.random_tensor", "crypto.ec_random_scalar", "crypto.kem_keygen", "bfv.keygen", "phe.keygen"}
KEYGEN = {"crypto.kem_keygen": 0, "bfv.keygen": 1, "phe.keygen": 1}
# operations that move or re-represent their first argument (or all of them)
STRUCT = {"reshape", "flatten", "ravel", "view", "astype", "transpose", "expand_dims", "squeeze", "broadcast_to", "tile", "pad", "packbits", "unpackbits", "copy", "array", "asarray",
          "slice_tensor", "tobytes", "int64", "uint64", "uint8", "flip", "roll", "repeat", "dynamic_slice", "ec_point_to_bytes", "ec_bytes_to_point", "ec_scalar_from_int", "swapaxes", "moveaxis",
          "frombuffer", "getitem", "item", "encode", "T", "list", "tuple", "sorted", "argsort", "sort", "unique", "atleast_1d", "atleast_2d", "constant", "gather", "segment_sum_identity", "bitcast_convert_type", "permute"}
JOIN = {"concatenate", "concat", "stack", "hstack", "vstack", "column_stack"}
XOR = {"bitwise_xor", "logical_xor", "BitXor"}
SUM = {"Add", "Sub", "add", "subtract"}
SLICE = None


class N:
    """hash-consed expression"""
    __slots__ = ("op", "args", "_h", "_r")
    table: dict = {}

    def __new__(cls, op, *args):
        k = (op, args)
        x = cls.table.get(k)
        if x is None:
            x = object.__new__(cls)
            x.op, x.args, x._h, x._r = op, args, hash(k), None
            cls.table[k] = x
        return x

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        if self._r is None:
            self._r = self.spell()
        return self._r

    def spell(self):
        if self.op == "const":
            return str(self.args[0])[:20]
        if self.op == "param":
            return str(self.args[0])
        if self.op == "draw":
            return f"{self.args[0].split('.')[-1]}@{self.args[1]}"
        return f"{self.op}({', '.join(map(repr, self.args))[:160]})"


def sub(n, seen=None):
    seen = set() if seen is None else seen
    if n in seen:
        return
    seen.add(n)
    yield n
    for a in n.args:
        for x in a if isinstance(a, (tuple, frozenset)) else (a,):
            if isinstance(x, N):
                yield from sub(x, seen)


def xor(xs):
    out = {}
    for x in xs:
        for y in x.args[0] if x.op == "xor" else (x,):
            out[y] = out.get(y, 0) ^ 1
    r = frozenset(y for y, k in out.items() if k and not (y.op == "const" and y.args[0] in ("0", 0)))
    return N("const", "0") if not r else next(iter(r)) if len(r) == 1 else N("xor", r)


def total(xs):
    """signed sum as a multiset of (term, sign)"""
    out = {}
    for x, s in xs:
        for y, k in x.args[0] if x.op == "sum" else ((x, 1),):
            out[y] = out.get(y, 0) + s * k
    r = frozenset((y, k) for y, k in out.items() if k)
    if not r:
        return N("const", "0")
    if len(r) == 1:
        (y, k), = r
        if k == 1:
            return y
    return N("sum", r)


class Mpc(Client):
    exact = True
    max_states = 4
    max_depth = 16

    def __init__(self, p, root):
        self.p, self.root = p, root
        self.protocols = protocols(p)
        self.subcalls = []        # (protocol, {param: N}, where): other protocol functions, which are their own roots
        ann = {x.arg: ast.unparse(x.annotation) if x.annotation is not None else "" for x in [*root.node.args.posonlyargs, *root.node.args.args, *root.node.args.kwonlyargs]}
        self.data = {x for x, y in ann.items() if y not in ("int", "bool", "str", "float") and "Callable" not in y}
        self.party = []           # stack of the parties of the enclosing local calls
        self.msgs = []            # (dst N, src N, value N, where)
        self.pcalls = []          # (party N, where)
        self.owner = {}           # param/draw N -> party N
        self.made = {}            # returned N -> set of parties
        self.uses = []            # ec_mul(generator, draw): (draw T, loops at the use, where)
        self.drawn = {}           # draw T -> (kind, loops, where)
        self.expand = []          # (pcall serial, argument N, site, where)
        self.results = []         # (value N, where) of the local calls
        self.conds = []           # (condition N of a select, where)
        self.provided = []        # (value N, parameter, where): functions handed to a sub-protocol
        self.host = []            # host randomness at trace time
        self.hash_calls = []      # (call, where)
        self.loopfid = set()
        self.pure, self.states, self.purity, self.recs = {}, {}, {}, 0
        self.serial = 0
        self.ranks = set()
        self.notes = []

    # ---- engine hooks
    def should_inline(self, it, fi, call):
        m = fi.module.name
        return m.startswith(LIB) or fi.name == "<lambda>" or fi.parent is not None and m == self.root.module.name or m == DIA + "field" and not any(isinstance(x, ast.Attribute) and x.attr == "bind" for x in ast.walk(fi.node))

    def quiet_call(self, it, call):
        return True

    def known_type(self, it, t):
        return None

    def loops(self, it, node):
        """the loops (frame, node) a program point lies in"""
        out, f, n = [], it.frame, node
        while f is not None:
            if f.fid in self.loopfid:
                out.append((f.fid, "elementwise"))
            par = parents(f.func.node if f.func is not None else f.module.tree)
            x, inner = par.get(n), n
            while x is not None:
                if isinstance(x, (ast.For, ast.While)) and inner in x.body or isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                    out.append((f.fid, x))
                x, inner = par.get(x), x
            f, n = f.caller, f.site
        return frozenset(out)

    def rank(self, v, st):
        return self.deep(v, st)

    def on_call(self, it, call):
        st = call.st
        q = call.target.qual if call.target is not None else ""
        name = q[len(DIA):] if q.startswith(DIA) else ""
        w = it.where(call.node)
        if name == "simp.pcall_static" and len(call.args) >= 2:
            ps = it.literal_elems(call.args[0], st)
            who = N("parties", tuple(self.deep(v, st) for v in ps)) if ps is not None else N("parties?", self.deep(call.args[0], st))
            if ps is not None and len(ps) == 1:
                who = who.args[0][0]
            self.pcalls.append((who, w))
            for a in [*call.args[2:], *call.kwargs.values()]:
                self.own(self.deep(a, st), who)
            return self.apply(it, call.args[1], call.args[2:], call.kwargs, call, who)
        if q in self.protocols and q != self.root.qual:
            a = call.bind(call.target)
            for k, v in (a or {}).items():
                f = one(v)
                if f is not None and f.k in ("closure", "func") and self.p.functions.get(f.a[0]) is not None and not self.p.functions[f.a[0]].params:
                    self.party.append(N("const", k))
                    try:
                        for v2, s2 in it.call_term(f, [], {}, st, call.node):
                            self.provided.append((self.deep(v2, s2), k, w))
                    finally:
                        self.party.pop()
            self.subcalls.append((q, {k: self.deep(v, st) for k, v in a.items()} if a else {}, w))
            return [(V(T("subres", q, (it.frame.fid, call.site))), st)]
        c0 = one(call.callee) if getattr(call, "callee", None) is not None else None
        if isinstance(c0, T) and c0.k == "param" and self.party:
            t = T("draw", "provider", show_n(self.party[-1]), c0)
            self.owner[N("draw", "provider", show_n(self.party[-1]), t)] = self.party[-1]
            return [(V(t), st)]
        if name in ("simp.pcall", "simp.pcall_dynamic") and call.args:
            self.notes.append(f"{w}: {name} is not followed")
        if name == "simp.shuffle_static":
            a = call.bind(call.target)
            src, rt = a.get("src"), a.get("routing")
            val = self.deep(src, st)
            out = []
            for d, s in self.routing(it, rt, st):
                self.msgs.append((d, s, val, w, call.node))
                out.append(d)
            return [(V(T("moved", one(src), tuple(show_n(d) for d in out))), st)] if one(src) is not None else [(src, st)]
        if name in ("tensor.run_jax", "tensor.elementwise") and call.args:
            return self.apply(it, call.args[0], call.args[1:], {k: v for k, v in call.kwargs.items() if k != "symbolic_shapes"}, call, None, name == "tensor.elementwise")
        if call.ext in ("typing.cast",) and len(call.args) == 2:
            return [(call.args[1], st)]
        if call.ext and call.ext.startswith("jax.tree") and call.name in ("tree_map", "map") and len(call.args) == 2:
            xs = it.literal_elems(call.args[1], st)
            if xs is not None:
                outs, cur = [], [([], st)]
                for x in xs:
                    cur = [(acc + [one(v)], s2) for acc, s in cur for v, s2 in it.call_term(one(call.args[0]), [x], {}, s, call.node) if one(v) is not None][:8]
                return [(V(T("tup", tuple(acc))), s) for acc, s in cur] or None
            f = one(call.args[0])
            return it.call_term(f, [call.args[1]], {}, st, call.node) if f is not None else None
        if name in DRAWS:
            t = T("draw", name, show_n(self.party[-1]) if self.party else "trace", (it.frame.fid, call.site))
            self.drawn[t] = (name, self.loops(it, call.node), w, call.node)
            n = N("draw", name, show_n(self.party[-1]) if self.party else "trace", t)
            if self.party:
                self.owner[n] = self.party[-1]
            if name in KEYGEN:
                return [(V(T("tup", (T("item", t, C(0)), T("item", t, C(1))))), st)]
            return [(V(t), st)]
        if name == "crypto.ec_mul" and len(call.args) == 2:
            g, r = one(call.args[0]), one(call.args[1])
            if r is not None and r.k == "draw" and g is not None and g.k == "call" and show(g.a[0]).endswith("ec_generator"):
                self.uses.append((r, self.loops(it, call.node), w, call.node))
        if name == "crypto.select" and call.args:
            self.conds.append((self.deep(call.args[0], st), w))
        if name == "field.aes_expand" and call.args:
            self.expand.append((self.serial if self.party else None, self.deep(call.args[0], st), call.node, w))
        if call.ext and (call.ext.startswith(("secrets.", "numpy.random.", "random.", "jax.random.")) or call.ext in ("os.urandom", "uuid.uuid4", "time.time", "time.time_ns")):
            self.host.append((call, w))
        if call.ext == "jax.lax.scan" or call.ext == "jax.lax.fori_loop":
            return [(V(T("call", T("ext", call.ext), tuple(one(a) for a in call.args), (), call.site)), st)]
        return None

    def apply(self, it, fn, args, kwargs, call, who, loop=False):
        if who is not None:
            self.party.append(who)
            self.serial += 1
        out = []
        try:
            for f in split(fn):
                if f.k == "closure" or f.k == "func":
                    g = self.p.functions.get(f.a[0])
                    if who is None and g is not None and any(isinstance(x, (ast.For, ast.While)) and any(isinstance(y, (ast.For, ast.While)) and y is not x for y in ast.walk(x)) for x in ast.walk(g.node)):
                        # a local computation with nested loops: a function of its arguments
                        vs = [V(one(a)) for a in [*args, *kwargs.values()] if one(a) is not None]
                        out.append((V(T("call", T("ext", "local:" + g.qual), tuple(one(v) for v in vs), (), call.site)), call.st))
                        continue
                    if loop:
                        site = (it.frame.module.name, getattr(call.node, "lineno", 0), getattr(call.node, "col_offset", 0))
                        self.loopsites = getattr(self, "loopsites", set()) | {(f.a[0], site)}
                out += it.call_term(f, list(args), dict(kwargs), call.st, call.node)
        finally:
            if who is not None:
                self.party.pop()
        if who is not None:
            out = [(self.widen(v, s, call), s) for v, s in out]
            for v, s in out:
                n = self.deep(v, s)
                self.results.append((n, it.where(call.node)))
                for x in parts(n):
                    self.made.setdefault(x, set()).add(who)
        return out

    def widen(self, v, st, call):
        """a value too large to follow further becomes an uninterpreted function of what it is made from"""
        for t in split(v):
            if weight(t, st) > 400:
                self.notes.append(f"{self.root.name}: the result of a local call is not followed further")
                atoms = frozenset(x for x in subterms(t) if x.k in ("draw", "subres") or x.k == "param" and x.a[0] == ("root", self.root.qual))
                return V(T("wide", atoms, call.site))
        return v

    def own(self, n, who, depth=0):
        """a value handed to a local call belongs to the party that runs it"""
        if n.op == "param" and n.args[0] in self.data or n.op == "subres" or n.op == "item" and subres(n) is not None:
            self.owner.setdefault(n, who)
        elif n.op == "tup" and depth < 4:
            for x in n.args[0]:
                self.own(x, who, depth + 1)

    def routing(self, it, rt, st):
        t = one(rt)
        if t is not None and t.k == "new" and t.a[0] == "dict":
            out = []
            ks = st.heap.get((t, "keys"))
            if ks is not None and st.heap.get((t, "*")) is not None:
                for k in sorted(split(ks), key=show):
                    out.append((self.deep(V(k), st), self.deep(st.heap[(t, "*")], st)))
            for k, v in st.slots(t).items():
                if isinstance(k, tuple) and k[0] == "k":
                    kk = k[1]
                    out.append((self.deep(V(kk if isinstance(kk, T) else C(kk)), st), self.deep(v, st)))
                elif k == "**" or k == "*" and ks is None:
                    out.append((N("?"), self.deep(v, st)))
            return out
        return [(N("?"), N("?"))]

    # ---- expressions
    def deep(self, v, st, seen=()):
        if v is None:
            return N("?")
        if isinstance(v, T):
            ts = [v]
        else:
            ts = sorted(split(v), key=show)
        if len(ts) != 1:
            return N("phi", frozenset(self.deep(t, st, seen) for t in ts)) if ts else N("?")
        return self.node(ts[0], st, seen)

    def node(self, t, st, seen):
        if t in seen:
            self.recs += 1
            return N("rec")
        cache = self.pure if self.is_pure(t) else self.state_cache(st)
        n = cache.get(t)
        if n is None:
            before = self.recs
            n = self._node(t, st, seen)
            if self.recs == before:
                cache[t] = n
        return n

    def is_pure(self, t):
        r = self.purity.get(t)
        if r is None:
            self.purity[t] = True
            r = t.k != "new" and all(self.is_pure(x) for x in kids(t))
            self.purity[t] = r
        return r

    def state_cache(self, st):
        e = self.states.get(id(st))
        if e is None or e[0] is not st or e[1] != len(st.heap):
            if len(self.states) > 64:
                self.states.clear()
            e = self.states[id(st)] = (st, len(st.heap), {})
        return e[2]

    def _node(self, t, st, seen):
        s2 = (*seen, t) if t.k in ("new", "phi") else seen
        d = lambda x: self.deep(x, st, s2) if isinstance(x, (T, frozenset)) else N("const", repr(x))
        k = t.k
        if k == "const":
            return N("const", repr(t.a[-1]))
        if k == "param":
            return N("param", t.a[-1]) if t.a[0] == ("root", self.root.qual) else N("const", show(t))
        if k == "draw":
            return N("draw", t.a[0], t.a[1], t)
        if k == "wide":
            return N("wide", frozenset(d(x) for x in t.a[0]), t.a[1])
        if k == "subres":
            return N("subres", t.a[0], t)
        if k == "moved":
            return N("moved", d(t.a[0]), t.a[1])
        if k == "tup":
            return N("tup", tuple(d(x) for x in t.a[0]))
        if k == "phi":
            return N("phi", frozenset(d(x) for x in t.a[0]))
        if k == "new":
            sl = st.slots(t)
            xs = [(kk, v) for kk, v in sl.items() if kk != "exact" and kk != "init"]
            order = sorted(xs, key=lambda kv: repr(kv[0]))
            if t.a[0] in ("list", "set", "gen", "dict"):
                return N("tup", tuple(d(v) for _, v in order))
            return N("obj", t.a[0], tuple(d(v) for _, v in order))
        if k == "item":
            b = t.a[0]
            if b.k == "draw" and b.a[0] in KEYGEN:
                return N("key", d(b), t.a[1].a[-1] if t.a[1].k == "const" else "?")
            bn = d(b)
            return self.pick(bn, d(t.a[1]))
        if k in ("elem", "dvalues", "star", "rest", "index"):
            return N("item", d(t.a[0]), N("const", "*")) if isinstance(t.a[0], T) else N("?")
        if k == "attr":
            return N("item", d(t.a[0]), N("const", t.a[1])) if t.a[1] == "T" else N("meta", d(t.a[0]), t.a[1]) if isinstance(t.a[0], T) else N("?")
        if k == "bin":
            op, l, r = t.a[0], d(t.a[1]), d(t.a[2])
            if op in XOR:
                return xor([l, r])
            if op in ("Add", "Sub"):
                return total([(l, 1), (r, 1 if op == "Add" else -1)])
            if op in ("Mult", "BitAnd") and any(x.op == "const" and x.args[0] == "0" for x in (l, r)):
                return N("const", "0")
            return N("op", op, (l, r))
        if k == "slice":
            return N("slice", tuple(d(x) for x in t.a))
        if k == "call":
            return self.call_node(t, d)
        if k in ("ext", "func", "class", "mod", "modvar", "closure", "bound", "partial"):
            return N("const", show(t)[:60])
        if k in ("cmp", "isinst"):
            return N("op", k, tuple(d(x) for x in t.a if isinstance(x, T)))
        if k == "ifexp":
            return N("phi", frozenset(d(x) for x in t.a[1:]))
        return N("op", k, tuple(d(x) for x in t.a if isinstance(x, T)))

    def pick(self, b, i):
        if b.op == "moved":
            return N("moved", self.pick(b.args[0], i), b.args[1])
        if b.op == "tup" and i.op == "const":
            try:
                return b.args[0][int(i.args[0])]
            except (ValueError, IndexError):
                pass
        return N("item", b, i)

    def call_node(self, t, d):
        c, args, kwargs = t.a[0], t.a[1], t.a[2]
        name = show(c).split(".")[-1].split("(")[0]
        xs = [d(a) if a is not None else N("?") for a in args] + [d(v) if v is not None else N("?") for _, v in kwargs]
        if c.k == "attr":
            name = c.a[1]
            xs = [d(c.a[0])] + xs if not (c.a[0].k in ("ext", "mod")) else xs
        if c.k == "func":
            name = c.a[0].split(".")[-1]
            dom = c.a[0][len(DIA):].split(".")[0] if c.a[0].startswith(DIA) else ""
            if dom and name not in STRUCT | JOIN or dom in ("bfv", "phe") and name != "encode":
                return N("call", f"{dom}.{name}", tuple(xs))
        if c.k == "ext" and name in XOR and len(xs) == 2:
            return xor(xs)
        if c.k == "ext" and name in SUM and len(xs) == 2:
            return total([(xs[0], 1), (xs[1], -1 if name == "subtract" else 1)])
        if name in JOIN:
            return N("tup", (*xs[:1],)) if xs else N("?")
        if name in STRUCT:
            return N("struct", name, tuple(xs))
        return N("call", show(c)[:60] if c.k == "ext" else name, tuple(xs))


def weight(t, st):
    seen, todo = set(), [t]
    while todo and len(seen) <= 500:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo.extend(kids(x))
        if x.k == "new":
            for w in st.slots(x).values():
                if isinstance(w, frozenset):
                    todo.extend(w)
    return len(seen)


def local(n):
    while n.op == "item":
        n = n.args[0]
    return n.op == "wide" or n.op == "call" and n.args[0].startswith("local:")


def kids(t):
    todo = list(t.a)
    while todo:
        x = todo.pop()
        if isinstance(x, T):
            yield x
        elif isinstance(x, (tuple, frozenset)):
            todo.extend(x)


def subres(n):
    """the sub-protocol result a chain of selections starts from"""
    while n.op in ("item", "slice") and n.args:
        n = n.args[0] if isinstance(n.args[0], N) else n.args[0][0] if n.args[0] else N("?")
    return n if n.op == "subres" else None


_PROTO: dict = {}


def protocols(p):
    """the library functions that move data, directly or through another one"""
    if id(p) in _PROTO:
        return _PROTO[id(p)]
    uses = {}
    for q, fi in p.functions.items():
        if not fi.module.name.startswith(LIB + "."):
            continue
        top = fi
        while top.parent is not None:
            top = top.parent
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Call):
                r = p.resolve_expr(x.func, fi.module, fi)
                if r is not None and r[0] == "func":
                    uses.setdefault(top.qual, set()).add(r[1].qual)
    moving = {q for q, v in uses.items() if DIA + "simp.shuffle_static" in v}
    while True:
        new = {q for q, v in uses.items() if v & moving} - moving
        if not new:
            break
        moving |= new
    _PROTO[id(p)] = moving
    return moving


def show_n(n):
    return repr(n)


def parts(n):
    yield n
    if n.op == "tup":
        for x in n.args[0]:
            yield from parts(x)


_PARENTS: dict = {}


def parents(root):
    r = _PARENTS.get(id(root))
    if r is None or r[0] is not root:
        m = {}
        for x in ast.walk(root):
            for y in ast.iter_child_nodes(x):
                m[y] = x
        r = _PARENTS[id(root)] = (root, m)
    return r[1]


class Knowledge:
    """what a party can compute"""

    def __init__(self, party, owner, public=()):
        self.party, self.owner = party, owner
        self.k = {}               # N -> how it was obtained
        self.public = set(public)

    def known(self, n, depth=0):
        if n in self.k:
            return True
        if n.op in ("const", "?", "rec", "meta", "slice"):
            return n.op in ("const", "meta", "slice")
        if n.op == "param" and n not in self.owner:
            return True           # public sizes, ranks, flags
        if n.op in ("param", "draw", "subres") or n.op == "item" and subres(n) is not None:
            return self.owner.get(n) is self.party or n in self.public
        if n.op == "key":
            return self.known(n.args[0])
        if depth > 30:
            return False
        if n.op == "moved":
            return show_n(self.party) in n.args[1] or self.known(n.args[0], depth + 1)
        if n.op == "xor":
            return all(self.known(x, depth + 1) for x in n.args[0])
        if n.op == "sum":
            return all(self.known(x, depth + 1) for x, _ in n.args[0])
        if n.op == "phi":
            return all(self.known(x, depth + 1) for x in n.args[0])
        if n.op == "tup":
            return all(self.known(x, depth + 1) for x in n.args[0])
        if n.op in ("struct", "call", "op"):
            return all(self.known(x, depth + 1) for x in n.args[1])
        if n.op == "item":
            return self.known(n.args[0], depth + 1)
        return False

    def add(self, n, how):
        if n not in self.k:
            self.k[n] = how
            self.todo.append(n)

    def close(self, msgs):
        self.todo = []
        for n, how in msgs:
            self.add(n, how)
        for _ in range(6):
            before = len(self.k)
            for n in list(self.k):
                self.split(n, self.k[n])
            while self.todo:
                n = self.todo.pop()
                self.split(n, self.k[n])
            if len(self.k) == before:
                return

    def split(self, n, how):
        if n.op == "tup":
            for x in n.args[0]:
                self.add(x, how)
        elif n.op == "phi":
            for x in n.args[0]:
                self.add(x, how)
        elif n.op == "moved" or n.op == "item" and subres(n) is None and not local(n):
            self.add(n.args[0], how)
        elif n.op == "struct":
            if n.args[1]:
                self.add(n.args[1][0], how)
        elif n.op == "xor":
            un = [x for x in n.args[0] if not self.known(x)]
            if len(un) == 1:
                self.add(un[0], how + ", its mask known")
        elif n.op == "sum":
            un = [x for x, _ in n.args[0] if not self.known(x)]
            if len(un) == 1:
                self.add(un[0], how + ", its mask known")
        elif n.op == "call":
            f, a = n.args
            if f == "field.aes_expand" and a:
                self.add(a[0], how + ", by inverting the public permutation aes_expand")
            elif f in ("field.solve_okvs", "field.solve_okvs_opt") and len(a) >= 2:
                self.add(a[1], how + ", by decoding the table")
            elif f == "field.mul" and len(a) == 2 and self.known(a[0]) != self.known(a[1]):
                self.add(a[0] if self.known(a[1]) else a[1], how + ", by dividing by a known factor")
            elif f == "field.add" and len(a) == 2 and self.known(a[0]) != self.known(a[1]):
                self.add(a[0] if self.known(a[1]) else a[1], how + ", its mask known")
            elif f == "crypto.sym_encrypt" and len(a) >= 2 and self.known(a[0]):
                self.add(a[1], how + ", decrypted with a known key")
            elif f in ("bfv.encrypt", "phe.encrypt") and len(a) >= 2:
                pk = a[1]
                while pk.op == "moved":
                    pk = pk.args[0]
                if pk.op == "key" and (N("key", pk.args[0], 1) in self.k or self.known(pk.args[0])):
                    self.add(a[0], how + ", decrypted with a known key")


def roots(p):
    """top-level protocol functions: those that move data, directly or through other protocol functions, in some local function"""
    from rules.common import call_graph
    out = []
    for q in sorted(protocols(p)):
        out.append(p.functions[q])
    return out


def follow(p, fi, states=4):
    c = Mpc(p, fi)
    c.max_states = states
    it = Engine(p, c)
    rets, raises = it.run(fi)
    return c, it, rets
