"""C16: secret key material never travels in public objects.

Key-producing operations are followed symbolically (sa.engine).  A value is *secret-bearing* when it is made of a
generated key pair, or of the operand that carries the private role, without passing through one of the derivations
that leave the secret behind (public part, serialisation without the secret, a copy of the keys without the private one).
"""
from __future__ import annotations

import ast

from rules.c15 import GENERATORS, Flow, ext_of, impls_of
from rules.common import impl_table, where
from rules.opmodel import definitions
from sa.engine import Client, Engine, C, T, V, one, show, split, subterms

RULES = {
    "public": "public results of key operations are not made of the secret they were derived from",
    "order": "key generation returns its public and private parts in declared order, as distinct objects",
    "serialized": "the serialized form of a public object never contains the secret key",
    "decrypts": "decryption takes the secret from the operand with the private role only",
    "ciphertext": "ciphertexts and evaluation results do not carry the secret key",
}
BACKENDS = "mplang.backends."
# operations and the operand that carries the private role
PRIVATE = {"bfv.make_relin_keys": (0,), "bfv.make_galois_keys": (0,), "bfv.decrypt": (1,), "phe.decrypt": (1,), "crypto.kem_derive": (0,)}
DECRYPT = {"bfv.decrypt": 1, "phe.decrypt": 1}
# methods and library calls whose result does not contain the secret of what they are applied to
CLEAN = {"public_key", "public_bytes", "public_bytes_raw", "public_numbers", "relin_keys", "galois_keys", "has_secret_key", "seal_context", "parms", "parms_id", "encrypt", "is_private", "global_scale",
         "algorithm_name", "plaintext_modulo", "precision", "key_size", "suite", "__class__", "__name__"}
SECRETSLOTS = {"secret_key", "private_key", "sk", "decryptor"}


class Keys(Flow):
    """Flow through the constructors of wrapped values as well"""

    def __init__(self, p, fi):
        super().__init__(p, fi, ("mplang.runtime.value",))
        self.calls2 = []

    def on_call(self, it, call):
        r = super().on_call(it, call)
        self.calls2.append((call, it.where(call.node), call.st))
        if r is not None:
            return r
        rv = one(call.recv) if call.recv is not None else None
        if call.name == "make_context_public" and rv is not None:
            return [(V(C(None)), call.st.with_fact(("scrubbed", rv)))]
        if call.name in ("pop", "__delitem__") and call.args and one(call.args[0]) is not None and rv is not None:
            k = one(call.args[0])
            if k.k == "const" and isinstance(k.a[1], str) and ("private" in k.a[1] or "secret" in k.a[1]):
                return [(V(T("call", T("ext", "removed"), (rv,), (), call.site)), call.st.with_fact(("scrubbed", rv)))]
        return None

    def on_delitem(self, it, obj, idx, st, *rest):
        o, k = one(obj), one(idx)
        if o is not None and k is not None and private_name(k):
            return st.with_fact(("scrubbed", o))
        return st

    def on_setitem(self, it, obj, idx, val, st, *rest):
        # an entry copied under a name known not to be the private one
        o, k = one(obj), one(idx)
        if k is not None and private_name(k):
            return st.without(lambda f: f == ("scrubbed", o))
        if o is not None and k is not None and any(c.k == "cmp" and c.a[0] == "==" and k in c.a[1:] and (truth is False and any(private_name(x) for x in c.a[1:]) or truth is True and any(x.k == "const" and not private_name(x) for x in c.a[1:])) for c, truth in st.conds.items()):
            return st.with_fact(("scrubbed", o))
        return st

    def on_cond(self, it, term, truth, st, node, frame):
        st = super().on_cond(it, term, truth, st, node, frame)
        if st is not None and truth is False and term.k == "cmp" and term.a[0] == "in" and private_name(term.a[1]):
            return st.with_fact(("scrubbed", term.a[2]))
        return st


def private_name(k):
    return k.k == "const" and isinstance(k.a[1], str) and ("private" in k.a[1] or "secret" in k.a[1])


class Bearing:
    """decides whether a value carries the secret"""

    def __init__(self, p, st, private=(), globals_=()):
        self.p, self.st, self.private, self.globals, self.generators = p, st, set(private), set(globals_), True
        self.busy = set()

    def value(self, v):
        for t in split(v):
            r = self.term(t)
            if r is not None:
                return r
        return None

    def term(self, t):
        """None, or the term that brings the secret in"""
        if t in self.private:
            return t
        if t in self.busy:
            return None
        self.busy.add(t)
        try:
            return self._term(t)
        finally:
            self.busy.discard(t)

    def _term(self, t):
        k = t.k
        if k == "modvar" and t.a[:2] in self.globals:
            return t
        if k in ("const", "ext", "func", "class", "mod", "modvar", "param", "closure", "cmp", "isinst", "excvar", "default"):
            return None
        if ("scrubbed", t) in self.st.facts:
            return None
        if k == "phi":
            return next((r for y in t.a[0] for r in [self.term(y)] if r is not None), None)
        if k == "new":
            if t.a[0] == "dict" and self.without_private(t):
                return None
            slots = self.st.slots(t)
            for kk, w in slots.items():
                if isinstance(w, frozenset) and kk not in ("over", "keys", "filtered", "exact", "init"):
                    r = self.value(w)
                    if r is not None:
                        return r
            return None
        if k == "tup":
            return next((r for y in t.a[0] for r in [self.term(y)] if r is not None), None)
        if k == "attr":
            if t.a[1] in CLEAN:
                return None
            if t.a[0].k == "new":
                w = self.st.slots(t.a[0]).get(("a", t.a[1]))
                if w is not None:
                    return self.value(w)
            return self.term(t.a[0])
        if k in ("item", "elem", "dvalues", "dval", "index", "star", "rest", "ditems"):
            if k == "item" and t.a[1].k == "const" and isinstance(t.a[1].a[1], str) and ("public" in t.a[1].a[1] or t.a[1].a[1] in ("suite", "n", "g")):
                return None
            return self.term(t.a[0]) if isinstance(t.a[0], T) else None
        if k == "dkey":
            return None
        if k == "call":
            return self.call(t)
        for y in t.a:
            for z in y if isinstance(y, (tuple, frozenset)) else (y,):
                if isinstance(z, T):
                    r = self.term(z)
                    if r is not None:
                        return r
        return None

    def call(self, t):
        c, args, kwargs = t.a[0], t.a[1], dict(t.a[2])
        name = c.a[1] if c.k == "attr" else show(c).split("(")[0].split(".")[-1]
        if name in CLEAN:
            return None
        for kk, w in self.st.slots(t).items():
            if isinstance(w, frozenset) and (r := self.value(w)) is not None:
                return r
        if c.k == "attr" and name == "serialize" or name == "serialize" and c.k != "ext":
            s = kwargs.get("save_secret_key") or (args[1] if len(args) > 1 else None)
            if s is None or s == C(False):
                return None
            return self.term(c.a[0]) if c.k == "attr" else None
        n = ext_of(t)
        if name == "LightPHE":
            ks = kwargs.get("keys") or (args[1] if len(args) > 1 else None)
            kf = kwargs.get("key_file")
            if ks is None or ks == C(None):
                return t if self.generators and kf is None else None
            return self.term(ks)
        if self.generators and (n.endswith(GENERATORS) or n in ("tenseal.context", "tenseal.Context") or n.startswith(("os.urandom", "secrets."))):
            return t
        if name == "make_context_public":
            return None
        for y in ([c.a[0]] if c.k == "attr" else []) + list(args) + list(kwargs.values()):
            if isinstance(y, T):
                r = self.term(y)
                if r is not None:
                    return r
        return None

    def without_private(self, d):
        """a dict made by a comprehension that leaves the private entry out, or that names the public one"""
        m = self.p.modules.get(d.a[1][0]) if isinstance(d.a[1], tuple) else None
        if m is None:
            return False
        for n in ast.walk(m.tree):
            if isinstance(n, ast.DictComp) and (n.lineno, n.col_offset) == tuple(d.a[1][1:3]):
                return any(filters_private(self.p, m, x) for g in n.generators for x in g.ifs)
        return False


def filters_private(p, m, e):
    for n in ast.walk(e):
        for s in strings(p, m, n):
            if "private" in s or "secret" in s:
                return not isinstance(e, ast.Compare) or isinstance(e.ops[0], (ast.NotEq, ast.NotIn, ast.IsNot))
            if "public" in s:
                return isinstance(e, ast.Compare) and isinstance(e.ops[0], (ast.Eq, ast.In, ast.Is)) or not isinstance(e, ast.Compare)
    return False


def strings(p, m, n):
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
        yield n.value
    if isinstance(n, ast.Name):
        for st in m.tree.body:
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n.id for t in st.targets):
                for x in ast.walk(st.value):
                    if isinstance(x, ast.Constant) and isinstance(x.value, str):
                        yield x.value


# ---------------------------------------------------------------- roles

def roles(p, defs):
    """opcode -> declared role of each result: 'public', 'private', 'cipher' or None"""
    out = {}
    for op, d in defs.items():
        if not op.startswith(("bfv.", "phe.", "crypto.", "tee.")) or "abstract" not in d:
            continue
        fi = d["abstract"]
        c = Ae(p)
        it = Engine(p, c)
        try:
            rets, _ = it.run(fi)
        except Exception:
            continue
        got = None
        for v, st in rets:
            t = one(v)
            parts = list(t.a[0]) if t is not None and t.k == "tup" else [t]
            rs = [role(x, st) for x in parts]
            got = rs if got is None or len(got) != len(rs) else [a if a == b else a or b for a, b in zip(got, rs)]
        if got and any(got):
            out[op] = (got, fi)
    return out


class Ae(Client):
    max_states = 12
    max_depth = 4

    def __init__(self, p):
        self.p = p

    def should_inline(self, it, fi, call):
        return fi.module.name.startswith("mplang.dialects.") and fi.cls is None

    def quiet_call(self, it, call):
        return True


def role(t, st):
    if t is None:
        return None
    if t.k == "call" and t.a[0].k == "class":
        cls, args = t.a[0].a[0].split(".")[-1], [*t.a[1], *[v for _, v in t.a[2]]]
    elif t.k == "new" and str(t.a[0]).startswith("obj:"):
        cls, args = t.a[0].split(".")[-1], [one(w) for kk, w in sorted(st.slots(t).items(), key=lambda kv: str(kv[0])) if isinstance(w, frozenset)]
    else:
        return None
    if cls in ("PublicKeyType", "QuoteType"):
        return "public"
    if cls == "PrivateKeyType":
        return "private"
    if "Ciphertext" in cls:
        return "cipher"
    if cls == "KeyType":
        for a in args:
            if a is None or a.k != "const":
                continue
            x = a.a[1]
            if x is True or x in ("Public", "Relin", "Galois", "public"):
                return "public"
            if x is False or x in ("Private", "Secret", "private"):
                return "private"
            if isinstance(x, str) and ("elin" in x or "alois" in x):
                return "public"
    return None


def run(p, rep, tier):
    for r, t in RULES.items():
        rep.rule(r, t, 0)
    impls = impl_table(p)
    defs = definitions(p)
    rs = roles(p, defs)
    if not any("private" in r for r, _ in rs.values()):
        rep.broken("no key generation found among the operations")
        return
    rep.notes.append("roles: " + ", ".join(f"{op}={'/'.join(str(x) for x in r)}" for op, (r, _) in sorted(rs.items())))
    secret, public = set(), set()
    stored = set()
    for op in sorted(set(rs) | set(DECRYPT) | set(PRIVATE), key=lambda o: ("private" not in rs.get(o, ((), None))[0], o)):
        for fi in impls_of(impls, op):
            if not fi.module.name.startswith(BACKENDS):
                continue
            rep.saw(fi.qual)
            operation(p, rep, op, fi, rs.get(op, ([None], None))[0], secret, public, stored)
    classes(p, rep, secret, public, impls)


def operation(p, rep, op, fi, rr, secret, public, stored):
    c = Keys(p, fi)
    it = Engine(p, c)
    try:
        rets, _ = it.run(fi)
    except Exception as e:
        rep.notes.append(f"{op}: not followed ({type(e).__name__})")
        return
    names = fi.params[2:]          # interpreter, op
    private = [T("param", ("root", fi.qual), names[i]) for i in PRIVATE.get(op, ()) if i < len(names)]
    keys = "private" in rr
    for v, st in rets:
        t = one(v)
        parts = list(t.a[0]) if t is not None and t.k == "tup" else [t]
        if t is None or len(rr) > 1 and len(parts) != len(rr):
            if t is not None and not any(x.k == "modvar" for x in subterms(t)):
                rep.notes.append(f"{op}: result {show(t)[:80] if t is not None else '?'} not split into its parts")
            continue
        if len(rr) > 1 and keys:
            if len(set(parts)) < len(parts):
                rep.bad("order", op, fi.where, f"the public and the private part are the same object ({show(parts[0])[:80]})")
                continue
            rep.ok("order", op, fi.where)
        b = Bearing(p, st, private, () if keys else stored)
        if keys:
            for (o, slot), w in st.heap.items():
                g = (o.a[0], slot[1]) if o.k == "mod" and isinstance(slot, tuple) else o.a[:2] if o.k == "modvar" else None
                if g is not None and isinstance(w, frozenset) and b.value(w) is not None:
                    stored.add(g)
        for i, (x, r) in enumerate(zip(parts, rr)):
            hit = b.term(x)
            inst = f"{op}[{i}]" if len(rr) > 1 else op
            if r == "private":
                note(secret, x)
                if hit is None and fully(x, st):
                    rep.bad("order", inst, fi.where, f"the result declared private, {show(x)[:100]}, does not contain the secret")
            elif r in ("public", "cipher"):
                if op in PRIVATE or keys:
                    note(public, x)
                if hit is not None:
                    rep.bad("public" if r == "public" else "ciphertext", inst, fi.where, f"the result declared {'public' if r == 'public' else 'ciphertext'} contains {show(hit)[:140]}, which holds the secret key")
                else:
                    rep.ok("public" if r == "public" else "ciphertext", inst, fi.where)
        if len(rr) > 1 and keys:
            shared = aliased(parts, rr, st)
            if shared is not None:
                rep.bad("order", op, fi.where, f"the public and the private part share {show(shared)[:100]}")
    if op in DECRYPT:
        decrypts(p, rep, op, fi, c, names[DECRYPT[op]] if DECRYPT[op] < len(names) else None)


def fully(x, st):
    return x.k == "new" and bool(st.slots(x))


def note(into, x):
    if x.k == "new" and str(x.a[0]).startswith("obj:"):
        into.add(x.a[0][4:])


def aliased(parts, rr, st):
    """a mutable key object held by both parts"""
    held = []
    for x in parts:
        out = set()
        if x is not None and x.k == "new":
            for kk, w in st.slots(x).items():
                if isinstance(w, frozenset) and isinstance(kk, tuple) and kk[0] == "a":
                    for y in w:
                        if y.k == "new" and str(y.a[0]).startswith("obj:") or y.k == "call" and any(z for z in [ext_of(y)] if z.endswith(GENERATORS)):
                            out.add(y)
        held.append(out)
    pub = set().union(*[h for h, r in zip(held, rr) if r == "public"])
    prv = set().union(*[h for h, r in zip(held, rr) if r == "private"])
    return next(iter(pub & prv), None)


def decrypts(p, rep, op, fi, c, sk):
    n = 0
    skt = T("param", ("root", fi.qual), sk)
    for call, w, st in c.calls2:
        if call.name != "decrypt" or call.target is not None and call.target.module.name == fi.module.name:
            continue
        r = one(call.recv) if call.recv is not None else None
        if r is None and call.callee is not None and one(call.callee) is not None and one(call.callee).k == "attr":
            r = one(call.callee).a[0]
        if r is None:
            continue
        n += 1
        params = [x for x in subterms(r) if x.k == "param" and x.a[0] == ("root", fi.qual)]
        stored = [x for x in subterms(r) if x.k == "modvar"]
        if stored and skt not in params:
            rep.bad("decrypts", op, w, f"decryption uses {show(r)[:100]}, a stored key, instead of the private operand")
        elif params and skt not in params:
            rep.bad("decrypts", op, w, f"decryption uses {show(r)[:100]} instead of the private operand")
        else:
            rep.ok("decrypts", op, w)
    if not n:
        rep.notes.append(f"{op}: the decryption call was not followed")


# ---------------------------------------------------------------- serialized forms

def classes(p, rep, secret, public, impls):
    serialized, by = {}, {}
    mods = {fi.module.name for op in list(DECRYPT) + list(PRIVATE) + ["crypto.kem_keygen", "tee.quote_gen", "tee.attest"] for fi in impls_of(impls, op)}
    for q, cls in sorted(p.classes.items()):
        if cls.module.name not in mods:
            continue
        tj = p.find_method(cls, "to_json")
        if tj is None or tj.module.name not in mods:
            continue
        serialized[q] = (cls, tj)
    # a class whose constructor demands, or whose instances hold, the secret
    secrets = set(secret)
    for q, (cls, tj) in serialized.items():
        names = {"secret_key", "private_key"}
        if any(isinstance(n, ast.Attribute) and n.attr in names and isinstance(n.ctx, ast.Store) for m in cls.methods.values() for n in ast.walk(m.node)):
            secrets.add(q)
    rep.notes.append("secret classes: " + ", ".join(sorted(x.split(".")[-1] for x in secrets)))
    holders = {q for q in secrets}
    for q, (cls, tj) in serialized.items():
        if q in secrets:
            own = cls.methods.get("to_json")
            if own is None and any(x.qual not in secrets for x in p.mro(cls)[1:] if "to_json" in x.methods):
                rep.notes.append(f"{cls.name}: serialized like a public object")
            continue
        rep.saw(tj.qual)
        inst = cls.name
        c = Keys(p, tj)
        it = Engine(p, c)
        rets, _ = it.run(tj, self_cls=cls) if tj.params else it.run(tj)
        bad = None
        for v, st in rets:
            for x in walk(v, st):
                m = leak(p, x, st, cls, holders)
                if m is not None:
                    bad = m
        for call, w, st in c.calls2:
            m = None
            if call.name == "serialize":
                k = one(call.kwargs["save_secret_key"]) if "save_secret_key" in call.kwargs else one(call.args[1]) if len(call.args) > 1 else C(False)
                if k != C(False):
                    m = f"the context is serialized with save_secret_key={show(k) if k is not None else '?'}"
            if call.name == "to_json" and call.recv is not None:
                m = polymorphic(p, one(call.recv), cls, holders)
            if m is not None:
                bad = m
        if bad is not None:
            rep.bad("serialized", inst, tj.where, bad)
        else:
            rep.ok("serialized", inst, tj.where)


def walk(v, st, seen=None):
    seen = set() if seen is None else seen
    for t in split(v):
        for x in subterms(t):
            if x in seen:
                continue
            seen.add(x)
            yield x
            if x.k == "new":
                for w in st.slots(x).values():
                    if isinstance(w, frozenset):
                        yield from walk(w, st, seen)


def leak(p, x, st, cls, secrets):
    """serde of a field whose declared class has a secret-bearing subclass"""
    if x.k != "call":
        return None
    n = show(x.a[0])
    if n.endswith((".to_json", ".dumps", ".dumps_b64", "pickle.dumps")):
        arg = x.a[1][0] if x.a[1] else x.a[0].a[0] if x.a[0].k == "attr" else None
        if arg is None:
            return None
        m = polymorphic(p, arg, cls, secrets)
        if m is not None:
            return m
    if x.a[0].k == "attr" and x.a[0].a[1] in SECRETSLOTS and x.a[0].a[0].k != "class":
        return f"{show(x)[:80]} is part of the serialized form"
    return None


def declared(p, cls, name):
    for k in p.mro(cls):
        for st in k.node.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == name:
                a = st.annotation
                if isinstance(a, ast.Constant) and isinstance(a.value, str):
                    try:
                        a = ast.parse(a.value, mode="eval").body
                    except SyntaxError:
                        return None
                r = p.resolve_expr(a, k.module, None)
                return r[1] if r is not None and r[0] == "class" else None
    return None


def polymorphic(p, arg, cls, secrets):
    if arg is not None and arg.k == "attr" and arg.a[0].k == "param":
        d = declared(p, cls, arg.a[1])
        if d is not None:
            for q in sorted(secrets):
                k = p.classes.get(q)
                if k is not None and (k is d or d in p.mro(k)):
                    return f"the field {arg.a[1]} is serialized with its own class, which may be {k.name} and then includes the secret key"
    return None
