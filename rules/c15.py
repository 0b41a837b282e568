"""C15: cryptographic randomness, nonces and labels are used safely.

Implementations are followed symbolically (sa.engine) and what they return is traced back to its sources; protocol
functions are followed with rules/mpcmodel.py; calls of weak generators are found by a query over the resolved program.
"""
from __future__ import annotations

import ast

from rules.common import all_nodes, call_graph, dotted_of, impl_table, qualname, reachable, where
from rules.mpcmodel import DIA, LIB, N, follow, protocols
from sa.engine import Client, Engine, C, T, V, one, show, split, subterms

RULES = {
    "source": "random operations draw fresh, full-strength values from a cryptographically secure source in every invocation",
    "weak": "no weak or seedable generator, and no randomness drawn while a program is built, in cryptographic code",
    "stretch": "random values are not stretched by repetition where they mask something",
    "fresh": "a blinding scalar is drawn anew for every use in a loop",
    "nonce": "every authenticated encryption uses a fresh random nonce carried in the ciphertext",
    "tag": "decryption returns only what authenticated decryption returned",
    "kdf": "derived keys depend on the secret and on a non-empty purpose label",
    "domains": "distinct protocols use distinct, non-zero hash domains, and the domain enters the hash",
    "distinct": "values derived for different purposes in one computation use different derivations",
    "logged": "secrets are not printed, logged, shown by repr or put into error messages",
}
SECURE = ("os.urandom", "secrets.", "os.getrandom")
WEAKMODS = ("numpy.random.", "random.", "jax.random.")
RANDOM_OPS = {"crypto.random_bytes": 0, "crypto.ec_random_scalar": 32, "crypto.kem_keygen": 0, "phe.keygen": 0, "bfv.keygen": 0}
GENERATORS = (".generate", "lightphe.LightPHE", "LightPHE", "tenseal.context", "ts.context", "sealapi.KeyGenerator", ".KeyGenerator")
AEADS = ("AESGCM", "ChaCha20Poly1305", "AESGCMSIV", "AESCCM", "AESOCB3", "AESSIV")
BACKENDS = "mplang.backends."


def sub(n, seen=None):
    """all nodes a node is made of, the summands of a sum included"""
    seen = set() if seen is None else seen
    todo = [n]
    while todo:
        x = todo.pop()
        if isinstance(x, (tuple, frozenset)):
            todo += list(x)
        elif isinstance(x, N) and x not in seen:
            seen.add(x)
            yield x
            todo += list(x.args)


class Flow(Client):
    """Follows one implementation and the helpers of its module."""
    exact = True
    max_states = 16
    max_depth = 8

    def __init__(self, p, fi, depth_modules=()):
        self.p, self.root = p, fi
        self.modules = {fi.module.name, *depth_modules}
        self.calls = []        # (call, args terms, where)
        self.said = []         # (what, value, st, where)

    def should_inline(self, it, fi, call):
        return fi.module.name in self.modules and not cached(fi)

    def on_call(self, it, call):
        n = call.ext or ""
        r = one(call.recv) if call.recv is not None else None
        if call.name == "get" and r is not None and r.k == "attr" and r.a[1] == "attrs" and call.args and one(call.args[0]) is not None:
            return [(V(T("item", r, one(call.args[0]))), call.st)]
        if n == "builtins.print" or call.recv is not None and call.name in ("debug", "info", "warning", "error", "exception", "critical", "log") and "log" in show(one(call.recv)).lower() or n.startswith("logging."):
            self.said.append(("printed or logged", [*call.args, *call.kwargs.values()], call.st, it.where(call.node)))
        self.calls.append((call, it.where(call.node)))
        return None

    def on_raise(self, it, exc, st, node, frame):
        # what goes into the message: the arguments of the exception
        if isinstance(node, ast.Raise) and isinstance(node.exc, ast.Call):
            for a in [*node.exc.args, *[k.value for k in node.exc.keywords]]:
                for v, s in it.eval(a, st):
                    self.said.append(("put into an error message", [v], s, it.where(node)))
        return st

    def on_cond(self, it, term, truth, st, node, frame):
        k = decided(term)
        return None if k is not None and k != truth else st


def cached(fi):
    """the function remembers its results"""
    return any("cache" in ast.unparse(d) for d in getattr(fi.node, "decorator_list", []))


def decided(t):
    """truth of a test of the length or emptiness of a constant"""
    def val(x):
        if x.k == "const":
            return (x.a[1],)
        if x.k == "call" and show(x.a[0]) == "builtins.len" and len(x.a[1]) == 1 and x.a[1][0].k == "const" and isinstance(x.a[1][0].a[1], (str, bytes)):
            return (len(x.a[1][0].a[1]),)
        return None
    if t.k == "cmp" and t.a[0] in ("==", "<"):
        l, r = val(t.a[1]), val(t.a[2])
        if l is not None and r is not None:
            try:
                return l[0] == r[0] if t.a[0] == "==" else l[0] < r[0]
            except TypeError:
                return None
    v = val(t)
    return bool(v[0]) if v is not None else None


def everything(v, st, out=None, depth=0):
    """all terms a value is made of, contents of new objects included"""
    out = {} if out is None else out
    for t in split(v):
        for x in subterms(t):
            if x in out:
                continue
            out[x] = 1
            if x.k == "new":
                for w in st.slots(x).values():
                    if isinstance(w, frozenset):
                        everything(w, st, out, depth + 1)
            if x.k == "phi":
                for y in x.a[0]:
                    everything(V(y), st, out, depth + 1)
    return out


def ext_of(t):
    """dotted name of an external callee"""
    if t.k != "call":
        return ""
    c = t.a[0]
    return show(c)


def secure(t):
    n = ext_of(t)
    return t.k == "call" and (n.startswith(SECURE) or n.startswith("random.SystemRandom().") or n.endswith(GENERATORS) or n.split("(")[0].endswith(GENERATORS))


def weak(t):
    n = ext_of(t)
    if "SystemRandom" in n:
        return False
    return t.k == "call" and (n.startswith(WEAKMODS) or any(n.startswith(m) for m in ("time.", "uuid.uuid1", "builtins.hash", "builtins.id")))


def fold(t):
    """integer value of a constant expression"""
    if t.k == "const" and isinstance(t.a[1], int):
        return t.a[1]
    if t.k == "bin":
        l, r = fold(t.a[1]), fold(t.a[2])
        f = {"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "Pow": lambda a, b: a ** b if 0 <= b < 2048 else None,
             "LShift": lambda a, b: a << b if 0 <= b < 4096 else None, "RShift": lambda a, b: a >> b if b >= 0 else None, "FloorDiv": lambda a, b: a // b if b else None}.get(t.a[0])
        if l is not None and r is not None and f is not None:
            return f(l, r)
    return None


def run(p, rep, tier):
    for r, t in RULES.items():
        rep.rule(r, t, 0)
    notes = []
    impls = impl_table(p)
    if "crypto.random_bytes" not in impls:
        rep.broken("no implementation of crypto.random_bytes found")
        return
    sources(p, rep, impls)
    aead(p, rep, impls)
    kdf(p, rep, impls)
    speak(p, rep, impls)
    weak_calls(p, rep)
    protocol_rules(p, rep, tier)
    rep.notes.extend(notes)


def impls_of(impls, op):
    v = impls.get(op)
    if v is None:
        return []
    vs = v if isinstance(v, (list, tuple, set)) else [v]
    return [x[0] if isinstance(x, tuple) else x for x in vs]


def followed(p, fi, **kw):
    c = Flow(p, fi)
    it = Engine(p, c)
    rets, raises = it.run(fi)
    return c, it, rets


def attr_of(t, name):
    """op.attrs[name] / op.attrs.get(name, …)"""
    if t.k == "item" and t.a[1] == C(name) and t.a[0].k == "attr" and t.a[0].a[1] == "attrs":
        return True
    return t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] == "get" and t.a[0].a[0].k == "attr" and t.a[0].a[0].a[1] == "attrs" and t.a[1] and t.a[1][0] == C(name)


def sources(p, rep, impls):
    for op, least in RANDOM_OPS.items():
        for fi in impls_of(impls, op):
            rep.saw(fi.qual)
            inst = f"{op}"
            c, it, rets = followed(p, fi)
            if not rets:
                rep.notes.append(f"{op}: no return followed")
                continue
            for v, st in rets:
                for part in parts_of(v, st):
                    xs = everything(part, st)
                    w = fi.where
                    bad = next((x for x in xs if weak(x)), None)
                    src = [x for x in xs if secure(x)]
                    stored = [x for x in xs if x.k == "modvar" and not constant_var(p, x)]
                    if bad is not None:
                        rep.bad("source", inst, w, f"the result depends on {show(bad)[:120]}")
                    elif stored:
                        rep.bad("source", inst + "@module-level", w, f"the result comes from the module-level {stored[0].a[1]}, not from a draw of this invocation")
                    elif not src:
                        if any(x.k in ("call",) and opaque(x) for x in xs):
                            rep.notes.append(f"{op}: the key's source is not followed")
                        elif op == "crypto.random_bytes" and empty_request(st):
                            rep.ok("source", inst, w)
                        else:
                            rep.bad("source", inst, w, f"the result {show(one(v))[:160]} contains no draw from a secure source")
                    else:
                        msg = strength(op, least, xs, src)
                        if msg:
                            rep.bad("source", inst, w, msg)
                        else:
                            rep.ok("source", inst, w)


def empty_request(st):
    """the path is only taken when nothing is asked for"""
    return any(c.k == "cmp" and c.a[0] == "==" and truth and C(0) in c.a[1:] and any(attr_of(y, "length") for x in c.a[1:] for y in subterms(x)) for c, truth in st.conds.items()) or any(attr_of(c, "length") and not truth for c, truth in st.conds.items())


def parts_of(v, st):
    t = one(v)
    if t.k == "tup":
        return [V(x) for x in t.a[0]]
    return [v]


def constant_var(p, x):
    m = p.modules.get(x.a[0])
    if m is None:
        return True
    for st in m.tree.body:
        tg = st.targets if isinstance(st, ast.Assign) else [st.target] if isinstance(st, ast.AnnAssign) else []
        for t in tg:
            if isinstance(t, ast.Name) and t.id == x.a[1]:
                return not isinstance(st.value, (ast.Dict, ast.List, ast.Set, ast.Call, ast.DictComp, ast.ListComp)) and not (isinstance(st.value, ast.Constant) and st.value.value is None)
    return True


DETERMINISTIC = ("hashlib.", "hmac.", "struct.", "numpy.", "builtins.", "jax.numpy.", "base64.")
PURE = {"from_private_bytes", "private_bytes", "public_bytes", "public_key", "digest", "hexdigest", "encode", "decode", "to_bytes", "from_bytes", "tobytes", "get", "join", "unwrap", "format", "fromhex", "copy", "frombuffer", "reshape", "view", "astype"}


def opaque(x):
    """a call that may draw: not one of the deterministic library functions"""
    n = ext_of(x)
    if x.a[0].k == "func":
        return False
    return not n.startswith(DETERMINISTIC) and n.split("(")[0].split(".")[-1] not in PURE and not (x.a[0].k == "attr" and x.a[0].a[1] in PURE)


def strength(op, least, xs, src):
    if op == "crypto.random_bytes":
        for x in src:
            if x.a[1] and not (attr_of(x.a[1][0], "length") or any(attr_of(y, "length") for y in subterms(x.a[1][0]))):
                return f"the draw {show(x)[:100]} does not have the requested length"
            if x.a[1]:
                a = x.a[1][0]
                while a.k == "bin" and a.a[0] == "Add" and (fold(a.a[1]) is not None or fold(a.a[2]) is not None):
                    a = a.a[1] if fold(a.a[2]) is not None else a.a[2]
                if a.k == "bin" and a.a[0] in ("FloorDiv", "Mod", "RShift", "Div"):
                    return f"the draw {show(x)[:100]} may be shorter than the requested length"
        for x in xs:
            if x.k == "bin" and x.a[0] in ("BitAnd", "BitOr", "Mod", "FloorDiv", "RShift", "LShift") and any(y in src for y in subterms(x)):
                return f"the random bytes are reduced by {show(x)[:100]}"
            if x.k == "call" and ext_of(x).split(".")[-1].split("(")[0] in ("tile", "resize", "repeat", "broadcast_to", "full", "cycle") and any(y in src for y in subterms(x)):
                return f"the random bytes are repeated: {show(x)[:100]}"
            if x.k == "bin" and x.a[0] == "Add" and x.a[1] is x.a[2] and x.a[1] in src:
                return f"the random bytes are repeated: {show(x)[:100]}"
            if x.k == "bin" and x.a[0] == "Mult" and (x.a[1] in src or x.a[2] in src):
                return f"the random bytes are repeated: {show(x)[:100]}"
    if op == "crypto.ec_random_scalar":
        for x in src:
            n = ext_of(x)
            if n in ("os.urandom", "secrets.token_bytes", "os.getrandom") and x.a[1] and (fold(x.a[1][0]) or 99) < least:
                return f"the scalar is drawn from {fold(x.a[1][0])} bytes only"
            if n in ("secrets.randbits",) and x.a[1] and (fold(x.a[1][0]) or 999) < 8 * least:
                return f"the scalar is drawn from {fold(x.a[1][0])} bits only"
            if n in ("secrets.randbelow",) and x.a[1] and (fold(x.a[1][0]) or 1 << 300) < 1 << 255:
                return "the scalar is drawn from a range smaller than the group"
        for x in xs:
            if x.k == "bin" and any(y in src for y in subterms(x)):
                k = fold(x.a[2])
                if x.a[0] == "Mod" and k is not None and k < 1 << 255 or x.a[0] == "BitAnd" and k is not None and k < (1 << 255) or x.a[0] in ("RShift", "FloorDiv"):
                    return f"the scalar's range is reduced: {show(x)[-80:]}"
    return None


# ---------------------------------------------------------------- authenticated encryption

def aead_call(call, method):
    t = one(call.callee) if call.callee is not None else None
    if t is not None and t.k == "attr" and t.a[1] == method:
        b = t.a[0]
        return b.k == "call" and show(b.a[0]).split(".")[-1] in AEADS
    r = one(call.recv) if call.recv is not None else None
    return call.name == method and r is not None and r.k == "call" and show(r.a[0]).split(".")[-1] in AEADS


def is_aead_term(x, method):
    if x.k != "call" or x.a[0].k != "attr" or x.a[0].a[1] != method:
        return False
    b = x.a[0].a[0]
    return b.k == "call" and show(b.a[0]).split(".")[-1] in AEADS


def aead(p, rep, impls):
    lens = {}
    for fi in impls_of(impls, "crypto.sym_encrypt"):
        rep.saw(fi.qual)
        c, it, rets = followed(p, fi)
        seen = 0
        for v, st in rets:
            xs = everything(v, st)
            enc = [x for x in xs if is_aead_term(x, "encrypt")]
            if not enc:
                rep.bad("nonce", "crypto.sym_encrypt", fi.where, f"a return value is not the result of an authenticated encryption: {show(one(v))[:160]}")
                continue
            for x in enc:
                seen += 1
                nonce = x.a[1][0] if x.a[1] else dict(x.a[2]).get("nonce")
                k = nonce_len(nonce)
                if k is None:
                    rep.bad("nonce", "crypto.sym_encrypt", fi.where, f"the nonce {show(nonce)[:120]} is not a fresh draw from a secure source")
                    continue
                if k is not True and k < 12:
                    rep.bad("nonce", "crypto.sym_encrypt", fi.where, f"the nonce has {k} bytes only")
                    continue
                lens["encrypt"] = k
                outside = [y for y in xs if y is nonce]
                around = any(y.k == "bin" and y.a[0] == "Add" and nonce in (y.a[1], y.a[2]) for y in xs) or any(y.k == "call" and nonce in y.a[1] and y is not x for y in xs) or any(y.k in ("tup", "fstr") and nonce in y.a[0] for y in xs) or in_new(xs, st, nonce)
                if outside and not around:
                    rep.bad("nonce", "crypto.sym_encrypt", fi.where, "the nonce is not part of the ciphertext")
                    continue
                key = x.a[0].a[0].a[1]
                ksrc = [y for a in key for y in subterms(a)]
                if not any(y.k == "param" and y.a[-1] == fi.params[2] for y in ksrc if len(fi.params) > 2):
                    rep.bad("nonce", "crypto.sym_encrypt", fi.where, f"the encryption key {show(key[0])[:100] if key else '?'} does not come from the key operand")
                    continue
                rep.ok("nonce", "crypto.sym_encrypt", fi.where)
        if not seen and rets:
            rep.notes.append("crypto.sym_encrypt: no authenticated encryption followed")
        unauthenticated(p, rep, fi, "nonce")
    for fi in impls_of(impls, "crypto.sym_decrypt"):
        rep.saw(fi.qual)
        c, it, rets = followed(p, fi)
        for v, st in rets:
            xs = everything(v, st)
            dec = [x for x in xs if is_aead_term(x, "decrypt")]
            if not dec:
                rep.bad("tag", "crypto.sym_decrypt", fi.where, f"a path returns {show(one(v))[:160]}, which is not the result of authenticated decryption")
                continue
            ok = True
            for x in dec:
                nonce, ct = (list(x.a[1]) + [None, None])[:2]
                k, j = cut(nonce, True), cut(ct, False)
                if k is not None and j is not None and k != j:
                    rep.bad("tag", "crypto.sym_decrypt", fi.where, f"the nonce is cut at {k} and the ciphertext at {j}")
                    ok = False
                elif k is not None and lens.get("encrypt") not in (None, True) and k != lens["encrypt"]:
                    rep.bad("tag", "crypto.sym_decrypt", fi.where, f"the nonce is cut at {k}, encryption writes {lens['encrypt']}")
                    ok = False
            if ok:
                rep.ok("tag", "crypto.sym_decrypt", fi.where)
        unauthenticated(p, rep, fi, "tag")


def in_new(xs, st, nonce):
    for y in xs:
        if y.k == "new":
            for w in st.slots(y).values():
                if isinstance(w, frozenset) and nonce in w:
                    return True
    return False


def nonce_len(t):
    if t is None or t.k != "call":
        return None
    n = ext_of(t)
    if n in ("os.urandom", "secrets.token_bytes", "os.getrandom"):
        return fold(t.a[1][0]) if t.a[1] and fold(t.a[1][0]) is not None else True
    return None


def cut(t, head):
    if t is None or t.k != "item" or t.a[1].k != "slice":
        return None
    lo, hi = t.a[1].a[0], t.a[1].a[1]
    e = hi if head else lo
    return fold(e) if isinstance(e, T) else None


def unauthenticated(p, rep, fi, rule):
    for q in reachable(p, [fi.qual]):
        f = p.functions.get(q)
        if f is None or not f.module.name.startswith(BACKENDS + "crypto"):
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                d = dotted_of(p, n.func, f.module, f) or ""
                if d.endswith((".Cipher", "ciphers.Cipher", "modes.CTR", "modes.CBC", "modes.ECB", "modes.CFB", "modes.OFB")):
                    rep.bad(rule, f"{fi.name}:{d.split('.')[-1]}", where(f.module, n), f"{q} uses {d}, which does not authenticate")


# ---------------------------------------------------------------- key derivation

def kdf(p, rep, impls):
    for fi in impls_of(impls, "crypto.hkdf"):
        rep.saw(fi.qual)
        c, it, rets = followed(p, fi)
        for v, st in rets:
            xs = everything(v, st)
            der = [x for x in xs if x.k == "call" and x.a[0].k == "attr" and x.a[0].a[1] == "derive"]
            if not der:
                rep.bad("kdf", "crypto.hkdf", fi.where, f"a path returns {show(one(v))[:120]}, which is not derived")
                continue
            for x in der:
                h = x.a[0].a[0]
                kw = dict(h.a[2]) if h.k == "call" else {}
                pos = h.a[1] if h.k == "call" else ()
                if not any(y.k == "param" and y.a[-1] == fi.params[2] for a in x.a[1] for y in subterms(a)):
                    rep.bad("kdf", "crypto.hkdf", fi.where, "the derived key does not depend on the secret")
                    continue
                info = kw.get("info") or (pos[3] if len(pos) > 3 else None)
                if info is None or not any(attr_of(y, "info") for y in subterms(info)):
                    rep.bad("kdf", "crypto.hkdf", fi.where, f"the purpose label {show(info)[:80] if info is not None else '(none)'} is not the operation's info attribute")
                    continue
                if any(y.k == "item" and y.a[1].k == "slice" for y in subterms(info)):
                    rep.bad("kdf", "crypto.hkdf", fi.where, f"only a part of the purpose label is used: {show(info)[:80]}")
                    continue
                n = fold(kw["length"]) if "length" in kw else None
                if n is not None and n < 16:
                    rep.bad("kdf", "crypto.hkdf", fi.where, f"the derived key has {n} bytes only")
                    continue
                alg = kw.get("algorithm")
                if alg is not None and any(show(y).endswith((".MD5", ".SHA1")) for y in subterms(alg)):
                    rep.bad("kdf", "crypto.hkdf", fi.where, f"weak hash {show(alg)}")
                    continue
                a = next(y for y in subterms(info) if attr_of(y, "info"))
                if any(k == ("==", a, C("")) and v2 for k, v2 in st.conds.items()):
                    rep.bad("kdf", "crypto.hkdf", fi.where, "a key is derived for an empty purpose label")
                    continue
                if not refuses_empty(p, st, a):
                    rep.bad("kdf", "crypto.hkdf", fi.where, "a key is derived without checking that the purpose label is not empty")
                    continue
                rep.ok("kdf", "crypto.hkdf", fi.where)
    # uses in programs
    for n, m, f in all_nodes(p, ast.Call):
        if not m.name.startswith("mplang.") or m.name.startswith(DIA):
            continue
        d = dotted_of(p, n.func, m, f) or ""
        if d == DIA + "crypto.hkdf":
            a = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == "info"), None)
            v = constant(p, a, m, f)
            inst = f"{qualname(m, f)}"
            if v == "":
                rep.bad("kdf", inst, where(m, n), "the purpose label is empty")
            elif v is not None:
                rep.ok("kdf", inst, where(m, n))
    seen, hits = agreed(p)
    for f, n in hits:
        rep.bad("kdf", f"{f.qual}:raw", where(f.module, n), f"{f.qual} encrypts with the result of a key agreement that went through no key derivation")
    if not hits:
        rep.ok("kdf", "agreements", "", f"{seen} key agreements")


def refuses_empty(p, st, a):
    """the path conditions exclude an empty label"""
    for c, truth in st.conds.items():
        if c is a and truth:
            return True
        if c.k == "cmp" and a in (c.a[1], c.a[2]):
            o = c.a[2] if c.a[1] is a else c.a[1]
            if c.a[0] == "==" and o == C("") and not truth:
                return True
        if not (c.k == "cmp" and c.a[0] == "is") and c.k != "isinst" and any(x is a for x in subterms(c)):
            return True          # some other test of the label
    return False


def constant(p, e, m, f):
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, (ast.Name, ast.Attribute)):
        r = p.resolve_expr(e, m, f)
        if r is not None and r[0] == "modvar":
            mm = p.modules.get(r[1])
            for st in mm.tree.body if mm is not None else ():
                if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == r[2] for t in st.targets) and isinstance(st.value, ast.Constant):
                    return st.value.value
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == r[2] and isinstance(st.value, ast.Constant):
                    return st.value.value
    return None


def agreed(p):
    """uses of the result of a key agreement as an encryption key, followed through names, tuples and function results"""
    mention, tainted, results, hits = {}, {}, set(), []
    for n, m, f in all_nodes(p, ast.Call):
        if f is not None and m.name.startswith("mplang.") and not m.name.startswith((DIA, BACKENDS)):
            mention.setdefault(f.qual, []).append(n)

    def names_in(p, call, f):
        out = set()
        for e in [call.func, *call.args, *[k.value for k in call.keywords]]:
            if isinstance(e, (ast.Name, ast.Attribute)):
                r = p.resolve_expr(e, f.module, f)
                if r is not None and r[0] == "func":
                    out.add(r[1].qual)
                elif r is not None:
                    out.add(dotted_of(p, e, f.module, f) or "")
        return out

    def dirty(e, f, have):
        if isinstance(e, ast.Name):
            return e.id in have
        if isinstance(e, (ast.Tuple, ast.List)):
            return any(dirty(x, f, have) for x in e.elts)
        if isinstance(e, ast.IfExp):
            return dirty(e.body, f, have) or dirty(e.orelse, f, have)
        if isinstance(e, ast.NamedExpr):
            return dirty(e.value, f, have)
        if isinstance(e, ast.Call):
            ns = names_in(p, e, f)
            return DIA + "crypto.kem_derive" in ns or bool(ns & results)
        return False

    for _ in range(6):
        before = (len(results), sum(len(x) for x in tainted.values()))
        for q in mention:
            f = p.functions[q]
            have = tainted.setdefault(q, set())
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                    tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                    if dirty(n.value, f, have):
                        for t in tg:
                            if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                                have |= {x.id for x, y in zip(t.elts, n.value.elts) if isinstance(x, ast.Name) and dirty(y, f, have)}
                            else:
                                have |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                elif isinstance(n, ast.Return) and n.value is not None and dirty(n.value, f, have):
                    results.add(q)
        if before == (len(results), sum(len(x) for x in tainted.values())):
            break
    seen = 0
    for q, calls in mention.items():
        f = p.functions[q]
        for n in calls:
            ns = names_in(p, n, f)
            if DIA + "crypto.kem_derive" in ns:
                seen += 1
            if ns & {DIA + "crypto.sym_encrypt", DIA + "crypto.sym_decrypt"}:
                for a in [*n.args, *[k.value for k in n.keywords]]:
                    if dirty(a, f, tainted.get(q, set())):
                        hits.append((f, n))
    return seen, hits


# ---------------------------------------------------------------- what is said

SECRETS = (".private_bytes", ".exchange", ".derive", ".decrypt", ".private_bytes_raw")


def speak(p, rep, impls):
    classes = {}
    for op, v in sorted(impls.items()):
        if not op.startswith(("crypto.", "phe.", "bfv.", "field.", "tee.")):
            continue
        for fi in impls_of(impls, op):
            if not fi.module.name.startswith(BACKENDS):
                continue
            try:
                c, it, rets = followed(p, fi)
            except Exception as e:
                rep.notes.append(f"{op}: not followed ({type(e).__name__})")
                continue
            bad = None
            for what, vs, st, w in c.said:
                for v2 in vs:
                    x = tells(v2, st)
                    if x is not None:
                        bad = (w, f"{show(x)[:100]} is {what}")
            if bad:
                rep.bad("logged", op, bad[0], bad[1])
            else:
                rep.ok("logged", op, fi.where)
            for v2, st in rets:
                for t in everything(v2, st):
                    if t.k == "new" and isinstance(t.a[0], str) and t.a[0].startswith("obj:"):
                        for slot, w2 in st.slots(t).items():
                            name = slot[1] if isinstance(slot, tuple) and slot[0] in ("a", "arg") else None
                            if isinstance(name, str) and any(secret_inside(x) for x in split(w2)):
                                classes.setdefault(t.a[0][4:], set()).add(name)
    for q, names in sorted(classes.items()):
        cls = p.classes.get(q)
        if cls is None:
            continue
        for n in sorted(names):
            inst = f"repr:{q.split('.')[-1]}.{n}"
            if shows(p, cls, n):
                rep.bad("logged", inst, f"{cls.module.path}:{cls.node.lineno}" if False else where(cls.module, cls.node), f"the repr of {cls.name} shows its secret field {n} (it appears in error messages and when results are displayed)")
            else:
                rep.ok("logged", inst, where(cls.module, cls.node))


def secret_inside(t):
    """a secret reached without passing through the derivation of a public value"""
    if secret_term(t):
        return True
    if t.k == "call" and (t.a[0].k == "attr" and t.a[0].a[1] in ("public_key", "public_bytes", "encrypt", "public_bytes_raw")):
        return False
    if t.k in ("cmp", "isinst"):
        return False
    def kids(a):
        for y in a:
            if isinstance(y, T):
                yield y
            elif isinstance(y, (tuple, frozenset)):
                yield from kids(y)
    return any(secret_inside(y) for y in kids(t.a))


def secret_term(x):
    return x.k == "call" and (x.a[0].k == "attr" and x.a[0].a[1] in [s[1:] for s in SECRETS] or ext_of(x).startswith(("os.urandom", "secrets.token")))


def shows(p, cls, name):
    for k in p.mro(cls):
        r = k.methods.get("__repr__") or k.methods.get("__str__")
        if r is not None:
            return any(isinstance(n, ast.Attribute) and n.attr == name for n in ast.walk(r.node))
        for d in k.node.decorator_list:
            dd = d.func if isinstance(d, ast.Call) else d
            if ast.unparse(dd).split(".")[-1] == "dataclass":
                if isinstance(d, ast.Call) and any(kw.arg == "repr" and isinstance(kw.value, ast.Constant) and kw.value.value is False for kw in d.keywords):
                    break
                for st in k.node.body:
                    if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == name:
                        v = st.value
                        if isinstance(v, ast.Call) and any(kw.arg == "repr" and isinstance(kw.value, ast.Constant) and kw.value.value is False for kw in v.keywords):
                            return False
                        return True
    return False


def tells(v, st):
    """a secret inside what is printed, except its type, length or validity"""
    def go(t, depth=0):
        if depth > 12:
            return None
        if secret_term(t):
            return t
        if t.k == "attr" and t.a[1] == "key_bytes" and secretish(t.a[0]):
            return t
        if t.k == "call":
            n = show(t.a[0])
            if n in ("builtins.type", "builtins.len", "builtins.isinstance", "builtins.hasattr"):
                return None
        if t.k in ("isinst", "cmp"):
            return None
        if t.k == "attr" and t.a[1] in ("__name__", "shape", "dtype", "type", "suite", "algo"):
            return None
        if t.k == "new":
            for w in st.slots(t).values():
                if isinstance(w, frozenset):
                    for y in w:
                        r = go(y, depth + 1)
                        if r is not None:
                            return r
            return None
        for a in t.a:
            for y in a if isinstance(a, (tuple, frozenset)) else (a,):
                if isinstance(y, tuple):
                    y = y[-1]
                if isinstance(y, T):
                    r = go(y, depth + 1)
                    if r is not None:
                        return r
        return None
    for t in split(v):
        r = go(t)
        if r is not None:
            return r
    return None


def secretish(t):
    return t.k == "param" and ("private" in t.a[-1] or "secret" in t.a[-1] or t.a[-1] in ("key", "sk"))


# ---------------------------------------------------------------- weak generators

def weak_calls(p, rep):
    roots = [q for q, f in p.functions.items() if f.module.name.startswith((LIB + ".", DIA + "crypto", DIA + "field", DIA + "phe", DIA + "bfv", DIA + "tee", DIA + "spu")) or f.module.name in [BACKENDS + x for x in ("crypto_impl", "field_impl", "phe_impl", "bfv_impl", "tee_impl", "spu_impl", "spu_state")] or f.module.name.startswith("mplang.kernels")]
    cg = call_graph(p)
    rev = {}
    for a, bs in cg.items():
        for b in bs:
            rev.setdefault(b, set()).add(a)
    scope = set(roots)
    n_seen = 0
    for n, m, f in all_nodes(p, ast.Call):
        q = qualname(m, f)
        if q not in scope and not (f is None and m.name.startswith((LIB, DIA + "crypto", "mplang.kernels", BACKENDS + "crypto_impl"))):
            continue
        n_seen += 1
        d = dotted_of(p, n.func, m, f) or ""
        if d == "random.SystemRandom":
            continue
        if d.startswith(WEAKMODS) or d in ("random", "time.time", "time.time_ns") and False:
            if structural(p, f, rev):
                rep.ok("weak", f"{q}:{d.split('.')[-1]}", where(m, n))
            else:
                rep.bad("weak", f"{q}:{d.split('.')[-1]}", where(m, n), f"{q} draws from {d}, which is not cryptographically secure")
        elif d.startswith(SECURE) and m.name.startswith(("mplang.libs.", DIA)):
            rep.bad("weak", f"{q}:{d.split('.')[-1]}", where(m, n), f"{q} draws from {d} while the program is built: the value becomes part of the program, and is the same in every run and for every party")
    rep.ok("weak", "calls", "", "")
    rep.notes.append(f"weak: {n_seen} calls in {len(scope)} functions looked at")


def structural(p, f, rev):
    """a public, structural use: the function (or everything that calls it) returns a sparse matrix"""
    seen, todo = set(), [f]
    while todo:
        g = todo.pop()
        if g is None:
            return False
        if g.qual in seen:
            continue
        seen.add(g.qual)
        if returns_matrix(g):
            continue
        ups = [p.functions.get(x) for x in rev.get(g.qual, ())]
        ups = [u for u in ups if u is not None]
        if g.parent is not None:
            ups.append(g.parent)
        if not ups:
            return False
        todo += ups
    return True


def returns_matrix(f):
    r = f.node.returns if not isinstance(f.node, ast.Lambda) else None
    return r is not None and any(x in ast.unparse(r) for x in ("csr_matrix", "csc_matrix", "coo_matrix", "spmatrix", "sparse."))


# ---------------------------------------------------------------- protocols

def protocol_rules(p, rep, tier):
    seps = {}
    vh = None
    for q, fi in sorted(p.functions.items()):
        if fi.module.name.startswith(LIB + ".") and fi.name == "vec_hash" and fi.parent is None:
            vh = fi
    if vh is not None and "domain_sep" in vh.allparams:
        rep.saw(vh.qual)
        for n, m, f in all_nodes(p, ast.Call):
            r = p.resolve_expr(n.func, m, f)
            if r is None or r[0] != "func" or r[1] is not vh:
                continue
            i = vh.params.index("domain_sep")
            e = next((k.value for k in n.keywords if k.arg == "domain_sep"), n.args[i] if len(n.args) > i else None)
            v = constant(p, e, m, f) if e is not None else None
            inst = f"{qualname(m, f)}"
            if e is None:
                rep.notes.append(f"{where(m, n)}: hash domain not found")
            elif v is None:
                rep.notes.append(f"{where(m, n)}: hash domain is not a constant")
            elif v == 0:
                rep.bad("domains", inst, where(m, n), "hash domain 0 means no domain separation")
            else:
                seps.setdefault(v, {}).setdefault(m.name, []).append((inst, where(m, n)))
        for v, ms in sorted(seps.items()):
            if len(ms) > 1:
                (m1, a), (m2, b) = sorted(ms.items())[:2]
                rep.bad("domains", f"{v:#x}", b[0][1], f"hash domain {v:#x} is used by both {m1} and {m2}")
            else:
                for inst, w in next(iter(ms.values())):
                    rep.ok("domains", inst, w)
        c, it, rets = follow(p, vh)
        for v, st in rets:
            n = c.deep(v, st)
            calls = [x for x in sub(n) if x.op == "call" and x.args[0].startswith("crypto.hash")]
            zero = any(cc.k == "cmp" and any(y.k == "param" and y.a[-1] == "domain_sep" for y in subterms(cc)) and truth and cc.a[0] == "==" for cc, truth in st.conds.items())
            has = any(y.op == "param" and y.args[0] == "domain_sep" for x in calls for y in sub(x))
            if not calls:
                rep.notes.append("vec_hash: hash call not followed")
            elif has:
                rep.ok("domains", "vec_hash", vh.where)
            elif not zero:
                rep.bad("domains", "vec_hash", vh.where, "the domain does not enter the hash")
    for q in sorted(f for f in p.functions if p.functions[f].module.name.startswith(LIB + ".") and p.functions[f].parent is None or f in (DIA + "crypto.random_tensor", DIA + "crypto.random_bits")):
        fi = p.functions[q]
        if fi.cls is not None:
            continue
        if not any(isinstance(x, ast.Call) for x in ast.walk(fi.node)):
            continue
        try:
            c, it, rets = follow(p, fi, 16 if tier == "thorough" else 4)
        except Exception as e:
            rep.notes.append(f"{q}: not followed ({type(e).__name__})")
            continue
        short = q.replace(LIB + ".", "").replace(DIA, "")
        if not (c.msgs or c.drawn or c.pcalls or c.host or "noise" in fi.name):
            continue
        rep.saw(q)
        for call, w in c.host:
            d = call.ext
            if d.startswith(WEAKMODS) and structural(p, getattr(call, "frame", None) and call.frame.func or fi, _rev(p)):
                continue
            if d.startswith(("time.",)):
                continue
            rep.bad("weak", f"{short}:{d.split('.')[-1]}", w, f"{d} is called in {short}: weak or drawn while the program is built")
        uses(rep, c, short)
        provided(rep, c, short)
        constants(rep, c, short, fi.name, rets)
        for n, w in c.conds:
            atoms = [x for x in sub(n) if x.op not in ("const", "tup", "op", "struct", "item", "meta", "xor", "sum", "obj", "slice", "call")]
            if atoms:
                rep.ok("source", f"{short}:choice", w)
            else:
                rep.bad("source", f"{short}:choice", w, f"the choice {n!r} is the same in every run: it is neither drawn nor an input"[:240])
        stretch(rep, c, short, rets)
        expansions(rep, c, short)


_R: dict = {}


def _rev(p):
    if id(p) not in _R:
        rev = {}
        for a, bs in call_graph(p).items():
            for b in bs:
                rev.setdefault(b, set()).add(a)
        _R[id(p)] = rev
    return _R[id(p)]


def uses(rep, c, short):
    for t, loops, w, node in c.uses:
        kind, made, w0, drawn = c.drawn[t]
        extra = [x for x in loops if x not in made]
        inst = f"{short}:{w.split(':')[0].split('/')[-1]}"
        if extra:
            rep.bad("fresh", inst, w, f"the blinding scalar drawn at {w0} is used in every iteration of a loop that does not draw it")
        elif sometimes(drawn, node, loops):
            rep.bad("fresh", inst, w, f"the blinding scalar used in a loop is drawn at {w0} in some iterations only")
        else:
            rep.ok("fresh", inst, w)


def sometimes(drawn, use, loops):
    """the draw lies under a test inside the loop, the use does not, and the other branch draws nothing"""
    for _, loop in loops:
        if not isinstance(loop, (ast.For, ast.While)):
            continue
        inside = list(ast.walk(loop))
        if drawn not in inside or use not in inside:
            continue
        for n in inside:
            if isinstance(n, ast.If):
                for branch, other in ((n.body, n.orelse), (n.orelse, n.body)):
                    if any(drawn is x for s in branch for x in ast.walk(s)) and not any(use is x for x in ast.walk(n)):
                        leaves = any(isinstance(x, (ast.Continue, ast.Break, ast.Return, ast.Raise)) for s in other for x in ast.walk(s))
                        again = any(isinstance(x, ast.Call) and ast.unparse(x.func) == ast.unparse(drawn.func) for s in other for x in ast.walk(s))
                        if not leaves and not again:
                            return True
    return False


ATOMS = {"draw", "key", "param", "subres", "wide", "?", "rec", "meta"}


def constants(rep, c, short, name, rets):
    """what is sent, expanded or used as noise is not a constant of the program"""
    for d, s, v, w, _ in c.msgs:
        xs = list(sub(v))
        if any(x.op in ATOMS for x in xs) or not any(x.op in ("const", "call") for x in xs):
            continue
        rep.bad("source", f"{short}:sent", w, f"the value sent is the same in every run: {v!r}"[:240])
    for serial, arg, node, w in c.expand:
        xs = list(sub(arg))
        if not any(x.op in ATOMS for x in xs) and any(x.op in ("const", "call") for x in xs):
            rep.bad("source", f"{short}:seed", w, f"the seed of the expansion is the same in every run: {arg!r}"[:240])
    if "noise" in name or name.startswith(("random_", "gen_random", "generate_random")):
        for v, st in rets:
            n = c.deep(v, st)
            if not any(x.op in ATOMS - {"param", "meta"} for x in sub(n)):
                rep.bad("source", short, w_of(c), f"{short} returns a value without a draw")
            else:
                rep.ok("source", short, w_of(c))


def w_of(c):
    return c.root.where


def provided(rep, c, short):
    """the secrets handed to a sub-protocol as functions are drawn, not constant"""
    for n, name, w in c.provided:
        xs = list(sub(n))
        inst = f"{short}:{name}"
        if any(x.op not in ("const", "tup", "op", "struct", "item", "obj", "slice", "xor", "sum") and not (x.op == "call" and public_call(x)) for x in xs):
            rep.ok("source", inst, w)
        else:
            rep.bad("source", inst, w, f"the secret supplied as {name} is a constant of the program: {n!r}"[:240])


def public_call(x):
    return x.args[0].startswith(("tensor.constant", "numpy.", "jax.numpy.", "builtins."))


STRETCH = {"tile", "repeat", "broadcast_to", "resize"}


def stretched(n, depth=0):
    """a repeated draw, reached through representation changes only"""
    while depth < 20:
        depth += 1
        if n.op == "item":
            n = n.args[0]
        elif n.op == "call" and n.args[0].split(".")[-1] in STRETCH and n.args[1]:
            return base(n.args[1][0])
        elif n.op == "struct" and n.args[1]:
            if n.args[0] in STRETCH:
                b = base(n.args[1][0])
                if b is not None:
                    return b
            n = n.args[1][0]
        else:
            return None
    return None


def base(n):
    for _ in range(20):
        if n.op == "draw":
            return n
        if n.op == "item":
            n = n.args[0]
        elif n.op == "struct" and n.args[1]:
            n = n.args[1][0]
        else:
            return None
    return None


def stretch(rep, c, short, rets):
    done = set()
    for v, w in [(v, w) for d, s, v, w, _ in c.msgs] + c.results + [(v, w) for q, a, w in c.subcalls for v in a.values()]:
        for x in sub(v):
            if x.op in ("xor", "sum"):
                for y in x.args[0]:
                    y = y[0] if isinstance(y, tuple) else y
                    if base(y) is None and stretched(y) is None:
                        continue
                    b = stretched(y)
                    inst = f"{short}:mask"
                    if b is not None:
                        rep.bad("stretch", inst, w, f"the mask is a random value repeated: {y!r}"[:200])
                    elif inst not in done:
                        done.add(inst)
                        rep.ok("stretch", inst, w)
    if short.startswith("crypto.random_"):
        for v, st in rets:
            n = c.deep(v, st)
            b = [x for x in sub(n) if stretched(x) is not None]
            mixed = [x for x in sub(n) if x.op == "op" and x.args[0] in ("BitAnd", "Mod", "FloorDiv", "RShift") and any(base(y) is not None for y in x.args[1])]
            if b:
                rep.bad("stretch", short, "", f"{short} repeats what it drew: {b[0]!r}"[:200])
            elif mixed:
                rep.bad("stretch", short, "", f"{short} reduces what it drew: {mixed[0]!r}"[:200])
            elif not any(x.op == "draw" for x in sub(n)):
                rep.bad("source", short, "", f"{short} returns a value without a draw")
            else:
                rep.ok("stretch", short, "")


def expansions(rep, c, short):
    by = {}
    for serial, arg, node, w in c.expand:
        by.setdefault((serial, arg), {}).setdefault((node.lineno, node.col_offset), w)
    for (serial, arg), sites in by.items():
        inst = f"{short}:expansions"
        if len(sites) > 1 and any(x.op in ("param", "draw", "subres", "moved") for x in sub(arg)) and not any(x.op in ("?", "rec", "wide") for x in sub(arg)):
            rep.bad("distinct", inst, sorted(sites.values())[-1], f"two derivations in one computation expand the same seed: {arg!r}"[:240])
        else:
            rep.ok("distinct", inst, next(iter(sites.values())))
