"""C12: cryptographic operations are recorded only with operands of the right role, kind and parameters.

The typing rule of every operation is interpreted abstractly once per *case*: each operand position is given every
type of the repository's cryptographic universe in turn (keys of every role, ciphertexts, plaintexts, encoders, points,
scalars, quotes, shares, tensors, ...), and every tie between two operands (curve, suite, scheme, degree, shape) is
broken in turn. The operands are abstract objects with a class and the role attributes only; the rule's code decides
isinstance tests, attribute reads and comparisons on them. A case the contract forbids must not reach the end of the
rule; a case it allows must end with the type the contract implies.
"""
from __future__ import annotations

import ast

from rules.common import impl_entries, where
from rules.opmodel import creations, cval, definitions
from sa.engine import C, Client, Engine, St, T, V, one, show, split, subterms

RULES = {
    "kind": "an operand of another role or kind is rejected",
    "agree": "operands made for different curves, suites, schemes, degrees or values are rejected",
    "result": "the result carries the role, scheme, suite or plaintext type implied by the operands",
    "route": "the operations are recorded only through their typing rule",
    "attested": "an attested key is returned only if the quote's key is of the curve the program was typed with",
    "values": "the backend produces values of the role the typing rule declares",
}
CR, TEE, BFV, PHE, SPU, TY = ("mplang.dialects.crypto", "mplang.dialects.tee", "mplang.dialects.bfv", "mplang.dialects.phe", "mplang.dialects.spu", "mplang.edsl.typing")
ANY = object()


# ------------------------------------------------------------------ abstract operands
class Build:
    """Makes abstract type objects in a heap."""

    def __init__(self, p):
        self.p, self.st, self.n, self.missing = p, St(), 0, set()

    def obj(self, qual, **attrs):
        self.n += 1
        if qual not in self.p.classes:
            self.missing.add(qual)
        t = T("new", "obj:" + qual, ("case", self.n))
        c = self.p.classes.get(qual)
        init = self.p.find_method(c, "__init__") if c else None
        fields = stored(init) if init is not None else {}
        for k, v in (constants(init) if init is not None else {}).items():
            self.st.heap[(t, ("a", k))] = V(C(v))
        for k, v in attrs.items():
            self.st.heap[(t, ("a", fields.get(k, k)))] = V(v) if isinstance(v, T) else V(C(v))
        return t

    def i64(self):
        return self.obj(TY + ".IntegerType", bitwidth=64, signed=True)

    def u8(self):
        return self.obj(TY + ".IntegerType", bitwidth=8, signed=False)

    def f64(self):
        return self.obj(TY + ".FloatType", bitwidth=64)

    def tensor(self, e, shape=(3,)):
        return self.obj(TY + ".TensorType", element_type=e, shape=T("tup", tuple(C(x) for x in shape)))

    def vec(self, n):
        return self.obj(TY + ".VectorType", element_type=self.i64(), size=n)


def curve(x):
    return "curve-" + x


def degree(x):
    return 2048 if x == "A" else 8192


# label -> builder(Build, parameter) ; the parameter is "A" or "B"
UNIVERSE = {
    "point": lambda b, x: b.obj(CR + ".PointType", curve=curve(x)),
    "scalar": lambda b, x: b.obj(CR + ".ScalarType", curve=curve(x)),
    "private key": lambda b, x: b.obj(CR + ".PrivateKeyType", suite=curve(x)),
    "public key": lambda b, x: b.obj(CR + ".PublicKeyType", suite=curve(x)),
    "symmetric key": lambda b, x: b.obj(CR + ".SymmetricKeyType", suite=curve(x)),
    "quote": lambda b, x: b.obj(TEE + ".QuoteType"),
    "attested key": lambda b, x: b.obj(TEE + ".AttestedKeyType", curve=curve(x)),
    "measurement": lambda b, x: b.obj(TEE + ".MeasurementType"),
    "bfv public key": lambda b, x: b.obj(BFV + ".KeyType", kind="Public", poly_modulus_degree=degree(x)),
    "bfv private key": lambda b, x: b.obj(BFV + ".KeyType", kind="Private", poly_modulus_degree=degree(x)),
    "bfv relin key": lambda b, x: b.obj(BFV + ".KeyType", kind="Relin", poly_modulus_degree=degree(x)),
    "bfv galois key": lambda b, x: b.obj(BFV + ".KeyType", kind="Galois", poly_modulus_degree=degree(x)),
    "bfv plaintext": lambda b, x: b.obj(BFV + ".PlaintextType", vector_type=b.vec(degree(x))),
    "bfv ciphertext": lambda b, x: b.obj(BFV + ".CiphertextType", vector_type=b.vec(degree(x))),
    "bfv encoder": lambda b, x: b.obj(BFV + ".EncoderType", poly_modulus_degree=degree(x)),
    "phe public key": lambda b, x: b.obj(PHE + ".KeyType", scheme="scheme-" + x, is_public=True),
    "phe private key": lambda b, x: b.obj(PHE + ".KeyType", scheme="scheme-" + x, is_public=False),
    "phe plaintext": lambda b, x: b.obj(PHE + ".PlaintextType", bitwidth=64),
    "phe ciphertext": lambda b, x: b.obj(PHE + ".CiphertextType", scheme="scheme-" + x),
    "phe encoder": lambda b, x: b.obj(TY + ".CustomType", kind="Encoder"),
    "custom": lambda b, x: b.obj(TY + ".CustomType", kind="string"),
    "share": lambda b, x: b.obj(TY + ".SSType", secret_type=b.tensor(b.i64(), (3,) if x == "A" else (4,))),
    "share of a scalar": lambda b, x: b.obj(TY + ".SSType", secret_type=b.i64()),
    "integer": lambda b, x: b.i64(),
    "float": lambda b, x: b.f64(),
    "tensor of bytes": lambda b, x: b.tensor(b.u8()),
    "tensor of integers": lambda b, x: b.tensor(b.i64()),
    "matrix of integers": lambda b, x: b.tensor(b.i64(), (2, 3)),
    "tensor of floats": lambda b, x: b.tensor(b.f64()),
    "tensor of points": lambda b, x: b.tensor(b.obj(CR + ".PointType", curve=curve(x))),
    "table": lambda b, x: b.obj(TY + ".TableType"),
}
EVERY = tuple(UNIVERSE)
NUMERIC_T = ("tensor of bytes", "tensor of integers", "matrix of integers", "tensor of floats")
ANY_T = (*NUMERIC_T, "tensor of points")
SYM = ("symmetric key", "tensor of bytes")


class Op:
    """operands: one tuple of allowed kinds per operand, a kind starting with '?' is neither required nor forbidden.
    agree: groups of operand positions that share a parameter. result: function(labels) -> expected structure(s)."""

    def __init__(self, opcode, operands, result=None, agree=(), attrs=None, var=False):
        self.opcode, self.operands, self.result, self.agree, self.attrs, self.var = opcode, operands, result, agree, attrs or {}, var


def o(cls, **attrs):
    return ("obj", cls, attrs)


def u8t():
    return o("TensorType", element_type=o("IntegerType", bitwidth=8, signed=False))


def point(x="A"):
    return o("PointType", curve=curve(x))


def ct(labels=None):
    return o("CiphertextType", vector_type=o("VectorType", size=2048))


def pt(labels=None):
    return o("PlaintextType", vector_type=o("VectorType", size=2048))


def key(kind):
    return o("KeyType", kind=kind, poly_modulus_degree=2048)


def phect(labels=None):
    return o("CiphertextType", scheme="scheme-A")


CT, PT = ("bfv ciphertext",), ("bfv plaintext",)
OPS = [
    Op("crypto.ec_generator", [], lambda l: point(), attrs={"curve": "curve-A"}),
    Op("crypto.ec_mul", [("point",), ("scalar",)], lambda l: point(), [(0, 1)]),
    Op("crypto.ec_add", [("point",), ("point",)], lambda l: point(), [(0, 1)]),
    Op("crypto.ec_sub", [("point",), ("point",)], lambda l: point(), [(0, 1)]),
    Op("crypto.ec_point_to_bytes", [("point", "tensor of points")], lambda l: u8t()),
    Op("crypto.ec_bytes_to_point", [("tensor of bytes",)], lambda l: o("PointType")),
    Op("crypto.ec_random_scalar", [], lambda l: o("ScalarType", curve="curve-A"), attrs={"curve": "curve-A"}),
    Op("crypto.ec_scalar_from_int", [("integer", "tensor of integers", "?tensor of bytes", "?matrix of integers")], lambda l: o("ScalarType", curve="curve-A"), attrs={"curve": "curve-A"}),
    Op("crypto.hash", [(*NUMERIC_T, "?tensor of points")], lambda l: u8t()),
    Op("crypto.hash_batch", [(*NUMERIC_T, "?tensor of points")], lambda l: u8t()),
    Op("crypto.sym_encrypt", [SYM, EVERY], lambda l: u8t(), attrs={"algo": "aes-gcm"}),
    Op("crypto.sym_decrypt", [SYM, ("tensor of bytes",)], lambda l: point(), attrs={"algo": "aes-gcm", "target_type": UNIVERSE["point"]}),
    Op("crypto.select", [EVERY, ("?" + EVERY[0], *("?" + x for x in EVERY[1:])), ("?" + EVERY[0], *("?" + x for x in EVERY[1:]))]),
    Op("crypto.kem_keygen", [], lambda l: ("tup", [o("PrivateKeyType", suite="curve-A"), o("PublicKeyType", suite="curve-A")]), attrs={"suite": "curve-A"}),
    Op("crypto.kem_derive", [("private key",), ("public key", "attested key")], lambda l: o("SymmetricKeyType", suite="curve-A"), [(0, 1)]),
    Op("crypto.hkdf", [SYM], lambda l: o("SymmetricKeyType", suite="hkdf-sha256"), attrs={"info": "ctx", "hash_algo": "sha256"}),
    Op("crypto.random_bytes", [], lambda l: u8t(), attrs={"length": 7}),
    Op("tee.quote_gen", [("public key",)], lambda l: o("QuoteType")),
    Op("tee.attest", [("quote",)], lambda l: o("AttestedKeyType", curve="curve-A"), attrs={"expected_curve": "curve-A"}),
    Op("tee.get_measurement", [("quote",)], lambda l: o("MeasurementType")),
    Op("bfv.keygen", [], lambda l: ("tup", [key("Public"), key("Private")]), attrs={"poly_modulus_degree": 2048, "plain_modulus": 1032193}),
    Op("bfv.make_relin_keys", [("bfv private key",)], lambda l: key("Relin")),
    Op("bfv.make_galois_keys", [("bfv private key",)], lambda l: key("Galois")),
    Op("bfv.create_encoder", [], lambda l: o("EncoderType", poly_modulus_degree=2048), attrs={"poly_modulus_degree": 2048}),
    Op("bfv.encode", [("tensor of integers", "tensor of bytes"), ("bfv encoder",)], pt),
    Op("bfv.batch_encode", [("matrix of integers",), ("bfv encoder",), ("bfv public key", "bfv relin key", "bfv galois key", "?bfv private key")], None, [(1, 2)]),
    Op("bfv.decode", [PT, ("bfv encoder",)], lambda l: o("TensorType", element_type=o("IntegerType", bitwidth=64)), [(0, 1)]),
    Op("bfv.encrypt", [PT, ("bfv public key",)], ct, [(0, 1)]),
    Op("bfv.decrypt", [CT, ("bfv private key",)], pt, [(0, 1)]),
    *[Op("bfv." + n, [CT + ("?bfv plaintext",), CT + PT], ct, [(0, 1)]) for n in ("add", "sub", "mul")],
    *[Op("bfv." + n, [PT + ("?bfv ciphertext",), CT], ct, [(0, 1)]) for n in ("add", "sub", "mul")],
    Op("bfv.relinearize", [CT, ("bfv relin key",)], ct, [(0, 1)]),
    Op("bfv.rotate", [CT, ("bfv galois key",)], ct, [(0, 1)], attrs={"steps": 1}),
    Op("bfv.rotate_columns", [CT, ("bfv galois key",)], ct, [(0, 1)]),
    Op("phe.keygen", [], lambda l: ("tup", [o("KeyType", scheme="scheme-A", is_public=True), o("KeyType", scheme="scheme-A", is_public=False)]), attrs={"scheme": "scheme-A", "key_size": 2048}),
    Op("phe.create_encoder", [], lambda l: o("CustomType", kind="Encoder"), attrs={"dtype": lambda b, x: b.f64(), "fxp_bits": 16, "max_value": None}),
    Op("phe.encode", [("integer", "float"), ("phe encoder",)], lambda l: o("PlaintextType")),
    Op("phe.decode", [("phe plaintext",), ("phe encoder",)], None),
    Op("phe.encrypt", [("phe plaintext",), ("phe public key",)], phect),
    Op("phe.decrypt", [("phe ciphertext",), ("phe private key",)], lambda l: o("PlaintextType"), [(0, 1)]),
    Op("phe.add_cc", [("phe ciphertext",), ("phe ciphertext",)], phect, [(0, 1)]),
    Op("phe.add_cp", [("phe ciphertext",), ("phe plaintext",)], phect),
    Op("phe.mul_cp", [("phe ciphertext",), ("phe plaintext",)], phect),
    Op("spu.makeshares", [(*NUMERIC_T, "?tensor of points")], lambda l: ("all", o("SSType")), attrs={"count": 3, "config": None}),
    Op("spu.reconstruct", [("share",), ("share",), ("share",)], lambda l: o("TensorType", element_type=o("IntegerType", bitwidth=64)), [(0, 1), (0, 2), (1, 2)], attrs={"config": None}, var=True),
    Op("spu.exec", [("share", *NUMERIC_T, "?tensor of points", "?share of a scalar")] * 2, lambda l: ("all", o("SSType")), attrs={"output_types": "one", "executable": b"", "input_vis": None, "output_vis": None, "input_names": None, "output_names": None, "config": None, "ir_type": "mhlo"}, var=True),
]


# ------------------------------------------------------------------ the interpreter's view of a case
class Case(Client):
    path_sensitive = True
    comp_facts = True
    max_states = 64
    unroll_calls = True

    def __init__(self, p, root):
        self.p, self.root, self.hits = p, root, []

    def should_inline(self, it, fi, call):
        return fi.module.name.startswith(("mplang.dialects.", TY)) and fi.name != "__init__"

    def on_call(self, it, call):
        if call.name == "add_op":
            self.hits.append((call, call.st.copy()))
        if call.ext in ("builtins.getattr", "builtins.hasattr") and len(call.args) >= 2:
            b, n = one(call.args[0]), one(call.args[1])
            if is_case(b) and n is not None and n.k == "const":
                has = self.has(b, cval(n), call.st)
                if call.ext.endswith("hasattr"):
                    return [(V(C(has)), call.st)]
                if not has and len(call.args) > 2:
                    return [(call.args[2], call.st)]
                return it.load_attr(call.args[0], cval(n), call.st, call.node)
        if call.ext == "builtins.type" and len(call.args) == 1:
            b = one(call.args[0])
            if is_case(b):
                return [(V(T("class", b.a[0][4:])), call.st)]
        if call.ext == "builtins.len" and len(call.args) == 1 and one(call.args[0]) is not None and one(call.args[0]).k == "tup" and not any(isinstance(x, T) and x.k == "star" for x in one(call.args[0]).a[0]):
            return [(V(C(len(one(call.args[0]).a[0]))), call.st)]
        if call.ext == "builtins.len" and len(call.args) == 1:
            n = self.set_size(one(call.args[0]), call.st)
            if n is not None:
                return [(V(C(n)), call.st)]
        return None

    def set_size(self, t, st):
        """number of members of a set of decided values"""
        if t is None or t.k != "new" or t.a[0] != "set":
            return None
        xs = [x for s, v in st.slots(t).items() if s == "*" or isinstance(s, tuple) and s[0] == "i" for x in split(v)]
        ss = [structure(self.p, st, x) for x in xs]
        kept = []
        for s in ss:
            ds = [equal(self.p, s, k) for k in kept]
            if True in ds:
                continue
            if None in ds or s is None:
                return None
            kept.append(s)
        return len(kept) or None

    def on_loop(self, it, kind, iterval, st, node, frame):
        if kind == "for" and it.literal_elems(iterval, st) is None:
            return st.with_fact(("loop", it.where(node)))
        return st

    def has(self, b, attr, st):
        if (b, ("a", attr)) in st.heap:
            return True
        c = self.p.classes.get(b.a[0][4:])
        return c is None or self.p.find_method(c, attr) is not None or self.p.find_class_attr(c, attr) is not None or attr.startswith("__")

    def on_getattr(self, it, obj, attr, st, node, frame):
        b = one(obj)
        if is_case(b) and not self.has(b, attr, st):
            it.add_raise(T("exc", ("AttributeError",), 0), st)
            return []
        return None

    def on_getitem(self, it, obj, idx, st, node, frame):
        b, i = one(obj), one(idx)
        if b is not None and b.k == "tup" and i is not None and i.k == "slice":
            try:
                s = slice(*[cval(x) if isinstance(x, T) and x.k == "const" else x for x in (i.a + (None,) * 3)[:3]])
                return [(V(T("tup", b.a[0][s])), st)]
            except (TypeError, AttributeError):
                return None
        return None

    def on_cond(self, it, t, truth, st, node, frame):
        d = self.decide(t, st)
        return None if d is not None and d is not truth else st

    def decide(self, t, st):
        p = self.p
        if t.k == "cmp" and t.a[0] in ("==", "is", "in"):
            a, b = t.a[1], t.a[2]
            if t.a[0] == "in":
                if isinstance(b, T) and b.k == "tup":
                    ds = [equal(p, structure(p, st, a), structure(p, st, x)) for x in b.a[0]]
                    return True if True in ds else None if None in ds else False
                if isinstance(b, T) and b.k == "new" and b.a[0] in ("set", "list"):
                    xs = [x for s, v in st.slots(b).items() for x in v]
                    ds = [equal(p, structure(p, st, a), structure(p, st, x)) for x in xs]
                    return True if True in ds else None if None in ds or not ds else False
                return None
            if isinstance(a, T) and isinstance(b, T):
                if "class" in (a.k, b.k) and a.k == b.k:
                    return a is b
                return equal(p, structure(p, st, a), structure(p, st, b))
        if t.k == "cmp" and t.a[0] == "<":
            sa, sb = structure(p, st, t.a[1]), structure(p, st, t.a[2])
            if sa and sb and sa[0] == sb[0] == "const":
                try:
                    return sa[1] < sb[1]
                except TypeError:
                    return None
        if t.k == "call":
            n = t.a[0].a[1] if t.a[0].k == "attr" else str(t.a[0].a[0]).rsplit(".", 1)[-1] if t.a[0].k in ("ext", "func") else ""
            if n in ("any", "all") and t.a[1]:
                g = t.a[1][0]
                fs = [f for f in st.contents(g, "facts") if f.k == "fact"] if isinstance(g, T) else []
                vals = set()
                for f in fs:
                    if f.a[0].k == "const" and isinstance(cval(f.a[0]), bool):
                        vals.add(cval(f.a[0]))
                    else:
                        vals.add(self.decide(f.a[0], st))
                if vals:
                    if n == "any" and True in vals:
                        return True
                    if n == "all" and False in vals:
                        return False
                    if None not in vals:
                        return n == "all"
        return None


def is_case(t):
    return t is not None and t.k == "new" and isinstance(t.a[0], str) and t.a[0].startswith("obj:")


def same(a, b):
    """equality of two structures: True / False / None (unknown)"""
    if a is None or b is None:
        return None
    if a[0] != b[0]:
        return False
    if a[0] == "const":
        return a[1] == b[1]
    if a[0] == "class":
        return a[1] == b[1]
    if a[0] == "many":
        return None
    if a[0] in ("tup",):
        if len(a[1]) != len(b[1]):
            return False
        ds = [same(x, y) for x, y in zip(a[1], b[1])]
        return False if False in ds else None if None in ds else True
    if a[1] != b[1]:
        return False
    ds = [same(a[2].get(k), b[2].get(k)) if k in a[2] and k in b[2] else None for k in a[2].keys() | b[2].keys()]
    return False if False in ds else None if None in ds else True


EQ = {}


def equal(p, a, b):
    """a == b as the classes themselves define it: the __eq__ methods of type classes are interpreted too"""
    if a is None or b is None:
        return None
    if a[0] == "tup" and b[0] == "tup" and len(a[1]) == len(b[1]):
        ds = [equal(p, x, y) for x, y in zip(a[1], b[1])]
        return False if False in ds else None if None in ds else True
    if a[0] != "obj" or b[0] != "obj" or len(a) < 4 or a[3] not in p.classes or len(b) < 4:
        return same(a, b)
    eq = p.find_method(p.classes[a[3]], "__eq__")
    if eq is None or len(eq.params) != 2:
        return same(a, b)
    key = (id(p), repr(a), repr(b))
    if key not in EQ:
        EQ[key] = None
        bd = Build(p)
        x, y = rebuild(bd, a), rebuild(bd, b)
        cl = Case(p, eq)
        rets, _ = Engine(p, cl).run(eq, args={eq.params[0]: V(x), eq.params[1]: V(y)}, st=bd.st, self_cls=p.classes[a[3]], self_term=x)
        ds = set()
        for v, st in rets:
            for t in split(v):
                if t.k == "const" and isinstance(cval(t), bool):
                    ds.add(cval(t))
                elif t.k == "ext" and str(t.a[0]).endswith("NotImplemented"):
                    ds.add(False)
                else:
                    d = cl.decide(t, st)
                    ds.add(st.conds.get(t) if d is None else d)
        EQ[key] = ds.pop() if len(ds) == 1 else None
    return EQ[key]


def rebuild(b, s):
    if s is None:
        b.n += 1
        return T("fresh", "unknown", b.n)
    if s[0] == "const":
        return C(s[1])
    if s[0] == "tup":
        return T("tup", tuple(rebuild(b, x) for x in s[1]))
    if s[0] == "obj":
        return b.obj(s[3], **{k: rebuild(b, v) for k, v in s[2].items()})
    b.n += 1
    return T("class", s[1]) if s[0] == "class" else T("fresh", "unknown", b.n)


def structure(p, st, t, depth=6):
    """("const", v) | ("obj", class name, {attr: structure}) | ("tup", [..]) | None"""
    if t is None or depth == 0:
        return None
    if isinstance(t, frozenset):
        xs = [structure(p, st, x, depth) for x in t]
        return xs[0] if len(xs) == 1 else None
    if t.k == "const":
        return ("const", cval(t))
    if t.k == "fstr":
        out = ""
        for x in t.a[0] if isinstance(t.a[0], tuple) else t.a:
            s = structure(p, st, x, depth - 1) if isinstance(x, T) else ("const", x)
            if s is None or s[0] != "const":
                return None
            out += str(s[1])
        return ("const", out)
    if t.k == "call" and t.a[0].k == "ext" and t.a[0].a[0] in ("builtins.tuple", "builtins.list") and len(t.a[1]) == 1:
        return structure(p, st, t.a[1][0], depth)
    if t.k == "tup":
        return ("tup", [structure(p, st, x, depth - 1) for x in t.a[0]])
    if t.k == "class":
        return ("class", t.a[0])
    if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] in ("lower", "upper", "strip", "replace"):
        r = structure(p, st, t.a[0].a[0], depth - 1)
        xs = [structure(p, st, x, depth - 1) for x in t.a[1]]
        if r and r[0] == "const" and isinstance(r[1], str) and all(x and x[0] == "const" for x in xs):
            return ("const", getattr(r[1], t.a[0].a[1])(*[x[1] for x in xs]))
        return None
    if t.k == "call" and t.a[0].k in ("ext", "class") and str(t.a[0].a[0]) in ("builtins.str", "builtins.int") and t.a[1]:
        r = structure(p, st, t.a[1][0], depth - 1)
        return r
    if t.k == "modvar":
        return modvar(p, str(getattr(t.a[0], "name", t.a[0])), t.a[1])
    if t.k == "attr":
        b = structure(p, st, t.a[0], depth - 1)
        return b[2].get(t.a[1]) if b and b[0] == "obj" else None
    if t.k == "new":
        if str(t.a[0]).startswith("obj:"):
            q = t.a[0][4:]
            c = p.classes.get(q)
            at = {}
            init = p.find_method(c, "__init__") if c else None
            ps = init.params[1:] if init is not None and init.params else [f[0] for f in p.dataclass_fields(c)] if c else []
            back = {a: k for k, a in (stored(init) if init is not None else {}).items()}
            for s, v in st.slots(t).items():
                if not isinstance(s, tuple):
                    continue
                if s[0] == "a":
                    at[back.get(s[1], s[1])] = structure(p, st, v, depth - 1)
                elif s[0] == "arg" and isinstance(s[1], int) and s[1] < len(ps):
                    at.setdefault(ps[s[1]], structure(p, st, v, depth - 1))
                elif s[0] in ("arg", "kwarg") and isinstance(s[1], str):
                    at.setdefault(s[1], structure(p, st, v, depth - 1))
            if init is not None:
                for k, d in defaults(init).items():
                    at.setdefault(k, ("const", d))
            return ("obj", q.rsplit(".", 1)[-1], at, q)
        if t.a[0] in ("list", "tuple", "gen"):
            ks = [s for s in st.slots(t)]
            if all(isinstance(s, tuple) and s[0] == "i" for s in ks):
                return ("tup", [structure(p, st, st.heap[(t, s)], depth - 1) for s in sorted(ks, key=lambda s: s[1])])
            return ("many", [structure(p, st, x, depth - 1) for s in ks if s == "*" or isinstance(s, tuple) and s[0] == "i" for x in split(st.heap[(t, s)])])
    return None


def constants(init):
    """attributes a constructor sets to constants"""
    out = {}
    for n in ast.walk(init.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant):
            for x in n.targets:
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == init.params[0]:
                    out[x.attr] = n.value.value
    return out


def defaults(init):
    a = init.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    out = {k: d.value for k, d in zip(pos[len(pos) - len(a.defaults):], a.defaults) if isinstance(d, ast.Constant)}
    out.update({k.arg: d.value for k, d in zip(a.kwonlyargs, a.kw_defaults) if isinstance(d, ast.Constant)})
    return out


def stored(init):
    """constructor parameter -> attribute it is stored in"""
    out = {}
    me = init.params[0]
    for n in ast.walk(init.node):
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Name):
            for x in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me:
                    out[n.value.id] = x.attr
    return out


def modvar(p, mod, name, depth=4):
    """structure of a module-level constant such as u8 = IntegerType(bitwidth=8, signed=False)"""
    m = p.modules.get(mod)
    if m is None or depth == 0:
        return None
    for s in m.tree.body:
        tg = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) else None
        if isinstance(tg, ast.Name) and tg.id == name and s.value is not None:
            v = s.value
            if isinstance(v, ast.Constant):
                return ("const", v.value)
            if isinstance(v, ast.Name):
                return modvar(p, mod, v.id, depth - 1)
            if isinstance(v, ast.Call):
                r = p.resolve_expr(v.func, m, None)
                if r and r[0] == "class":
                    c = r[1]
                    init = p.find_method(c, "__init__")
                    if init is None:
                        return None
                    at = {}
                    for i, a in enumerate(v.args):
                        if not isinstance(a, ast.Constant):
                            return None
                        at[init.params[1 + i]] = ("const", a.value)
                    for k in v.keywords:
                        if not isinstance(k.value, ast.Constant):
                            return None
                        at[k.arg] = ("const", k.value.value)
                    for k, x in defaults(init).items():
                        at.setdefault(k, ("const", x))
                    return ("obj", c.name, at, c.qual)
    return None


def matches(exp, got):
    """None: unknown; True; or a text saying what differs"""
    if exp[0] == "all":
        if got is not None and got[0] == "many":
            got = ("tup", got[1])
        if got is None:
            return None
        rs = [matches(exp[1], x) for x in (got[1] if got[0] == "tup" else [got])]
        return next((r for r in rs if isinstance(r, str)), None if None in rs else True)
    if got is None:
        return None
    if exp[0] == "tup":
        if got[0] != "tup":
            return f"{text(got)} instead of {len(exp[1])} results"
        if len(got[1]) != len(exp[1]):
            return f"{len(got[1])} results instead of {len(exp[1])}"
        rs = [matches(a, b) for a, b in zip(exp[1], got[1])]
        return next((r for r in rs if isinstance(r, str)), None if None in rs else True)
    if got[0] != "obj":
        return f"{text(got)} instead of {exp[1]}"
    if exp[1] != got[1]:
        return f"{got[1]} instead of {exp[1]}"
    unknown = False
    for k, v in exp[2].items():
        g = got[2].get(k)
        if isinstance(v, tuple):
            r = matches(v, g)
        else:
            r = None if g is None else True if g == ("const", v) else f"{exp[1]} with {k}={text(g)} instead of {v!r}"
        if isinstance(r, str):
            return r
        unknown = unknown or r is None
    return None if unknown else True


def text(s):
    if s is None:
        return "?"
    if s[0] == "const":
        return repr(s[1])
    if s[0] == "obj":
        return s[1]
    return s[0]


# ------------------------------------------------------------------ running a case
def attr_terms(b, op, fi):
    out = {}
    for n in fi.allparams:
        if n in op.attrs:
            v = op.attrs[n]
            if callable(v):
                out[n] = V(v(b, "A"))
            elif v == "one" and n == "output_types":
                out[n] = V(T("tup", (b.tensor(b.i64()),)))
            elif v is not None or n == "max_value":
                out[n] = V(C(v))
    return out


def run_case(p, op, fi, trace, labels, params):
    """-> list of (certain, value structure or None): the ways the rule accepts the case"""
    b = Build(p)
    terms = [UNIVERSE[l](b, x) for l, x in zip(labels, params)]
    args = attr_terms(b, op, fi)
    a = fi.node.args
    if op.var and a.vararg is not None:
        args[a.vararg.arg] = V(T("tup", tuple(terms)))
    else:
        pos = [x.arg for x in a.posonlyargs + a.args]
        if len(pos) < len(terms):
            return None, b
        for n, t in zip(pos, terms):
            args[n] = V(b.obj("mplang.edsl.object.Object", type=t)) if trace else V(t)
    cl = Case(p, fi)
    rets, _ = Engine(p, cl).run(fi, args=args, st=b.st)
    objs = set(terms) | {x for t in terms for x in reach(b.st, t)}
    out = []
    if trace:
        for call, st in cl.hits:
            out.append((certain(cl, st, objs), None, st))
        return out, b
    for v, st in rets:
        for x in split(v):
            out.append((certain(cl, st, objs), structure(p, st, x), st))
    return out, b


def reach(st, t):
    return {y for s, v in st.slots(t).items() for y in v if y.k == "new"}


def certain(cl, st, objs):
    """no condition on the path is undecided while depending on the operands, and every loop was followed exactly"""
    if any(f[0] == "loop" for f in st.facts if isinstance(f, tuple)):
        return False
    for t, b in st.conds.items():
        if t.k in ("const", "isinst") and t.k == "isinst":
            x = t.a[0]
            if isinstance(x, T) and (is_case(x) or x.k in ("const", "tup")):
                if is_case(x) and not all(y in cl.p.classes for y in t.a[1]):
                    return False
                continue
        d = cl.decide(t, st)
        if d is not None or t.k == "const":
            continue
        if set(subterms(t)) & objs or set(st.deps(V(t))) & objs:
            return False
    return True


def run(p, rep, tier):
    for k, v in RULES.items():
        rep.rule(k, v, 1)
    defs = definitions(p)
    for op in OPS:
        d = defs.get(op.opcode) or {}
        fi, trace = (d["abstract"], False) if "abstract" in d else (d.get("trace"), True)
        if fi is None:
            rep.notes.append(f"{op.opcode}: no typing rule found; nothing analysed")
            continue
        rep.saw(fi.qual)
        operation(p, rep, op, fi, trace)
    route(p, rep)
    attested(p, rep)
    values(p, rep)


def operation(p, rep, op, fi, trace):
    allowed = [tuple(x for x in ks if not x.startswith("?")) or ("integer",) for ks in op.operands]
    maybe = [{x.strip("?") for x in ks} for ks in op.operands]
    tag = op.opcode + ("" if op.opcode not in ("bfv.add", "bfv.sub", "bfv.mul") else " " + ("ct," if op.operands[0] == CT else "pt,") + "ct")
    base = [a[0] for a in allowed]
    n = len(base)
    # forbidden kinds
    for i in range(n):
        wrong, unsure = [], []
        todo = [l for l in EVERY if l not in maybe[i]]
        for l in todo:
            for alt in others(allowed, i):
                labels = [*alt[:i], l, *alt[i:]]
                if l in exempt(op, i, labels):
                    continue
                res, b = run_case(p, op, fi, trace, labels, ["A"] * n)
                if res is None:
                    rep.notes.append(f"{op.opcode}: rule takes fewer operands than expected; not analysed")
                    return
                if b.missing:
                    rep.notes.append(f"type classes not found: {sorted(b.missing)}")
                if any(c for c, _, _ in res):
                    wrong.append(l)
                    break
                if res:
                    unsure.append(l)
        name = operand_name(fi, i, op)
        if wrong:
            rep.bad("kind", f"{tag}: {name}", fi.where, f"{op.opcode} is recorded with `{name}` being {enum(wrong)}; it must be {enum(allowed[i], 'or')}")
        elif todo:
            rep.ok("kind", f"{tag}: {name}", f"{len(todo) - len(unsure)} other kinds rejected" + (f", {len(unsure)} undecided" if unsure else ""))
            if unsure:
                rep.notes.append(f"{op.opcode}: `{name}`: undecided for {enum(unsure)}")
    # broken ties
    for g in op.agree:
        bad = unsure = 0
        for j in g:
            for alt in combos(allowed):
                ps = ["B" if k == j else "A" for k in range(n)]
                res, _ = run_case(p, op, fi, trace, list(alt), ps)
                if any(c for c, _, _ in res):
                    bad = alt
                elif res:
                    unsure += 1
        names = " and ".join(operand_name(fi, j, op) + (f"[{j}]" if op.var else "") for j in g)
        if bad:
            rep.bad("agree", f"{tag}: {names}", fi.where, f"{op.opcode} is recorded with {names} made for different parameters ({', '.join(bad)})")
        else:
            rep.ok("agree", f"{tag}: {names}", "rejected when their parameters differ" + (f" ({unsure} cases undecided)" if unsure else ""))
            if unsure:
                rep.notes.append(f"{op.opcode}: {names}: {unsure} case(s) undecided")
    if op.opcode == "crypto.select":
        select(p, rep, op, fi, trace)
    # results
    if op.result is None or trace:
        return
    ok = unk = 0
    for alt in combos(allowed):
        res, _ = run_case(p, op, fi, trace, list(alt), ["A"] * n)
        if not res:
            rep.notes.append(f"{op.opcode}: the rule rejects ({', '.join(alt)})")
            continue
        for c, s, st in res:
            m = matches(op.result(alt), s)
            if isinstance(m, str):
                rep.bad("result", tag, fi.where, f"{op.opcode}({', '.join(alt)}) is typed {m}")
                return
            ok, unk = ok + (m is True), unk + (m is None)
    if ok:
        rep.ok("result", tag, f"{ok} case(s)")
    if unk:
        rep.notes.append(f"{op.opcode}: result type not recognised in {unk} case(s)")


def select(p, rep, op, fi, trace):
    bad, n, unsure = None, 0, 0
    for a in ("point", "scalar", "tensor of bytes", "private key", "bfv ciphertext", "phe ciphertext"):
        for b in ("point", "scalar", "tensor of floats", "public key", "symmetric key", "bfv plaintext"):
            if a == b:
                continue
            n += 1
            res, _ = run_case(p, op, fi, trace, ["integer", a, b], ["A"] * 3)
            if any(c for c, _, _ in res):
                bad = (a, b)
            unsure += bool(res) and not any(c for c, _, _ in res)
    res, _ = run_case(p, op, fi, trace, ["integer", "point", "point"], ["A", "A", "B"])
    if any(c for c, _, _ in res):
        bad = bad or ("point", "point of another curve")
    rep.check(bad is None, "agree", "crypto.select: operand types", fi.where, f"a selection between a {bad[0]} and a {bad[1]} is recorded" if bad else f"{n - unsure} pairs of different types rejected")


def exempt(op, i, labels):
    return ()


def others(allowed, i):
    """one representative choice of the other operands, and each alternative of them"""
    rest = [a for j, a in enumerate(allowed) if j != i]
    out = [[a[0] for a in rest]]
    for j, a in enumerate(rest):
        if len(a) <= 6:
            for x in a[1:]:
                out.append([*out[0][:j], x, *out[0][j + 1:]])
    return out


def combos(allowed):
    out = [[]]
    for a in allowed:
        a = a if len(a) <= 6 else a[:2]
        out = [[*x, y] for x in out for y in a]
    return out


def operand_name(fi, i, op):
    a = fi.node.args
    if op.var and a.vararg is not None:
        return a.vararg.arg + (f"[{i}]")
    pos = [x.arg for x in a.posonlyargs + a.args]
    return pos[i] if i < len(pos) else str(i)


def enum(ls, word="and"):
    ls = list(dict.fromkeys(ls))
    if len(ls) > 4:
        ls = [*ls[:3], f"{len(ls) - 3} more"]
    return ", ".join(ls[:-1]) + (f" {word} " if len(ls) > 1 else "") + ls[-1]


# ------------------------------------------------------------------ only through the rule
def route(p, rep):
    mine = {op.opcode for op in OPS}
    defs = definitions(p)
    good = 0
    for c in creations(p):
        if c.opcode not in mine:
            continue
        d = defs.get(c.opcode) or {}
        if c.kind == "bind":
            good += 1
            continue
        f = c.fi
        while f is not None and f is not d.get("trace"):
            f = f.parent
        own = f is not None or d.get("trace") is not None and calls(p, d["trace"], c.fi)
        if own:
            good += 1
        else:
            rep.bad("route", f"{c.opcode} in {c.fi.qual}", c.where, f"{c.opcode} is added to the graph in {c.fi.qual} without its typing rule")
    if good:
        rep.ok("route", "creation sites", f"{good} sites record these operations through bind or their own trace rule")
    else:
        rep.notes.append("no creation sites found")


def calls(p, a, b):
    return any(n.func.id == b.name for n in ast.walk(a.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name))


# ------------------------------------------------------------------ backend
class Impl(Client):
    path_sensitive = True
    max_states = 48

    def __init__(self, p):
        self.p = p

    def should_inline(self, it, fi, call):
        return fi.module is it.frame.module and fi.cls is None

    def quiet_call(self, it, call):
        return True


def impls(p, opcode):
    return [f for c, f in impl_entries(p) if c == opcode] if False else [e[1] for e in impl_list(p) if e[0] == opcode]


def impl_list(p):
    out = []
    for e in impl_entries(p):
        fi = next((x for x in e if hasattr(x, "qual") and hasattr(x, "params")), None)
        code = next((x for x in e if isinstance(x, str) and "." in x), None)
        if fi is not None and code:
            out.append((code, fi))
    return out


def attested(p, rep):
    for fi in impls(p, "tee.attest"):
        rep.saw(fi.qual)
        rets, _ = Engine(p, Impl(p)).run(fi)
        if not rets:
            rep.notes.append(f"{fi.qual}: returns nothing")
            continue
        quote = fi.params[2] if len(fi.params) > 2 else "quote"
        bad = None
        for v, st in rets:
            ok = False
            for t, b in st.conds.items():
                if t.k != "cmp" or t.a[0] not in ("==", "in"):
                    continue
                d = set(subterms(t)) | set(st.deps(V(t)))
                named = any(x.k == "const" and cval(x) == "expected_curve" for x in d) or any(x.k == "param" and x.a[1] == "expected_curve" for x in d)
                suite = any(x.k == "attr" and x.a[1] in ("suite", "curve") for x in d)
                # the program names no curve on this path: the default takes its place
                named = named or any(not c and any(x.k == "const" and cval(x) == "expected_curve" for x in subterms(q)) for q, c in st.conds.items()) and any(s.k == "const" for s in t.a[1:3])
                if named and suite and b is True:
                    ok = True
            if not ok:
                bad = st
        rep.check(bad is None, "attested", "tee.attest", fi.where, "a key is returned as attested without comparing the suite in the quote with the curve the program expects" if bad is not None else f"{len(rets)} returning path(s)")


ROLE = {
    "crypto.kem_keygen": (("PrivateKeyValue", "private"), ("PublicKeyValue", "public")),
    "bfv.keygen": (("BFVPublicContextValue", "public"), ("BFVSecretContextValue", "private")),
    "crypto.kem_derive": (("SymmetricKeyValue", "symmetric"),),
    "crypto.hkdf": (("SymmetricKeyValue", "symmetric"),),
    "tee.attest": (("PublicKeyValue", "public"),),
}
OTHER = {"PrivateKeyValue", "PublicKeyValue", "SymmetricKeyValue", "BFVSecretContextValue", "BFVPublicContextValue"}


def values(p, rep):
    for opcode, roles in ROLE.items():
        for fi in impls(p, opcode):
            rep.saw(fi.qual)
            rets, _ = Engine(p, Impl(p)).run(fi)
            n = 0
            for v, st in rets:
                for t in split(v):
                    xs = list(t.a[0]) if t.k == "tup" else [t]
                    if len(xs) != len(roles):
                        continue
                    for x, (cls, role) in zip(xs, roles):
                        got = value_class(p, fi, x)
                        if got is None:
                            continue
                        if got != cls and got in OTHER:
                            rep.bad("values", opcode, fi.where, f"{opcode} is typed to give a {role} key but its implementation returns {got}")
                            break
                        n += 1
            if n:
                rep.ok("values", opcode, f"{n} result(s)")
            elif not any(o.rule == "values" and o.instance == opcode for o in getattr(rep, "items", ())):
                rep.notes.append(f"{opcode}: implementation's result not recognised")


def value_class(p, fi, x):
    if x.k == "new" and str(x.a[0]).startswith("obj:"):
        return x.a[0].rsplit(".", 1)[-1]
    if x.k == "call":
        c = x.a[0]
        if c.k in ("class", "ext"):
            return str(c.a[0]).rsplit(".", 1)[-1]
        if c.k in ("func", "bound"):
            f = p.functions.get(c.a[-1])
            if f is not None and getattr(f.node, "returns", None) is not None:
                k = Engine(p, Client()).class_from_annotation(f.node.returns, f.module, f)
                return k.name if k is not None else None
    return None
