"""Composition of writers with readers: what a reader recovers, as a term over the written object.

`nf` rewrites encode/decode pairs to the identity, so that reader(writer(x)) becomes `x`
when (and only when) the two sides are inverse in structure.
"""
from __future__ import annotations

import ast

from sa.engine import C, EMPTY, NONE, Client, Engine, St, T, V, norm_value, one, show, split, subterms
from sa.project import AnalysisBroken

# callee-name pairs: decode(encode(x)) -> x
PAIR_EXT = {
    "base64.b64decode": "base64.b64encode",
    "base64.standard_b64decode": "base64.standard_b64encode",
    "base64.urlsafe_b64decode": "base64.urlsafe_b64encode",
    "base64.b32decode": "base64.b32encode",
    "base64.b16decode": "base64.b16encode",
    "base64.a85decode": "base64.a85encode",
    "base64.b85decode": "base64.b85encode",
    "binascii.a2b_base64": "binascii.b2a_base64",
    "binascii.unhexlify": "binascii.hexlify",
    "gzip.decompress": "gzip.compress",
    "zlib.decompress": "zlib.compress",
    "lzma.decompress": "lzma.compress",
    "bz2.decompress": "bz2.compress",
    "json.loads": "json.dumps",
}
CODEC_NAMES = {n.split(".")[-1] for p in PAIR_EXT.items() for n in p} | {"fromhex", "hex", "frombuffer", "tobytes", "compress", "decompress", "to_json", "from_json", "_to_binary_json", "_from_binary_json", "pack", "unpack", "byteswap"}
COERCE = {"builtins.int", "builtins.float", "builtins.str", "builtins.bool", "builtins.bytes", "builtins.memoryview", "builtins.bytearray"}
IDENT_EXT = {"numpy.asarray", "numpy.array", "numpy.ascontiguousarray", "typing.cast", "copy.copy", "copy.deepcopy", "pyarrow.BufferReader", "pyarrow.py_buffer", "io.BytesIO"}
IDENT_METHODS = {"copy", "_convert"}


def callee_name(t):
    """Last name component of a call term's callee."""
    c = t.a[0]
    if c.k == "ext":
        return c.a[0].split(".")[-1]
    if c.k == "func":
        return c.a[0].split(".")[-1].split("#")[0]
    if c.k == "bound":
        return c.a[1].split(".")[-1].split("#")[0]
    if c.k == "attr":
        return c.a[1]
    if c.k == "class":
        return c.a[0].split(".")[-1]
    return ""


def callee_ext(t):
    return t.a[0].a[0] if t.a[0].k == "ext" else None


def recv_of(t):
    c = t.a[0]
    if c.k in ("bound", "attr"):
        return c.a[0]
    return None


class NF:
    """Normal form under codec-inverse rewriting, in a given state (heap, conditions)."""

    def __init__(self, st: St, pairs: dict, ident_funcs=(), project=None):
        self.st = st
        self.pairs = pairs  # decoder qual -> encoder qual
        self.memo = {}
        self.ident_funcs = set(ident_funcs)
        self.p = project

    def __call__(self, v):
        """normal forms of a value -> frozenset"""
        out = set()
        for t in split(v):
            out.add(self.t(t))
        return frozenset(out)

    def t(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        self.memo[t] = t  # cycle guard
        r = self._t(t)
        self.memo[t] = r
        return r

    def arg(self, t, i=0, name=None):
        kw = dict(t.a[2])
        if name and name in kw:
            return kw[name]
        if i < len(t.a[1]):
            return t.a[1][i]
        return None

    def _t(self, t):
        k = t.k
        if k == "phi":
            alts = frozenset(self.t(x) for x in t.a[0])
            return next(iter(alts)) if len(alts) == 1 else T("phi", alts)
        if k == "call":
            return self._call(t)
        if k == "attr":
            b = self.t(t.a[0])
            return T("attr", b, t.a[1])
        if k == "item":
            b, i = self.t(t.a[0]), self.t(t.a[1])
            if i.k == "seg":
                return i.a[0]
            return T("item", b, i)
        if k == "elem":
            b = self.t(t.a[0])
            if b.k == "flat":
                return T("elem", T("flatiter", b.a[0]))
            return T("elem", b)
        if k in ("dkey", "dval"):
            return T(k, self.t(t.a[0]))
        if k == "tup":
            return T("tup", tuple(self.t(x) for x in t.a[0]))
        if k == "new":
            return self._new(t)
        if k == "ditems":
            return T("ditems", self.t(t.a[0]))
        return t

    def _new(self, t):
        """A container rebuilt element by element from another one is that container's copy."""
        kind = t.a[0]
        sl = self.st.slots(t)
        if str(kind).startswith("obj:"):
            src = None
            n = 0
            for s, v in sl.items():
                if isinstance(s, tuple) and s[0] == "a":
                    f = self(v)
                    if len(f) != 1:
                        return t
                    x = strip_all(one(f))
                    if x.k != "attr" or x.a[1] != s[1] or (src is not None and x.a[0] is not src):
                        return t
                    src = x.a[0]
                    n += 1
            return src if n and src is not None else t
        if kind in ("list", "gen", "set"):
            c = sl.get("*")
            pos = {s: v for s, v in sl.items() if isinstance(s, tuple) and s[0] == "i"}
            if c is not None and not pos:
                n = self(c)
                if len(n) == 1:
                    e = one(n)
                    if e.k == "elem":
                        if sl.get("filtered") is not None:
                            return T("filtered", e.a[0])
                        return T("conv", kind if kind != "gen" else "iter", e.a[0])
                    if e.k == "tup" and len(e.a[0]) == 2 and e.a[0][0].k == "dkey" and e.a[0][1].k == "dval" and e.a[0][0].a[0] is e.a[0][1].a[0]:
                        return T("conv", "pairs", e.a[0][0].a[0])
            return t
        if kind == "dict":
            ks, vs = sl.get("keys"), sl.get("*")
            if ks is not None and vs is not None:
                kn, vn = self(ks), self(vs)
                if len(kn) == 1 and len(vn) == 1:
                    a, b = one(kn), one(vn)
                    if a.k == "dkey" and b.k == "dval" and a.a[0] is b.a[0]:
                        if sl.get("filtered") is not None:
                            return T("filtered", a.a[0])
                        return T("conv", "dict", a.a[0])
        return t

    def _call(self, t):
        ext = callee_ext(t)
        name = callee_name(t)
        a0 = self.t(t.a[1][0]) if t.a[1] else None
        c = t.a[0]
        qual = c.a[0] if c.k == "func" else (c.a[1] if c.k == "bound" else None)
        # registered decoder/encoder pairs
        if qual in self.pairs and a0 is not None:
            enc = self.pairs[qual]
            if a0.k == "call":
                c2 = a0.a[0]
                q2 = c2.a[0] if c2.k == "func" else (c2.a[1] if c2.k == "bound" else None)
                if q2 == enc:
                    if c2.k == "func" and a0.a[1]:
                        return self.t(a0.a[1][0])
                    if c2.k == "bound":
                        return self.t(c2.a[0])
        if c.k == "attr" and a0 is not None and ("." + c.a[1]) in self.pairs:
            pass
        if ext in PAIR_EXT and a0 is not None:
            x = a0
            if x.k == "call" and callee_name(x) in ("decode", "encode") and recv_of(x) is not None:
                x = self.t(recv_of(x))
            if x.k == "call" and callee_ext(x) == PAIR_EXT[ext]:
                return self.t(x.a[1][0])
        if name in ("decode", "encode") and recv_of(t) is not None:
            r = self.t(recv_of(t))
            if r.k == "call" and callee_name(r) == ("encode" if name == "decode" else "decode") and recv_of(r) is not None:
                return self.t(recv_of(r))
            return T("call", T("attr", r, name), (), (), 0)
        if name == "fromhex" and a0 is not None and a0.k == "call" and callee_name(a0) == "hex":
            return self.t(recv_of(a0))
        if ext in COERCE and a0 is not None:
            if a0.k == "conv" and a0.a[0] in ("bytes",):
                return self.t(a0.a[1])
            return T("coerce", ext.split(".")[-1], strip_coerce(a0))
        if ext in ("builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset") and a0 is not None:
            return T("conv", ext.split(".")[-1], strip_conv(a0))
        if ext == "builtins.dict" and a0 is not None:
            return T("conv", "dict", strip_conv(a0))
        if ext in IDENT_EXT and a0 is not None:
            return a0
        if (name in IDENT_METHODS) and c.k in ("attr", "bound"):
            if name == "copy" and not t.a[1]:
                return self.t(recv_of(t))
            if name == "_convert" and a0 is not None:
                return a0
        if qual in self.ident_funcs and a0 is not None:
            return a0
        # numpy buffers
        if ext == "numpy.frombuffer" and a0 is not None:
            x = a0
            if x.k == "call" and callee_name(x) == "tobytes" and not _order(x):
                arr = self.t(recv_of(x))
                dt = self.arg(t, 1, "dtype")
                if dt is not None and self._dtype_of(self.t(dt)) is arr:
                    return T("flat", arr)
        if name == "reshape" and recv_of(t) is not None:
            r = self.t(recv_of(t))
            sh = None
            if t.a[1]:
                sh = self.t(t.a[1][0])
            if r.k == "flat" and sh is not None:
                s = strip_conv(sh)
                if s.k == "star":
                    s = strip_conv(s.a[0])
                if s is T("attr", r.a[0], "shape"):
                    return r.a[0]
            w = self._written_items(recv_of(t))
            if w is not None and sh is not None:
                s = strip_conv(sh)
                if s.k == "attr" and s.a[1] == "shape" and self._elem_of_flat(w, s.a[0]):
                    return s.a[0]
            return T("call", T("attr", r, "reshape"), (sh,) if sh is not None else (), (), 0)
        # arrow IPC
        if name == "read_all" and recv_of(t) is not None:
            r = self.t(recv_of(t))
            if r.k == "call" and callee_name(r) in ("open_stream", "RecordBatchStreamReader", "open_file"):
                src = self.t(r.a[1][0]) if r.a[1] else None
                if src is not None:
                    for s in self._sinks(src):
                        w = self.st.heap.get((s, "written"))
                        if w is not None:
                            n = self(w)
                            if len(n) == 1:
                                return one(n)
        if name in ("to_pybytes", "getvalue", "tobytes", "to_bytes") and recv_of(t) is not None:
            r = self.t(recv_of(t))
            o = _order(t)
            return T("call", T("attr", r, name), (C(o),) if o else (), (), 0)
        if name == "from_pandas" and a0 is not None:
            return T("arrow_of_pandas", a0)
        if name == "get" and c.k == "attr" and t.a[1]:
            pass
        return T("call", c if c.k not in ("attr",) else T("attr", self.t(c.a[0]), c.a[1]), tuple(self.t(x) for x in t.a[1]), tuple((n, self.t(v)) for n, v in t.a[2]), t.a[3])

    def _sinks(self, src):
        return [x for x in subterms(src) if x.k == "call"]

    def _dtype_of(self, d):
        """np.dtype(str(x.dtype)) / x.dtype / str(x.dtype) -> x"""
        for _ in range(4):
            if d.k == "call" and callee_ext(d) == "numpy.dtype" and d.a[1]:
                d = self.t(d.a[1][0])
            elif d.k == "coerce" and d.a[0] == "str":
                d = d.a[1]
            elif d.k == "attr" and d.a[1] in ("str", "name") and d.a[0].k == "attr" and d.a[0].a[1] == "dtype":
                d = d.a[0]
            else:
                break
        if d.k == "attr" and d.a[1] == "dtype":
            return d.a[0]
        return None

    def _written_items(self, t):
        """np.empty(n, dtype=object) filled by item assignment -> value stored"""
        if t.k == "call" and callee_ext(t) in ("numpy.empty", "numpy.zeros", "numpy.ndarray"):
            vals = set()
            for (o, slot), v in self.st.heap.items():
                if o is t and (slot == "*" or (isinstance(slot, tuple) and slot[0] in ("k", "i"))):
                    vals |= set(v)
            if vals:
                return frozenset(vals)
        if t.k == "phi":
            outs = [self._written_items(x) for x in t.a[0]]
            if all(o is not None for o in outs):
                return frozenset().union(*outs)
        return None

    def _elem_of_flat(self, w, arr):
        n = self(w)
        ok = True
        for e in n:
            src = None
            if e.k == "elem":
                src = strip_conv(e.a[0])
            elif e.k in ("conv", "new"):
                # slice assignment arr[:] = items
                src = strip_conv(e)
            if src is None:
                return False
            if src.k == "attr" and src.a[1] == "flat":
                ok = ok and src.a[0] is arr
            elif src.k == "call" and callee_name(src) in ("flatten", "ravel", "tolist"):
                ok = ok and arr in subterms(src) and not _order(src)
            else:
                return False
        return ok


def _order(t):
    """A memory order other than C given to an array flattening call."""
    for x in [v for k, v in t.a[2] if k == "order"] + list(t.a[1] if callee_name(t) in ("ravel", "flatten", "tobytes") else ()):
        if x.k == "const" and x.a[1] in ("C", None):
            continue
        return show(x)
    return None


def strip_conv(t):
    while t.k == "conv":
        t = t.a[1]
    return t


def strip_coerce(t):
    while t.k == "coerce":
        t = t.a[1]
    return t


def strip_all(t):
    while t.k in ("coerce", "conv"):
        t = t.a[1]
    return t


def leftover_codecs(v, st=None):
    """Names of codec calls that did not cancel."""
    out = set()
    todo = list(split(v)) if not isinstance(v, T) else [v]
    for t in todo:
        for x in subterms(t):
            if x.k == "call" and callee_name(x) in CODEC_NAMES:
                out.add(callee_name(x))
    return out


class SerdeClient(Client):
    """Inlines the code under analysis, keeps the generic encoder/decoder entry points symbolic,
    models BinaryContext segments and writer sinks."""

    max_states = 32
    assume_nonempty_loops = True

    def __init__(self, keep: set, inline_pred, construct_hook=None):
        self.keep = keep  # function quals kept symbolic
        self.inline_pred = inline_pred
        self.construct_hook = construct_hook

    def should_inline(self, it, fi, call):
        if fi.qual in self.keep:
            return False
        if fi.name == "_convert":
            return False
        return self.inline_pred(fi)

    def on_call(self, it, call):
        if call.callee.k == "attr" and call.name == "save" and call.args:
            st = call.st.copy()
            for a in split(call.args[0]):
                st.heap[(a, "written")] = norm_value(st.heap.get((a, "written"), EMPTY) | call.recv)
            return it.opaque(call, st)
        if call.callee.k == "attr" and call.name == "load" and call.args:
            st = call.st.copy()
            for r in split(call.recv):
                if r.k == "call":
                    st.heap[(r, "written")] = norm_value(st.heap.get((r, "written"), EMPTY) | frozenset().union(*call.args))
            return it.opaque(call, st)
        if call.name == "add_segment" and call.args and call.recv is not None:
            return [(V(T("seg", one(call.args[0]))), call.st)]
        if call.callee.k == "attr" and call.name.startswith("write") and call.args and call.recv is not None:
            st = call.st.copy()
            for r in split(call.recv):
                for x in subterms(r):
                    if x.k == "call":
                        st.heap[(x, "written")] = norm_value(st.heap.get((x, "written"), EMPTY) | call.args[0])
            # still an ordinary opaque call
            return it.opaque(call, st)
        if self.construct_hook is not None and call.cls is not None:
            return self.construct_hook(it, call)
        return None

    def on_getitem(self, it, obj, idx, st, node, frame):
        i = one(idx)
        if i.k == "seg":
            return [(V(*split(i.a[0])), st)]
        return None
