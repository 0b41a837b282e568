"""C20: native kernels are called with the layout they were compiled for.

The native side is read from its sources (declarations; the extents its loops index and the parameters it writes come
from clang's syntax tree and LLVM's representation of the current sources). The Python side follows every path of the
implementations that reach a native routine: which buffers they pass, how these were made, and which sizes the checks
passed on the way leave possible.
"""
from __future__ import annotations

import ast
import itertools
import json
import os
import re
import shutil
import subprocess
import tempfile

from sa.engine import C, EMPTY, FALSE, NONE, TRUE, Client, Engine, T, V, one, show, split, subterms
from sa.project import REPO
from rules.common import all_nodes
from rules.c21 import plain

RULES = {
    "declared": "the declared prototype of a native routine has the number, order and width of its parameters, and every call passes that many arguments",
    "published": "a library that could not be loaded or lacks a routine is never used: it is published only after every routine was declared",
    "buffers": "a buffer passed is contiguous, has the element type the routine indexes, and stays alive for the call",
    "direction": "what a routine writes is a fresh buffer that is returned; it writes nothing else",
    "sized": "every buffer is at least as large as the passed lengths make the routine index",
    "status": "a failure a routine reports is not ignored",
    "fallback": "without the library the equivalent fallback is computed from the same inputs, or an error is raised",
    "paired": "the two sides of an encoded table choose its layout by the size of the table only, and alike",
    "indexed": "a native routine's loops stay within the buffers of the sizes its callers provide",
    "agrees": "a native routine and its fallback compute the same hash, product and permutation; a table is solved and decoded with one hash",
    "halves": "a carry-less product does not select a half that is constantly zero",
}
LIB = T("param", ("native", "lib"), "lib")
# how many 64-bit integers a routine indexes, by the names of its parameters
CONTRACT = {
    "gf128_mul": {"a": "2", "b": "2", "out": "2"},
    "gf128_mul_test": {"a": "2", "b": "2", "out": "2"},
    "gf128_mul_batch": {"a": "2*n", "b": "2*n", "out": "2*n"},
    "solve_okvs": {"keys": "n", "values": "2*n", "output": "2*m", "seed": "2"},
    "solve_okvs_opt": {"keys": "n", "values": "2*n", "output": "2*m", "seed": "2"},
    "decode_okvs": {"keys": "n", "storage": "2*m", "output": "2*n", "seed": "2"},
    "decode_okvs_opt": {"keys": "n", "storage": "2*m", "output": "2*n", "seed": "2"},
    "aes_128_expand": {"seeds": "2*num_seeds", "output": "2*num_seeds*length"},
    "ldpc_encode": {"message": "2*n", "indptr": "m+1", "output": "2*m"},
}
ORDER = {
    "gf128_mul": ("a", "b", "out"), "gf128_mul_test": ("a", "b", "out"), "gf128_mul_batch": ("a", "b", "out", "n"),
    "solve_okvs": ("keys", "values", "output", "n", "m", "seed"), "solve_okvs_opt": ("keys", "values", "output", "n", "m", "seed"),
    "decode_okvs": ("keys", "storage", "output", "n", "m", "seed"), "decode_okvs_opt": ("keys", "storage", "output", "n", "m", "seed"),
    "aes_128_expand": ("seeds", "output", "num_seeds", "length"), "ldpc_encode": ("message", "indices", "indptr", "output", "m", "n"),
}
OUT = {"out", "output"}


def emit(rep, rule, inst, where, bad):
    bad = list(dict.fromkeys(bad)) if not isinstance(bad, str) else [bad] if bad else []
    rep.check(not bad, rule, inst, where, "; ".join(bad))


# ------------------------------------------------------------------ the native sources
WIDTH = {"uint64_t": 8, "int64_t": 8, "size_t": 8, "ssize_t": 8, "uintptr_t": 8, "intptr_t": 8, "ptrdiff_t": 8, "uint32_t": 4, "int32_t": 4, "int": 4, "unsigned": 4, "unsigned int": 4, "signed": 4, "uint16_t": 2, "int16_t": 2, "short": 2, "uint8_t": 1, "int8_t": 1, "char": 1, "unsigned char": 1, "bool": 1, "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8, "long int": 8, "double": 8, "float": 4, "__m128i": 16, "void": 0, "std::size_t": 8, "std::uint64_t": 8, "std::int64_t": 8, "std::uint32_t": 4, "std::int32_t": 4}


class CFun:
    def __init__(self, name, ret, params, file, line, body):
        self.name, self.ret, self.params, self.file, self.line, self.body = name, ret, params, file, line, body

    @property
    def where(self):
        return f"{self.file}:{self.line}"

    def names(self):
        """The parameters under the names the contract uses: their own if these are known, their place otherwise."""
        own = [re.sub(r"(_ptr|_p|_in)$", "", q[1]) for q in self.params]
        want = ORDER.get(self.name)
        if want is None or len(want) != len(own) or set(own) == set(want):
            return own
        return list(want)


def decomment(s):
    def keep(m):
        return re.sub(r"[^\n]", " ", m.group(0)) if m.group(0)[0] == "/" else m.group(0)

    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"', keep, s, flags=re.S)


def ctype(s, alias):
    """(width, is pointer, is const pointee)"""
    const = bool(re.search(r"\bconst\b", s.split("*")[0]))
    s = re.sub(r"\b(const|volatile|restrict|__restrict__|__restrict|struct)\b", " ", s)
    ptr = s.count("*") + s.count("&") + s.count("[")
    base = " ".join(re.sub(r"[*&]|\[[^]]*\]", " ", s).split())
    for _ in range(5):
        base = alias.get(base, base)
    return WIDTH.get(base), ptr, const


def native(repo):
    """The functions with C linkage, by name."""
    out, files = {}, []
    d = os.path.join(repo, "mplang", "kernels")
    for root, dirs, names in os.walk(d):
        for n in sorted(names):
            if n.endswith((".cpp", ".cc", ".c", ".cxx", ".h", ".hpp")):
                files.append(os.path.join(root, n))
    alias = {}
    texts = {f: decomment(open(f, encoding="utf-8").read()) for f in sorted(files)}
    for f, s in texts.items():
        for m in re.finditer(r"\btypedef\s+([^;{}]+?)\s+(\w+)\s*;", s):
            alias[m.group(2)] = m.group(1).strip()
        for m in re.finditer(r"\busing\s+(\w+)\s*=\s*([^;{}]+);", s):
            alias[m.group(1)] = m.group(2).strip()
    for f, s in texts.items():
        rel = os.path.relpath(f, repo)
        spans = []
        if f.endswith(".c"):
            spans.append((0, len(s), False))
        for m in re.finditer(r'extern\s*"C"\s*(\{)?', s):
            if m.group(1):
                spans.append((m.end(), matching(s, m.end() - 1), False))
            else:
                spans.append((m.end(), len(s), True))
        for a, b, single in spans:
            i = a
            while i < b:
                m = re.compile(r"([A-Za-z_][\w\s\*&:<>,]*?)\b(\w+)\s*\(([^()]*)\)\s*(?:noexcept\s*)?\{").search(s, i, b)
                brace = s.find("{", i, b)
                if m is None:
                    break
                if brace != -1 and brace < m.end() - 1:
                    i = matching(s, brace)
                    continue
                end = matching(s, m.end() - 1)
                head = m.group(1)
                last = re.split(r"[;}]", head)[-1]
                words = last.split()
                if m.group(2) not in ("if", "for", "while", "switch") and not {"static", "inline", "template"} & set(words) and words:
                    ps = []
                    for q in [q.strip() for q in m.group(3).split(",") if q.strip() and q.strip() != "void"]:
                        mm = re.match(r"(.*?)(\w+)\s*(\[[^]]*\])?$", q, re.S)
                        ps.append((ctype(mm.group(1) + ("*" if mm.group(3) else ""), alias), mm.group(2)))
                    rt = re.sub(r'\bextern\b|\b__attribute__\b', " ", last)
                    out[m.group(2)] = CFun(m.group(2), ctype(rt, alias), ps, rel, s.count("\n", 0, m.start(2)) + 1, s[m.end() - 1:end])
                i = end
                if single:
                    break
    return out, texts


def matching(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == "{":
            d += 1
        elif s[j] == "}":
            d -= 1
            if d == 0:
                return j + 1
    return len(s)


# ------------------------------------------------------------------ ctypes
CT = {"c_uint64": 8, "c_int64": 8, "c_ulonglong": 8, "c_longlong": 8, "c_size_t": 8, "c_ssize_t": 8, "c_ulong": 8, "c_long": 8, "c_uint32": 4, "c_int32": 4, "c_uint": 4, "c_int": 4, "c_ushort": 2, "c_short": 2, "c_uint16": 2, "c_int16": 2, "c_uint8": 1, "c_int8": 1, "c_ubyte": 1, "c_byte": 1, "c_char": 1, "c_bool": 1, "c_double": 8, "c_float": 4}


def ext_name(t):
    return t.a[0] if t is not None and t.k == "ext" else None


def ctypes_type(p, t, st=None):
    """(width, pointer depth) of a term naming a ctypes type; None when unknown. A void pointer has width None."""
    if t is None:
        return None
    n = ext_name(t)
    if n:
        n = n.rsplit(".", 1)[-1]
        if n in CT:
            return CT[n], 0
        return (None, 1) if n == "c_void_p" else (1, 1) if n == "c_char_p" else None
    if t.k == "modvar":
        for node in p.modules[t.a[0]].tree.body if t.a[0] in p.modules else ():
            tg = node.targets[0] if isinstance(node, ast.Assign) else node.target if isinstance(node, ast.AnnAssign) else None
            if isinstance(tg, ast.Name) and tg.id == t.a[1] and node.value is not None:
                return typed_ast(p, node.value, p.modules[t.a[0]])
        return None
    if t.k == "call":
        n = ext_name(t.a[0]) or ""
        if n == "ctypes.POINTER" and t.a[1]:
            i = ctypes_type(p, t.a[1][0])
            return i and (i[0], i[1] + 1)
        if n.endswith("ndpointer"):
            k = dict(t.a[2])
            d = k.get("dtype") or (t.a[1][0] if t.a[1] else None)
            w = dtype(d)
            return (w[1] if w else None, 1)
    return None


def typed_ast(p, e, mod):
    if isinstance(e, ast.Call):
        r = p.resolve_expr(e.func, mod, None)
        if r and r[0] == "ext" and r[1] == "ctypes.POINTER" and e.args:
            i = typed_ast(p, e.args[0], mod)
            return i and (i[0], i[1] + 1)
        return None
    r = p.resolve_expr(e, mod, None) if isinstance(e, (ast.Name, ast.Attribute)) else None
    if r and r[0] == "ext":
        return ctypes_type(p, T("ext", r[1]))
    if r and r[0] == "modvar":
        return ctypes_type(p, T("modvar", getattr(r[1], "name", r[1]), r[2]))
    return None


def dtype(t):
    """(kind, width) of a numpy element type."""
    if t is None:
        return None
    n = ext_name(t)
    if n is None and t.k == "const" and isinstance(t.a[-1], str):
        n = t.a[-1]
    if n is None and t.k == "call" and (ext_name(t.a[0]) or "").endswith(".dtype") and t.a[1]:
        return dtype(t.a[1][0])
    if n is None:
        return None
    n = n.rsplit(".", 1)[-1].lstrip("<=|")
    m = re.fullmatch(r"(uint|int|float|complex)(8|16|32|64|128)?_?", n)
    if m:
        return m.group(1), int(m.group(2) or 64) // 8
    m = re.fullmatch(r"([uifc])(1|2|4|8|16)", n)
    if m:
        return {"u": "uint", "i": "int", "f": "float", "c": "complex"}[m.group(1)], int(m.group(2))
    return {"bool": ("bool", 1), "bool_": ("bool", 1), "double": ("float", 8), "single": ("float", 4), "ubyte": ("uint", 1), "uintp": ("uint", 8), "intp": ("int", 8), "longlong": ("int", 8), "ulonglong": ("uint", 8), "uintc": ("uint", 4), "intc": ("int", 4)}.get(n)


# ------------------------------------------------------------------ arrays
def fname(t):
    """Name of what a call term calls."""
    if t.k != "call":
        return None
    c = t.a[0]
    n = ext_name(c)
    if n:
        return n
    if c.k == "attr":
        return "." + c.a[1]
    if c.k == "bound":
        return "." + str(c.a[1]).rsplit(".", 1)[-1]
    if c.k in ("func", "class"):
        return str(c.a[0])
    return None


def is_np(n, *names):
    return n is not None and "." in n and not n.startswith(".") and n.rsplit(".", 1)[0] in ("numpy", "jax.numpy") and n.rsplit(".", 1)[1] in names


def arg(t, i, name):
    k = dict(t.a[2])
    return k[name] if name in k else t.a[1][i] if i is not None and len(t.a[1]) > i else None


NEW = ("zeros", "empty", "ones", "full")
LIKE = ("zeros_like", "empty_like", "ones_like", "full_like")


class Arr:
    """How an array was made: contiguous True, False (it may not be) or None (unknown); element type; fresh memory."""

    def __init__(self, base, contig, dt, fresh):
        self.base, self.contig, self.dt, self.fresh = base, contig, dt, fresh


def arr(t):
    n = fname(t)
    if is_np(n, *NEW):
        d = arg(t, 2 if n.endswith("full") else 1, "dtype")
        o = arg(t, None, "order")
        return Arr(t, o is None or o.k == "const" and o.a[-1] in ("C", "K"), ("float", 8) if d is None and not n.endswith("full") else dtype(d), True)
    if is_np(n, *LIKE) and t.a[1]:
        a = arr(t.a[1][0])
        d = arg(t, 2 if n.endswith("full_like") else 1, "dtype")
        return Arr(t, a.contig, dtype(d) if d is not None else a.dt, True)
    if is_np(n, "ascontiguousarray") and t.a[1]:
        a = arr(t.a[1][0])
        d = arg(t, 1, "dtype")
        return Arr(a.base, True, dtype(d) if d is not None else a.dt, False)
    if is_np(n, "asarray", "asanyarray", "array", "require") and t.a[1]:
        a = arr(t.a[1][0])
        d = arg(t, 1, "dtype")
        o = arg(t, None, "order") if not n.endswith("require") else arg(t, 2, "requirements")
        c = a.contig
        if o is not None:
            c = True if o.k == "const" and o.a[-1] in ("C", "C_CONTIGUOUS") else None if o.k != "const" or n.endswith("require") else a.contig
        cp = arg(t, None, "copy")
        return Arr(a.base, c, dtype(d) if d is not None else a.dt, n.endswith(".array") and cp is None)
    if is_np(n, "copy") and t.a[1]:
        a = arr(t.a[1][0])
        return Arr(a.base, a.contig, a.dt, True)
    if is_np(n, "frombuffer"):
        d = arg(t, 1, "dtype")
        return Arr(t, True, dtype(d) if d is not None else ("float", 8), False)
    if is_np(n, "arange"):
        d = arg(t, None, "dtype")
        return Arr(t, True, dtype(d) if d is not None else None, True)
    if n in (".flatten", ".ravel", ".copy", ".astype", ".reshape", ".view"):
        a = arr(t.a[0].a[0])
        o = arg(t, None, "order")
        if o is not None and not (o.k == "const" and o.a[-1] == "C"):
            return Arr(a.base, None if o.k != "const" else False if o.a[-1] == "F" else a.contig, dtype(arg(t, 0, "dtype")) if n == ".astype" else a.dt, n in (".flatten", ".copy"))
        c = True if n in (".flatten", ".ravel", ".copy") or o is not None and n == ".astype" else a.contig
        d = dtype(arg(t, 0, "dtype")) if n in (".astype", ".view") and (t.a[1] or t.a[2]) else a.dt
        cp = arg(t, None, "copy")
        return Arr(a.base, c, d, n in (".flatten", ".copy") or n == ".astype" and cp is None)
    if t.k == "attr" and t.a[1] == "T" or n in (".transpose", ".swapaxes"):
        a = arr(t.a[0] if t.k == "attr" else t.a[0].a[0])
        return Arr(a.base, False, a.dt, False)
    if t.k == "item" and t.a[1].k in ("slice", "tup"):
        a = arr(t.a[0])
        return Arr(a.base, False, a.dt, False)
    if t.k == "call" and not n.startswith(".") if n else False:
        # of another's making: contiguity and element type of what an input delivers are not known
        return Arr(t, False if raw(t) else None, False if raw(t) else None, False)
    return Arr(t, False if raw(t) else None, False if raw(t) else None, False)


def raw(t):
    """An input as the caller or another party handed it over."""
    if t.k == "param":
        return t is not LIB
    if t.k == "call":
        n = fname(t) or ""
        if n.rsplit(".", 1)[-1] in ("_unwrap", "unwrap", "to_numpy", "as_numpy"):
            return True
    return t.k == "attr" and t.a[1] in ("data", "value") and t.a[0].k == "param"


def pointer_of(t):
    """(array term, how, ctypes type term) of a pointer argument."""
    n = fname(t) or ""
    if n == ".data_as" and t.a[0].a[0].k == "attr" and t.a[0].a[0].a[1] == "ctypes":
        return t.a[0].a[0].a[0], "kept", t.a[1][0] if t.a[1] else None
    if t.k == "attr" and t.a[1] == "data" and t.a[0].k == "attr" and t.a[0].a[1] == "ctypes":
        return t.a[0].a[0], "address", None
    if n in ("ctypes.cast", "ctypes.c_void_p", "ctypes.POINTER") and t.a[1]:
        i = pointer_of(t.a[1][0])
        return i and (i[0], i[1], t.a[1][1] if n == "ctypes.cast" and len(t.a[1]) > 1 else None)
    if n.endswith("as_ctypes") and t.a[1]:
        return t.a[1][0], "kept", None
    return None


# ------------------------------------------------------------------ sizes, evaluated on a family of small shapes
class Need(Exception):
    def __init__(self, atom, kind):
        self.atom, self.kind = atom, kind


class Unknown(Exception):
    pass


class Impossible(Exception):
    pass


BIG = 1000
SHAPES = [(k,) for k in (0, 1, 2, 3, 4)] + [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (4, 2), (2, 3), (1, 4), (2, 2, 2)]
BYTES = [(16,), (1, 16), (2, 16), (3, 16), (8,), (2, 8)]


def prod(s):
    r = 1
    for x in s:
        r *= x
    return r


class Sizes:
    def __init__(self, env):
        self.env = env

    def shape(self, t):
        n = fname(t)
        if is_np(n, *NEW):
            s = self.val(arg(t, 0, "shape"))
            return (s,) if isinstance(s, int) else s
        if (is_np(n, *LIKE) or is_np(n, "ascontiguousarray", "asarray", "array", "asanyarray", "copy", "require")) and t.a[1]:
            s = self.shape(t.a[1][0])
            return s if s or not is_np(n, "ascontiguousarray") else (1,)
        if n in (".astype", ".copy"):
            return self.shape(t.a[0].a[0])
        if n in (".flatten", ".ravel"):
            return (prod(self.shape(t.a[0].a[0])),)
        if n == ".reshape":
            s = self.shape(t.a[0].a[0])
            want = [self.val(x) for x in t.a[1]]
            if len(want) == 1 and isinstance(want[0], tuple):
                want = list(want[0])
            if want.count(-1) == 1:
                rest = prod(x for x in want if x != -1)
                if rest == 0 or prod(s) % rest:
                    raise Impossible
                want[want.index(-1)] = prod(s) // rest
            if prod(want) != prod(s):
                raise Impossible
            return tuple(want)
        if n == ".view":
            s, w = self.shape(t.a[0].a[0]), self.width(t.a[0].a[0])
            d = dtype(arg(t, 0, "dtype"))
            if d is None:
                raise Unknown
            if not s:
                raise Impossible
            if s[-1] * w % d[1]:
                raise Impossible
            return s[:-1] + (s[-1] * w // d[1],)
        if t.k == "attr" and t.a[1] == "T":
            return tuple(reversed(self.shape(t.a[0])))
        if t.k == "item" and t.a[1].k == "slice":
            s = self.shape(t.a[0])
            ab = [None if x is None or x.k == "const" and x.a[-1] is None else self.val(x) for x in (list(t.a[1].a) + [None] * 3)[:3]]
            if not s:
                raise Impossible
            return (len(range(s[0])[slice(*ab)]),) + s[1:]
        if t.k == "item":
            raise Unknown
        if raw(t) or t.k == "call" and n and not n.startswith("."):
            if t not in self.env:
                raise Need(t, "array")
            return self.env[t][0]
        raise Unknown

    def width(self, t):
        a = arr(t)
        if a.dt:
            return a.dt[1]
        b = self.env.get(a.base)
        if b is None:
            self.shape(a.base)
            raise Unknown
        return b[1]

    def val(self, t):
        if t is None:
            raise Unknown
        if t in self.env and not isinstance(self.env[t], tuple):
            return self.env[t]
        if t.k == "const":
            v = t.a[-1]
            if isinstance(v, bool) or v is None or isinstance(v, str):
                return v
            if isinstance(v, int):
                return 3 if v >= BIG else v
            raise Unknown
        if t.k == "tup":
            return tuple(self.val(x) for x in (t.a[0] if t.a and isinstance(t.a[0], tuple) else t.a))
        if t.k == "attr":
            if t.a[1] == "shape":
                return self.shape(t.a[0])
            if t.a[1] == "size":
                return prod(self.shape(t.a[0]))
            if t.a[1] == "ndim":
                return len(self.shape(t.a[0]))
            if t.a[1] == "nbytes":
                return prod(self.shape(t.a[0])) * self.width(t.a[0])
            if t.a[1] == "itemsize":
                return self.width(t.a[0])
            if t.a[1] == "dtype":
                a = arr(t.a[0])
                if a.dt:
                    return ("dtype",) + a.dt
                self.shape(t.a[0])
                w = self.width(t.a[0])
                return ("dtype", "uint", w)
        if t.k == "ext" and dtype(t):
            return ("dtype",) + dtype(t)
        if t.k == "item":
            i = self.val(t.a[1])
            if t.a[0].k == "attr" and t.a[0].a[1] == "attrs":
                if t not in self.env:
                    raise Need(t, "number")
                return self.env[t]
            c = self.val(t.a[0])
            if isinstance(c, tuple) and isinstance(i, int):
                if not -len(c) <= i < len(c):
                    raise Impossible
                return c[i]
            raise Unknown
        if t.k == "bin":
            a, b = self.val(t.a[1]), self.val(t.a[2])
            if not (isinstance(a, int) and isinstance(b, int)):
                raise Unknown
            if t.a[0] in ("FloorDiv", "Mod", "Div"):
                if b == 0:
                    raise Impossible
                return a // b if t.a[0] == "FloorDiv" else a % b if t.a[0] == "Mod" else a / b
            if t.a[0] in ("Add", "Sub", "Mult"):
                return a + b if t.a[0] == "Add" else a - b if t.a[0] == "Sub" else a * b
            if t.a[0] in ("RShift", "LShift") and b >= 0:
                return a >> b if t.a[0] == "RShift" else a << b
            raise Unknown
        if t.k == "cmp":
            a, b = self.val(t.a[1]), self.val(t.a[2])
            if t.a[0] in ("==", "is"):
                return a == b
            if t.a[0] == "<":
                if isinstance(a, int) and isinstance(b, int):
                    return a < b
            if t.a[0] == "in" and isinstance(b, tuple):
                return a in b
            raise Unknown
        if t.k == "call":
            n = fname(t) or ""
            if n == "builtins.len" and t.a[1]:
                s = self.shape(t.a[1][0]) if t.a[1][0].k != "tup" and not (t.a[1][0].k == "attr" and t.a[1][0].a[1] == "shape") else self.val(t.a[1][0])
                if not s and t.a[1][0].k not in ("attr", "tup"):
                    raise Impossible
                return len(s) if t.a[1][0].k in ("attr", "tup") and not raw(t.a[1][0]) else s[0]
            if n in ("builtins.int", "operator.index") and t.a[1]:
                return self.val(t.a[1][0])
            if n in ("numpy.prod", "math.prod") and t.a[1]:
                v = self.val(t.a[1][0])
                if isinstance(v, tuple):
                    return prod(v)
            if n == "numpy.size" and len(t.a[1]) == 1:
                return prod(self.shape(t.a[1][0]))
            if n == "numpy.shape" and t.a[1]:
                return self.shape(t.a[1][0])
            if n in ("builtins.min", "builtins.max") and len(t.a[1]) > 1:
                return (min if n.endswith("min") else max)(self.val(x) for x in t.a[1])
            if n in ("ctypes.c_uint64", "ctypes.c_int64", "ctypes.c_size_t") and t.a[1]:
                return self.val(t.a[1][0])
            if n in ("numpy.uint64", "numpy.int64") and t.a[1]:
                return self.val(t.a[1][0])
        if t.k == "param" and t is not LIB or t.k == "attr" and t.a[0].k == "param":
            raise Need(t, "number")
        raise Unknown


def counterexample(conds, goals, st):
    """Shapes and numbers under which all conditions hold and a goal (have, want) is not met. Returns (env, goal, the
    conditions that could not be told) or None."""
    def assign(env, todo, fuzzy):
        for i, c in enumerate(todo):
            t, truth = c
            try:
                v = Sizes(env).val(t)
                if bool(v) != truth:
                    return None
            except Need as n:
                return branch(n, env, todo[i:], fuzzy)
            except Unknown:
                fuzzy = fuzzy + [c]
            except Impossible:
                return None
        for g in goals:
            try:
                s = Sizes(env)
                have, want = g[0](s), g[1](s)
                if have < want:
                    return dict(env), g, fuzzy, have, want
            except Need as n:
                return branch(n, env, [], fuzzy)
            except (Unknown, TypeError):
                continue
            except Impossible:
                continue
        return None

    def branch(n, env, todo, fuzzy):
        if n.kind == "array":
            dom = [(s, 8) for s in SHAPES]
            if any(t.k == "attr" and t.a[1] == "dtype" and n.atom in subterms(t, set()) for c in conds for t in subterms(c[0], set())):
                dom += [(s, 1) for s in BYTES]
        else:
            dom = range(0, 6)
        for d in dom:
            r = assign({**env, n.atom: d}, todo, fuzzy)
            if r:
                return r
        return None

    # conditions about few things first
    return assign({}, list(conds), [])


# ------------------------------------------------------------------ following the callers
def deep(v, st):
    seen, todo, objs, out = set(), list(v), set(), []
    while todo:
        for x in subterms(todo.pop(), seen):
            out.append(x)
            for (o, k), val in st.heap.items() if x.k == "new" and x not in objs else ():
                if o is x:
                    todo.extend(val)
            if x.k == "new":
                objs.add(x)
    return out


class Calls(Client):
    exact = orders = path_sensitive = comp_facts = True
    max_states = 400
    max_depth = 8

    def __init__(self, p, mods, funs, loaders, kernels):
        self.p, self.mods, self.funs, self.loaders, self.kernels = p, mods, funs, loaders, kernels
        self.calls = []          # (routine, term, args, kwargs, state, node)
        self.unknown_routines, self.written = set(), set()

    def should_inline(self, it, fi, call):
        return fi.module.name in self.mods and fi.qual not in self.loaders

    def quiet_call(self, it, call):
        return True

    def routine(self, call):
        if call.target is not None and getattr(call.target, "module", None) is not None:
            return None
        if call.callee is not None:
            for t in (call.callee,):
                if t.k == "attr" and t.a[1] in self.funs and self.is_lib(t.a[0]):
                    return t.a[1]
                if t.k == "call" and (fname(t) or "").endswith("getattr") and len(t.a[1]) > 1 and t.a[1][1].k == "const" and t.a[1][1].a[-1] in self.funs:
                    return t.a[1][1].a[-1]
        return None

    def is_lib(self, t):
        return t is LIB or t.k in ("modvar", "param", "attr", "phi", "call", "item")

    def on_call(self, it, call):
        if call.target is not None and getattr(call.target, "qual", None) in self.loaders:
            return [(V(LIB), call.st.with_fact(("present",))), (NONE, call.st.with_fact(("absent",)))]
        f = self.routine(call)
        if f is not None:
            args = tuple(one(a) for a in call.args)
            t = T("call", T("attr", LIB, f), args, tuple(sorted((k, one(v)) for k, v in call.kwargs.items())), call.site)
            self.calls.append((f, t, args, call.st, it.where(call.node), call.node, call.frame.func))
            return [(V(t), call.st.with_fact(("native", t)))]
        if call.callee is not None:
            for t in (call.callee,):
                if t.k == "attr" and t.a[0] is LIB and t.a[1] not in self.funs:
                    self.unknown_routines.add(t.a[1])
        st = call.st
        for v in list(call.args) + list(call.kwargs.values()):
            for t in v:
                if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[0] is LIB and call.target is not None and not self.should_inline(it, call.target, call):
                    st = st.with_fact(("passed", t))
        if st is not call.st:
            return [(V(T("call", call.callee or T("ext", str(call.name)), tuple(one(a) for a in call.args), (), call.site)), st)]
        return None

    def on_setitem(self, it, obj, idx, val, st, node, frame):
        self.written |= set(obj)
        return st

    def on_cond(self, it, term, truth, st, node, frame):
        if term.k == "cmp" and term.a[0] in ("is", "==") and LIB in term.a[1:] and any(x.k == "const" and x.a[-1] is None for x in term.a[1:]):
            return None if truth else st
        if term is LIB:
            return st if truth else None
        return st.with_fact(("c", term, truth))


def conds(st):
    return [(f[1], f[2]) for f in st.facts if isinstance(f, tuple) and f[0] == "c"]


def run(p, rep, tier):
    for k, text in RULES.items():
        rep.rule(k, text, 0)
    funs, texts = native(REPO)
    if not funs:
        rep.broken("no native sources with C linkage found under mplang/kernels")
        return
    # the module(s) loading the library
    loads = [(n, m, f) for n, m, f in all_nodes(p, ast.Call) if (lambda r: r and r[0] == "ext" and r[1] in ("ctypes.CDLL", "ctypes.PyDLL", "ctypes.cdll.LoadLibrary", "numpy.ctypeslib.load_library"))(p.resolve_expr(n.func, m, f) if isinstance(n.func, (ast.Name, ast.Attribute)) else None)]
    if not loads:
        rep.broken("no load of a native library found")
        return
    mods = {m.name for n, m, f in loads}
    called = {}
    for n, m, f in all_nodes(p, ast.Call):
        if isinstance(n.func, ast.Attribute) and n.func.attr in funs and f is not None and isinstance(n.func.value, ast.Name):
            if p.resolve_expr(n.func, m, f) is None and p.resolve_expr(n.func.value, m, f) is None:
                called.setdefault(f.qual, set()).add(n.func.attr)
                mods.add(m.name)
    loader_funcs = loaders(p, loads, called, mods)
    declared, lrows = declarations(p, rep, funs, loads, loader_funcs, called)
    pairs = callers(p, rep, funs, called, mods, loader_funcs, declared)
    alive(p, rep, mods)
    from rules import c20native
    c20native.run(p, rep, funs, texts, CONTRACT, tier, pairs)


def callees(p, fi):
    out = set()
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Call):
            r = p.resolve_expr(n.func, fi.module, fi) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
            if r and r[0] == "func":
                out.add(r[1].qual)
    return out


def loaders(p, loads, called, mods):
    """Functions that hand out the library."""
    out = {f.qual for n, m, f in loads if f is not None}
    grow = True
    while grow:
        grow = False
        for q, fi in p.functions.items():
            if q in out or q in called or fi.module.name not in mods:
                continue
            if callees(p, fi) & out and not fi.decorators and not callees(p, fi) & set(called):
                # hands the library on
                rets = [n.value for n in ast.walk(fi.node) if isinstance(n, ast.Return) and n.value is not None]
                names = {x.id for n in ast.walk(fi.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and (lambda r: r and r[0] == "func" and r[1].qual in out)(p.resolve_expr(n.value.func, fi.module, fi) if isinstance(n.value.func, (ast.Name, ast.Attribute)) else None) for x in n.targets if isinstance(x, ast.Name)}
                if any(isinstance(r, ast.Call) and (lambda q2: q2 and q2[0] == "func" and q2[1].qual in out)(p.resolve_expr(r.func, fi.module, fi) if isinstance(r.func, (ast.Name, ast.Attribute)) else None) or isinstance(r, ast.Name) and r.id in names for r in rets):
                    out.add(q)
                    grow = True
    return out


# ------------------------------------------------------------------ declarations
class Loading(Client):
    exact = orders = path_sensitive = True
    max_states = 200
    max_depth = 6

    def __init__(self, p, mods, called, missing=None):
        self.p, self.mods, self.missing = p, mods, missing
        self.called = called
        self.sets = {}           # routine -> {attr: set of values}
        self.dynamic = False
        self.libs = set()

    def should_inline(self, it, fi, call):
        return fi.module.name in self.mods

    def quiet_call(self, it, call):
        return True

    def on_call(self, it, call):
        if call.ext in ("ctypes.CDLL", "ctypes.PyDLL", "ctypes.cdll.LoadLibrary", "numpy.ctypeslib.load_library"):
            it.add_raise(T("exc", ("OSError",), 0), call.st.with_fact(("unloaded",)))
            return [(V(LIB), call.st.with_fact(("loaded",)))]
        if call.ext == "builtins.getattr" and len(call.args) > 1 and LIB in call.args[0]:
            n = one(call.args[1])
            if n is None or n.k != "const":
                self.dynamic = True
            else:
                return [(V(T("attr", LIB, n.a[-1])), call.st)]
        if call.ext in ("builtins.hasattr",) and LIB in (call.args[0] if call.args else ()):
            n = one(call.args[1]) if len(call.args) > 1 else None
            if n is not None and n.k == "const" and n.a[-1] == self.missing:
                return [(FALSE, call.st)]
        return None

    def on_getattr(self, it, obj, attr, st, node, frame):
        if LIB in obj and attr == self.missing:
            it.add_raise(T("exc", ("AttributeError",), 0), st.with_fact(("lacks", attr)))
            return []
        return None

    def on_setattr(self, it, obj, attr, val, st, node, frame):
        for o in obj:
            if o.k == "attr" and o.a[0] is LIB and attr in ("argtypes", "restype"):
                self.sets.setdefault(o.a[1], {}).setdefault(attr, []).append((val, st))
                st = st.with_fact(("set", o.a[1], attr))
            elif attr in ("argtypes", "restype"):
                self.dynamic = True
        return st


def holds_library(p, st, mods):
    out = []
    for (o, k), v in st.heap.items():
        if o.k == "mod" and LIB in v:
            out.append(f"{o.a[0]}.{k[1]}")
    return out


def declarations(p, rep, funs, loads, loader_funcs, called):
    allc = set().union(*called.values()) if called else set()
    mods = {m.name for n, m, f in loads}
    declared = {}
    dynamic = any(f is None for n, m, f in loads)
    for q in sorted({f.qual for n, m, f in loads if f is not None}):
        fi = p.functions[q]
        cl = Loading(p, mods, allc)
        rets, raises = Engine(p, cl).run(fi)
        rep.saw(q)
        dynamic |= cl.dynamic
        for f, d in cl.sets.items():
            for a, vs in d.items():
                for v, st in vs:
                    types = []
                    for t in split(v):
                        if a == "restype":
                            types.append(ctypes_type(p, t) if t.k != "const" else ("void",))
                        else:
                            types.append(sequence(p, t, st))
                    declared.setdefault(f, {}).setdefault(a, []).extend(types)
        # a library lacking a routine
        bad = []
        for f in sorted(allc & set(funs)):
            c2 = Loading(p, mods, allc, missing=f)
            r2, x2 = Engine(p, c2).run(fi)
            for exc, st in x2:
                for g in holds_library(p, st, mods):
                    bad.append(f"if the library lacks {f}, {g.rsplit('.', 1)[1]} holds it all the same and the next call uses it undeclared")
            for v, st in r2:
                if ("lacks", f) in st.facts and LIB in v:
                    bad.append(f"a library lacking {f} is returned")
        for v, st in rets:
            if ("unloaded",) in st.facts and LIB in v:
                bad.append("a library that failed to load is returned")
            if not cl.dynamic and ("loaded",) in st.facts and LIB in v:
                for f in sorted(allc & set(funs)):
                    if ("set", f, "argtypes") not in st.facts and f in cl.sets:
                        bad.append(f"{f} is not declared on one path")
        emit(rep, "published", fi.qual[len(fi.module.name) + 1:], fi.where, bad)
    for f, d in sorted(declared.items()):
        bad = []
        c = funs.get(f)
        where = next((fi.where for fi in (p.functions[q] for q in loader_funcs)), "")
        if c is None:
            emit(rep, "declared", f, where, f"there is no native routine {f} in the sources")
            continue
        for ts in d.get("argtypes", ()):
            if ts is None:
                rep.notes.append(f"declared {f}: prototype not understood")
                continue
            if len(ts) != len(c.params):
                bad.append(f"declared with {len(ts)} parameters, the routine has {len(c.params)} ({c.where})")
                continue
            for i, (t, ((w, ptr, const), name)) in enumerate(zip(ts, c.params)):
                if t is None or w is None and not ptr:
                    continue
                tw, tp = t[0], t[1] if len(t) > 1 else 0
                if bool(tp) != bool(ptr):
                    bad.append(f"parameter {i + 1} ({name}) is a {'pointer' if ptr else 'number'} in {c.where} and declared as a {'pointer' if tp else 'number'}")
                elif tw is not None and w is not None and tw != w and not (ptr and w == 0):
                    bad.append(f"parameter {i + 1} ({name}) {'points to' if ptr else 'has'} {w * 8} bits in {c.where} and is declared with {tw * 8}")
        for t in d.get("restype", ()):
            w, ptr, _ = c.ret
            if t is None or w is None:
                continue
            if t == ("void",):
                continue
            if w == 0 and not ptr:
                bad.append(f"declared to return a value, the routine returns none ({c.where})")
            elif bool(ptr) != bool(t[1]) or t[0] is not None and t[0] != w:
                bad.append(f"declared to return {(t[0] or 8) * 8} bits, the routine returns {w * 8} ({c.where})")
        if "restype" not in d and (c.ret[1] or (c.ret[0] or 0) > 4):
            bad.append(f"returns more than the 32 bits taken by default ({c.where})")
        emit(rep, "declared", f, where, bad)
    return (declared, dynamic), None


def sequence(p, t, st):
    """Parameter types of a list or tuple of ctypes types."""
    if t.k == "tup":
        items = t.a[0] if t.a and isinstance(t.a[0], tuple) else t.a
        return [ctypes_type(p, x) for x in items]
    if t.k == "new":
        out = []
        for i in itertools.count():
            v = st.heap.get((t, ("i", i)))
            if v is None:
                break
            out.append(ctypes_type(p, one(v)) if one(v) is not None else None)
        if st.heap.get((t, "*")) and not out:
            return None
        return out or None
    if t.k == "bin" and t.a[0] == "Mult" and t.a[2].k == "const":
        s = sequence(p, t.a[1], st)
        return s and s * t.a[2].a[-1]
    if t.k == "bin" and t.a[0] == "Add":
        a, b = sequence(p, t.a[1], st), sequence(p, t.a[2], st)
        return a + b if a is not None and b is not None else None
    return None



# ------------------------------------------------------------------ callers
def outermost(p, mods, start):
    """The functions of the loading modules through which the given ones are reached from elsewhere."""
    calls = {q: callees(p, fi) for q, fi in p.functions.items() if fi.module.name in mods}
    reach = set(start)
    grow = True
    while grow:
        more = {q for q, c in calls.items() if c & reach and q not in reach}
        grow = bool(more)
        reach |= more
    inner = {c for q in reach for c in calls.get(q, ()) if c in reach and c != q}
    return sorted(reach - inner)


def rel(fi):
    return fi.qual[len(fi.module.name) + 1:]


def callers(p, rep, funs, called, mods, loader_funcs, declared):
    decl, dynamic = declared
    kernels = {q for q, fi in p.functions.items() if fi.module.name.startswith("mplang.kernels")}
    start = set(called) | {q for q, fi in p.functions.items() if fi.module.name in mods and q not in loader_funcs and callees(p, fi) & loader_funcs}
    choices = {}
    pairs = set()
    for q in outermost(p, mods, start):
        fi = p.functions[q]
        cl = Calls(p, mods, funs, loader_funcs, kernels)
        rets, raises = Engine(p, cl).run(fi, self_cls=fi.cls)
        rep.saw(q)
        inst, where = rel(fi), fi.where
        buffers, direction, sized, status, fall, proto = [], [], [], [], [], []
        bases = {}
        for f in sorted(cl.unknown_routines):
            proto.append(f"calls {f}, which the native sources do not have")
        done = set()
        for f, t, args, st, wh, node, func in cl.calls:
            key = (plain(t), frozenset((plain(a), b) for a, b in conds(st)))
            if key in done:
                continue
            done.add(key)
            c = funs[f]
            names = c.names()
            if t.a[2] or any(a is None or a.k in ("star", "rest") for a in args):
                rep.notes.append(f"{inst}: arguments of {f} not followed")
                continue
            if len(args) != len(c.params):
                proto.append(f"{f} is called with {len(args)} arguments, it has {len(c.params)} ({c.where})")
                continue
            if f not in decl and not dynamic:
                for a, ((w, ptr, _), nm) in zip(args, c.params):
                    if not ptr and w == 8 and not (fname(a) or "").startswith("ctypes."):
                        proto.append(f"{f} has no declared prototype, so that {nm} is passed with 32 of its 64 bits")
            goals = []
            vals = dict(zip(names, args))
            for a, ((w, ptr, const), nm), name in zip(args, c.params, names):
                ref = pointer_of(a)
                if not ptr:
                    if ref is not None:
                        proto.append(f"a pointer is passed to {f} as the number {nm}")
                    continue
                if ref is None:
                    if a.k == "const" and isinstance(a.a[-1], int) or a.k == "bin":
                        proto.append(f"a number is passed to {f} as the pointer {nm}")
                    elif raw(a):
                        buffers.append(f"{show(a)[:60]} is passed to {f} as it came")
                    continue
                array, how, ct = ref
                x = arr(array)
                if name in OUT:
                    bases.setdefault(t, {})["*out"] = x.base
                else:
                    bases.setdefault(t, {})[name] = x.base
                if x.contig is False:
                    buffers.append(f"the buffer passed to {f} as {nm} need not be contiguous ({show(array)[:70]})")
                if x.dt is False:
                    buffers.append(f"the buffer passed to {f} as {nm} has the element type of the input, whatever it is ({show(array)[:70]})")
                elif x.dt and w and (x.dt[1] != w or x.dt[0] not in ("uint", "int")):
                    buffers.append(f"the buffer passed to {f} as {nm} has {x.dt[1] * 8}-bit {x.dt[0]} elements, the routine indexes {w * 8}-bit integers")
                cw = ctypes_type(p, ct) if ct is not None else None
                if cw and cw[0] is not None and w and (cw[0] != w or cw[1] != ptr):
                    buffers.append(f"{nm} of {f} is passed as a pointer to {cw[0] * 8} bits, the routine indexes {w * 8}")
                if name in OUT and not x.fresh and x.fresh is not None:
                    direction.append(f"{f} writes into memory it does not own: {nm} is {show(array)[:60]}")
                want = CONTRACT.get(f, {}).get(name)
                if want is None and f in ORDER and name == "indices":
                    continue
                if want is None:
                    rep.notes.append(f"{inst}: how much of {nm} {f} indexes is not known")
                    continue
                goals.append((lambda s, array=array: prod(s.shape(array)) * width_of(s, array) // 8, lambda s, want=want, vals=vals: needed(s, want, vals), nm, want, f))
            if func is not None:
                rep.saw(func.qual)
            cs = conds(st)
            r = counterexample(cs, goals, st)
            if r:
                env, g, fuzzy, have, want = r
                atoms = set(env)
                vague = [c for c, truth in fuzzy if any(a in subterms(c, set()) for a in atoms) and not any(inspects(c, a) for a in atoms if isinstance(env[a], tuple))]
                text = f"{g[2]} of {f} can have {have} elements where the routine indexes {g[3]} = {want} (" + ", ".join(f"{short(a)} {'of shape ' + str(v[0]) if isinstance(v, tuple) else '= ' + str(v)}" for a, v in sorted(env.items(), key=lambda kv: short(kv[0]))) + ")"
                if vague:
                    rep.notes.append(f"{inst}: undecided: {text}, unless {show(vague[0])[:80]} rules it out")
                else:
                    sized.append(text)
            if f == "ldpc_encode":
                for name, why in (("indices", "blocks of the message"), ("indptr", "the indices")):
                    b = bases.get(t, {}).get(name)
                    if b is not None and raw(b) and not any(inspects(c, b) or truth is False and c is T("attr", b, "size") for c, truth in cs):
                        sized.append(f"the values of {name} select {why} in {f} and are not compared with how many there are")
        # what is returned
        for v, st in rets:
            nat = [f[1] for f in st.facts if isinstance(f, tuple) and f[0] == "native"]
            terms = deep(v, st)
            ts = set(terms)
            for t in nat:
                f = t.a[0].a[1]
                c = funs[f]
                if (c.ret[0] or c.ret[1]) and ("passed", t) not in st.facts and t not in ts:
                    codes = failures(c)
                    for code in codes:
                        if not any(excluded(cd, truth, t, code) for cd, truth in conds(st)):
                            status.append(f"{f} returns {code} if it fails, which is not looked at on a path that returns a result")
                            break
                o = bases.get(t, {}).get("*out")
                if o is not None and o not in ts:
                    direction.append(f"what {f} wrote is not what is returned")
            if not nat:
                fall += fallback(p, cl, funs, kernels, rep, v, st, terms, bases, inst)
        choices[q] = choice(p, cl, funs, kernels, rets, bases)
        pairs |= counterparts(p, rets, kernels, q)
        emit(rep, "declared", inst, where, proto)
        emit(rep, "buffers", inst, where, buffers)
        emit(rep, "direction", inst, where, direction)
        emit(rep, "sized", inst, where, sized)
        emit(rep, "status", inst, where, status)
        emit(rep, "fallback", inst, where, fall)
    paired(p, rep, choices, funs)
    return pairs


def counterparts(p, rets, kernels, q):
    """{(native routine, fallback, whether its flag is set)}"""
    nat, py = {}, {}
    for v, st in rets:
        ts = [f[1].a[0].a[1] for f in st.facts if isinstance(f, tuple) and f[0] == "native"]
        for f in ts:
            nat.setdefault(f.endswith("_opt"), set()).add(f)
        if not ts:
            for t in kernel_calls(deep(v, st), kernels):
                fi, got = bound(p, t)
                if not fi.name.startswith("_"):
                    py.setdefault(fi.qual, set()).add(any(x.k == "const" and x.a[-1] is True for x in got.values()))
    out = set()
    for opt, names in nat.items():
        for f in names:
            fit = [q for q in py if opt in py[q] or py[q] == {False}]
            if len(names) > 1 or len(py) > 1:
                fit = [q for q in fit if tokens(f) & tokens(p.functions[q].name)]
            out |= {(f, x, opt) for x in fit}
    if not py and any(not any(isinstance(f, tuple) and f[0] == "native" for f in st.facts) for v, st in rets):
        out |= {(f, q, opt) for opt, names in nat.items() for f in names}
    return out


def short(t):
    if t.k == "call" and len(t.a[1]) == 1:
        return short(t.a[1][0])
    return show(t)[:40]


def width_of(s, t):
    x = arr(t)
    if x.dt:
        return x.dt[1]
    return s.width(t)


def needed(s, want, vals):
    env = {}
    for n in re.findall(r"[a-z_]+", want):
        if n not in vals:
            raise Unknown
        v = s.val(vals[n])
        if not isinstance(v, int):
            raise Unknown
        env[n] = v
    r = 0
    for part in want.split("+"):
        q = 1
        for x in part.split("*"):
            q *= int(x) if x.isdigit() else env[x]
        r += q
    return r


META = {"size", "shape", "ndim", "dtype", "nbytes", "itemsize"}


def inspects(t, base):
    """Whether a term depends on the values in an array, not only on its shape."""
    if t is base:
        return True
    if isinstance(t, T):
        if t.k == "attr" and t.a[1] in META or t.k == "call" and fname(t) == "builtins.len":
            return False
        return any(inspects(x, base) for x in t.a)
    if isinstance(t, tuple):
        return any(inspects(x, base) for x in t)
    return False


def failures(c):
    codes = {int(m) for m in re.findall(r"\breturn\s+(-?\d+)\s*;", c.body)} - {0}
    return sorted(codes) or [1]


def excluded(cond, truth, t, code):
    if t not in subterms(cond, set()):
        return False
    try:
        return bool(Sizes({t: code}).val(cond)) != truth
    except Need:
        return True
    except (Unknown, Impossible):
        return True


def kernel_calls(terms, kernels):
    return [t for t in terms if t.k == "call" and t.a[0].k == "func" and str(getattr(t.a[0].a[0], "qual", t.a[0].a[0])) in kernels]


def bound(p, t):
    """Arguments of a call of a repository function by parameter name."""
    fi = p.functions[str(getattr(t.a[0].a[0], "qual", t.a[0].a[0]))]
    out = dict(zip(fi.params, t.a[1]))
    out.update(dict(t.a[2]))
    return fi, out


def tokens(name):
    return {x for x in re.split(r"[_\d]+", name.lower()) if x and x not in ("impl", "py", "opt")}


def same_inputs(t, b):
    return b in subterms(t, set())


def fallback(p, cl, funs, kernels, rep, v, st, terms, bases, inst):
    if not bases:
        return []
    bad = []
    calls = kernel_calls(terms, kernels)
    if not calls:
        for t in split(v):
            body = t
            while body.k == "call" and len(body.a[1]) == 1 and not is_np(fname(body), *NEW):
                body = body.a[1][0]
            if is_np(fname(body), *NEW) or is_np(fname(body), *LIKE):
                if body in cl.written:
                    continue
                r = counterexample(conds(st), [(lambda s: 0, lambda s: prod(s.shape(body)))], st)
                if r and not r[2]:
                    bad.append(f"without the library {show(body)[:60]} is returned as it was made")
            elif body.k == "const":
                bad.append(f"without the library {show(body)} is returned")
            else:
                rep.notes.append(f"{inst}: the fallback {show(t)[:80]} is not one of the kernels")
        return bad
    natives = {t.a[0].a[1] for t in bases}
    for t in calls:
        fi, got = bound(p, t)
        mine = tokens(fi.name)
        fit = max(len(mine & tokens(n)) for n in natives)
        for q in kernels:
            other = p.functions[q]
            if not other.name.startswith("_") and max(len(tokens(other.name) & tokens(n)) - len(tokens(other.name) ^ tokens(n)) for n in natives) > max(len(mine & tokens(n)) - len(mine ^ tokens(n)) for n in natives):
                bad.append(f"without the library {fi.name} is computed, with it {sorted(natives)[0]}")
                break
        for nt, bs in bases.items():
            f = nt.a[0].a[1]
            if len(tokens(f) & mine) < fit:
                continue
            vals = dict(zip(funs[f].names(), nt.a[1]))
            for name, b in bs.items():
                if name == "*out" or not raw(b):
                    continue
                if not any(b in subterms(a, set()) for a in got.values()):
                    bad.append(f"{fi.name} is not given {short(b)}, which {f} takes as {name}")
                elif name in got and b not in subterms(got[name], set()):
                    bad.append(f"{fi.name} is given {short(got[name])} as {name}, {f} is given {short(b)}")
            for name in ("m", "n", "length"):
                if name in got and name in vals and plain(got[name]) is not plain(vals[name]) and decided_different(got[name], vals[name], st):
                    bad.append(f"{fi.name} is given {show(got[name])[:40]} as {name}, {f} is given {show(vals[name])[:40]}")
        for name, a in got.items():
            if a.k == "tup":
                items = a.a[0] if a.a and isinstance(a.a[0], tuple) else a.a
                idx = []
                for x in items:
                    ks = [y.a[1].a[-1] for y in subterms(x, set()) if y.k == "item" and y.a[1].k == "const" and isinstance(y.a[1].a[-1], int)]
                    idx.append(ks[0] if len(ks) == 1 else None)
                if None not in idx and idx != sorted(idx):
                    bad.append(f"{fi.name} is given the parts of {name} in another order than the native routine reads them")
    return bad


def decided_different(a, b, st):
    """Two numbers that differ for some inputs passing the checks."""
    r = counterexample(conds(st), [(lambda s: s.val(a), lambda s: s.val(b)), (lambda s: s.val(b), lambda s: s.val(a))], st)
    return r is not None and not [c for c, t in r[2] if any(x in subterms(c, set()) for x in r[0]) and not any(inspects(c, x) for x, v in r[0].items() if isinstance(v, tuple))]


# ------------------------------------------------------------------ layouts
M = T("param", ("layout", "m"), "m")


def put(t, old, new):
    """Plain term with one subterm replaced."""
    if t is old:
        return new
    if isinstance(t, T):
        return T(t.k, *[put(x, old, new) for x in t.a])
    if isinstance(t, tuple):
        return tuple(put(x, old, new) for x in t)
    return t


def choice(p, cl, funs, kernels, rets, bases):
    """Per path: which layout, under which conditions (in terms of the size of the table)."""
    out = []
    for v, st in rets:
        nat = [f[1] for f in st.facts if isinstance(f, tuple) and f[0] == "native"]
        kinds, ms = set(), set()
        for t in nat:
            f = t.a[0].a[1]
            kinds.add("opt" if f.endswith("_opt") else "plain")
            ms.add(dict(zip(funs[f].names(), t.a[1])).get("m"))
        if not nat:
            for t in kernel_calls(deep(v, st), kernels):
                fi, got = bound(p, t)
                flags = [x for x in got.values() if x.k == "const" and x.a[-1] is True]
                kinds.add("opt" if flags else "plain")
                ms.add(got.get("m"))
        if len(kinds) != 1 or len(ms) != 1 or None in ms:
            continue
        m = plain(ms.pop())
        cs = {}
        for c, truth in conds(st):
            cs[put(plain(c), m, M)] = truth
        out.append((kinds.pop(), cs, "present" if nat else "absent", [f.a[0].a[1] for f in nat]))
    return out


def only_size(c):
    ts = list(subterms(c, set()))
    return M in ts and not any((raw(x) and x is not M) or x.k in ("attr", "call") for x in ts)


def paired(p, rep, choices, funs):
    sides = {}
    for q, paths in choices.items():
        names = {n for k, cs, pr, ns in paths for n in ns}
        if not any(n.endswith("_opt") for n in names):
            continue
        fi = p.functions[q]
        bad = []
        for (ka, ca, pa, na), (kb, cb, pb, nb) in itertools.combinations(paths, 2):
            if ka == kb:
                continue
            disc = [c for c in ca if c in cb and ca[c] != cb[c]]
            if not disc:
                if pa != pb:
                    bad.append("the layout depends on whether the native library is present")
            elif not any(only_size(c) for c in disc):
                bad.append(f"the layout depends on {show(disc[0])[:80]}, which the other side of the table does not know")
        emit(rep, "paired", rel(fi), fi.where, bad)
        for side in ("solve", "decode"):
            if all(n.startswith(side) for n in names):
                sides.setdefault(side, []).append((q, paths))
    for qa, pa in sides.get("solve", ()):
        for qb, pb in sides.get("decode", ()):
            nums = {x.a[-1] for paths in (pa, pb) for k, cs, pr, ns in paths for c in cs if only_size(c) for x in subterms(c, set()) if x.k == "const" and isinstance(x.a[-1], int)}
            bad = []
            for n in sorted({max(1, k + d) for k in nums for d in (-1, 0, 1)}):
                a, b = kinds_at(pa, n), kinds_at(pb, n)
                if len(a) == 1 and len(b) == 1 and a != b:
                    bad.append(f"a table of {n} rows is encoded in the {a.pop()} layout and decoded in the {b.pop()} one")
                    break
            emit(rep, "paired", rel(p.functions[qa]) + "/" + rel(p.functions[qb]), p.functions[qa].where, bad)


def exactly(t, n):
    if t is M:
        return n
    if t.k == "const":
        return t.a[-1]
    if t.k == "cmp":
        a, b = exactly(t.a[1], n), exactly(t.a[2], n)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a == b if t.a[0] == "==" else a < b if t.a[0] == "<" else None
    if t.k == "bin":
        a, b = exactly(t.a[1], n), exactly(t.a[2], n)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return {"Add": a + b, "Sub": a - b, "Mult": a * b, "FloorDiv": a // b if b else None, "Div": a / b if b else None}.get(t.a[0])
            except OverflowError:
                return None
    return None


def kinds_at(paths, n):
    out = set()
    for k, cs, pr, ns in paths:
        if all(exactly(c, n) in (None, truth) for c, truth in cs.items()):
            out.add(k)
    return out


# ------------------------------------------------------------------ lifetime
def alive(p, rep, mods):
    for m in sorted(mods):
        mod = p.modules[m]
        for q, fi in sorted(p.functions.items()):
            if fi.module.name != m or not any(isinstance(n, ast.Attribute) and n.attr == "ctypes" for n in ast.walk(fi.node)):
                continue
            bad = []
            for n in ast.walk(fi.node):
                if isinstance(n, ast.Attribute) and n.attr == "data" and isinstance(n.value, ast.Attribute) and n.value.attr == "ctypes":
                    x = n.value.value
                    if isinstance(x, ast.Call):
                        bad.append(f"only the address of {ast.unparse(x)[:60]} is kept; the array is gone before the call")
                    elif isinstance(x, ast.Name) and x.id not in fi.allparams:
                        for r in ast.walk(fi.node):
                            if isinstance(r, ast.Return) and r.value is not None and any(y is n for y in ast.walk(r.value)):
                                if not any(isinstance(y, ast.Name) and y.id == x.id and y is not x for y in ast.walk(r.value)) and not any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and any(y is n for a in c.args for y in ast.walk(a)) and c.func.attr not in ("c_void_p", "cast") for c in ast.walk(r.value)):
                                    bad.append(f"the address of {x.id} outlives it")
            emit(rep, "buffers", "alive:" + rel(fi), fi.where, bad)
