"""C20: the native routines and their fallbacks compute the same functions.

The loop-free parts of both sides (the hash of a key, the product of two field elements) are brought into one normal
form: a 64-bit word is an exclusive or of atoms, an atom a half of a product, of an AES round or the result of another
operation; the native form is read off clang's syntax tree, the other one from the engine's terms. What has no such form
is not decided here.
"""
from __future__ import annotations

import ast
import itertools
import os
import re

from sa.engine import Client, Engine, T, one, show, subterms
from sa.project import REPO

MASK = (1 << 64) - 1
ZERO = frozenset()


class Und(Exception):
    pass


# ------------------------------------------------------------------ words
def key(x):
    return repr(x) if not isinstance(x, frozenset) else repr(sorted(map(repr, x)))


def K(c):
    c &= MASK
    return frozenset({("k", c)}) if c else ZERO


def const(s):
    if not s:
        return 0
    if len(s) == 1:
        (a,) = s
        if a[0] == "k":
            return a[1]
    return None


def xor(a, b):
    r = set(a) ^ set(b)
    ks = [x for x in set(a) | set(b) if x[0] == "k"]
    if ks:
        c = 0
        for x in a:
            c ^= x[1] if x[0] == "k" else 0
        for x in b:
            c ^= x[1] if x[0] == "k" else 0
        r = {x for x in r if x[0] != "k"}
        if c:
            r.add(("k", c))
    return frozenset(r)


def degree(a):
    if a[0] == "k":
        return a[1].bit_length() - 1
    if a[0] == "clo":
        return min(63, degree(a[1]) + degree(a[2]))
    if a[0] == "chi":
        return degree(a[1]) + degree(a[2]) - 64
    return 63


def clmul(x, y):
    lo, hi = ZERO, ZERO
    for a in x:
        for b in y:
            p = tuple(sorted((a, b), key=repr))
            lo = xor(lo, frozenset({("clo",) + p}))
            if degree(a) + degree(b) >= 64:
                hi = xor(hi, frozenset({("chi",) + p}))
    return lo, hi


def op(name, a, b):
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None:
        if name == "+":
            return K(ca + cb)
        if name == "*":
            return K(ca * cb)
        if name == "%" and cb:
            return K(ca % cb)
    if name in ("+", "*", "&", "|"):
        a, b = sorted((a, b), key=key)
    return frozenset({("op", name, a, b)})


def s_of(v):
    if v[0] == "s":
        return v[1]
    raise Und("not a word")


def w_of(v):
    if v[0] == "w":
        return v[1], v[2]
    if v[0] == "s":
        return v[1], ZERO
    raise Und("not two words")


def aes(state, rk):
    st, k = w_of(state), w_of(rk)
    return ("w", frozenset({("aes", st, k, 0)}), frozenset({("aes", st, k, 1)}))


def words(s, out=None):
    """All atoms within."""
    out = set() if out is None else out
    todo = [s]
    while todo:
        x = todo.pop()
        if isinstance(x, frozenset):
            todo.extend(x)
        elif isinstance(x, tuple):
            if x and isinstance(x[0], str) and x not in out:
                out.add(x)
            todo.extend(y for y in x if isinstance(y, (tuple, frozenset)))
    return out


def text(s):
    if not s:
        return "0"
    return " ^ ".join(sorted(atom(a) for a in s))


def atom(a):
    if a[0] == "k":
        return hex(a[1])
    if a[0] == "in":
        return "".join(str(x) for x in a[1:2]) + "".join(f"[{x}]" for x in a[2:])
    if a[0] in ("clo", "chi"):
        return f"{'low' if a[0] == 'clo' else 'high'}({atom(a[1])} x {atom(a[2])})"
    if a[0] == "aes":
        return f"round({text(a[1][0])})[{a[3]}]"
    return f"({text(a[2])} {a[1]} {text(a[3])})"


# ------------------------------------------------------------------ the native side
SKIP = {"ImplicitCastExpr", "ParenExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CXXReinterpretCastExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "ConstantExpr", "CXXConstCastExpr"}


class St:
    def __init__(self, env=None, conds=(), out=None):
        self.env, self.conds, self.out = dict(env or {}), conds, dict(out or {})

    def copy(self):
        return St(self.env, self.conds, self.out)

    def decide(self, c, truth):
        for a, b in self.conds:
            if a == c:
                return self if b == truth else None
        s = self.copy()
        s.conds = self.conds + ((c, truth),)
        return s


class Native:
    def __init__(self, get, consts):
        self.get, self.consts, self.depth = get, consts, 0

    def function(self, fn, args, st=None):
        """[(state, value returned)]"""
        if self.depth > 5:
            raise Und("nesting")
        st = (st or St()).copy()
        params = [c for c in fn.get("inner", ()) if c.get("kind") == "ParmVarDecl"]
        if len(params) != len(args):
            raise Und("arguments")
        for q, a in zip(params, args):
            st.env[q["id"]] = a
        body = next(c for c in fn["inner"] if c.get("kind") == "CompoundStmt")
        self.depth += 1
        try:
            return [(s, r) for s, r in self.stmts(body.get("inner", ()), [st])]
        finally:
            self.depth -= 1

    def stmts(self, ns, sts):
        """[(state, value or 'fall')]"""
        live, done = list(sts), []
        for n in ns:
            nxt = []
            for st in live:
                for s, r in self.stmt(n, st):
                    (nxt if r == "fall" else done).append(s if r == "fall" else (s, r))
            live = nxt
            if len(live) + len(done) > 256:
                raise Und("too many paths")
        return done + [(s, "fall") for s in live]

    def stmt(self, n, st):
        k = n.get("kind")
        inner = [c for c in n.get("inner", ()) if c]
        if k == "CompoundStmt":
            return self.stmts(inner, [st])
        if k == "DeclStmt":
            sts = [st]
            for d in inner:
                if d.get("kind") != "VarDecl":
                    raise Und(d.get("kind"))
                init = [c for c in d.get("inner", ()) if c]
                if not init or init[0].get("kind") == "CXXConstructExpr" and not init[0].get("inner"):
                    continue
                nxt = []
                for s in sts:
                    for s2, v in self.expr(init[-1], s):
                        s2 = s2.copy()
                        s2.env[d["id"]] = v
                        nxt.append(s2)
                sts = nxt
            return [(s, "fall") for s in sts]
        if k == "ReturnStmt":
            return [(s, v) for s, v in self.expr(inner[0], st)] if inner else [(st, None)]
        if k == "IfStmt":
            out = []
            for s, b in self.cond(inner[0], st):
                if b:
                    out += self.stmt(inner[1], s)
                elif len(inner) > 2:
                    out += self.stmt(inner[2], s)
                else:
                    out.append((s, "fall"))
            return out
        if k == "NullStmt":
            return [(st, "fall")]
        if k in ("BinaryOperator", "CompoundAssignOperator", "CallExpr", "UnaryOperator", "ExprWithCleanups", "CXXOperatorCallExpr", "ParenExpr", "CStyleCastExpr"):
            return [(s, "fall") for s, v in self.expr(n, st)]
        raise Und(k)

    def cond(self, n, st):
        while n.get("kind") in SKIP:
            n = n["inner"][-1]
        k, o = n.get("kind"), n.get("opcode")
        if k == "BinaryOperator" and o in ("||", "&&"):
            out = []
            for s, b in self.cond(n["inner"][0], st):
                out += [(s, b)] if b == (o == "||") else self.cond(n["inner"][1], s)
            return out
        if k == "UnaryOperator" and o == "!":
            return [(s, not b) for s, b in self.cond(n["inner"][0], st)]
        if k == "BinaryOperator" and o in ("==", "!="):
            out = []
            for s, a in self.expr(n["inner"][0], st):
                for s2, b in self.expr(n["inner"][1], s):
                    a2, b2 = s_of(a), s_of(b)
                    if const(a2) is not None and const(b2) is not None:
                        out.append((s2, (const(a2) == const(b2)) == (o == "==")))
                        continue
                    c = ("eq",) + tuple(sorted((a2, b2), key=key))
                    for truth in (True, False):
                        s3 = s2.decide(c, truth)
                        if s3 is not None:
                            out.append((s3, truth == (o == "==")))
            return out
        raise Und("condition")

    def lvalue(self, n):
        while n.get("kind") in SKIP:
            n = n["inner"][-1]
        if n.get("kind") == "DeclRefExpr":
            return n["referencedDecl"]["id"]
        if n.get("kind") == "MemberExpr":
            return (self.lvalue(n["inner"][0]), n.get("name"))
        if n.get("kind") == "UnaryOperator" and n.get("opcode") == "*":
            return ("*", self.lvalue(n["inner"][0]))
        raise Und("place")

    def read(self, place, st):
        if isinstance(place, tuple) and place[0] == "*":
            p = st.env.get(place[1])
            if p and p[0] == "ref":
                return self.read(p[1], st)
            if p and p[0] == "p":
                return ("w", frozenset({("in", p[1], 0)}), frozenset({("in", p[1], 1)}))
            raise Und("pointer")
        if place in st.env:
            return st.env[place]
        if isinstance(place, tuple):
            base = st.env.get(place[0])
            if base and base[0] == "rec":
                return dict(base[1])[place[1]]
        fields = {k[1]: v for k, v in st.env.items() if isinstance(k, tuple) and k[0] == place}
        if fields:
            return ("rec", tuple(sorted(fields.items())))
        raise Und("not assigned")

    def write(self, place, v, st):
        st = st.copy()
        if isinstance(place, tuple) and place[0] == "*":
            p = st.env.get(place[1])
            if p and p[0] == "ref":
                return self.write(p[1], v, st)
            if p and p[0] == "p":
                st.out[p[1]] = v
                return st
            raise Und("pointer")
        if v is not None and v[0] == "rec":
            for f, x in v[1]:
                st.env[(place, f)] = x
        else:
            st.env[place] = v
        return st

    def expr(self, n, st):
        k = n.get("kind")
        if k in SKIP:
            ty = n.get("type", {}).get("qualType", "")
            out = self.expr(n["inner"][-1], st)
            if n.get("castKind") == "IntegralCast" and ty not in ("uint64_t", "unsigned long", "unsigned long long", "long long", "long", "int64_t", "size_t", "const uint64_t", "std::uint64_t"):
                out2 = []
                for s, v in out:
                    if v[0] == "s" and const(v[1]) is None:
                        raise Und("narrower integer")
                    out2.append((s, v))
                return out2
            return out
        inner = [c for c in n.get("inner", ()) if c]
        if k == "IntegerLiteral":
            return [(st, ("s", K(int(n["value"]))))]
        if k in ("DeclRefExpr", "MemberExpr"):
            if k == "DeclRefExpr" and n["referencedDecl"]["id"] not in st.env and n["referencedDecl"].get("name") in self.consts:
                return [(st, ("s", K(self.consts[n["referencedDecl"]["name"]])))]
            return [(st, self.read(self.lvalue(n), st))]
        if k == "CXXConstructExpr" and len(inner) == 1:
            return self.expr(inner[0], st)
        if k == "InitListExpr":
            names = None
            raise Und("list")
        if k == "UnaryOperator":
            if n.get("opcode") == "&":
                return [(st, ("ref", self.lvalue(inner[0])))]
            if n.get("opcode") == "*":
                return [(st, self.read(self.lvalue(n), st))]
            raise Und(n.get("opcode"))
        if k == "ConditionalOperator":
            out = []
            for s, b in self.cond(inner[0], st):
                out += self.expr(inner[1 if b else 2], s)
            return out
        if k == "BinaryOperator" and n.get("opcode") == "=":
            return [(self.write(self.lvalue(inner[0]), v, s), v) for s, v in self.expr(inner[1], st)]
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            o = n["opcode"]
            out = []
            for s, a in self.expr(inner[0], st):
                for s2, b in self.expr(inner[1], s):
                    v = self.binary(o.rstrip("=") if k != "BinaryOperator" else o, a, b)
                    if k != "BinaryOperator":
                        s2 = self.write(self.lvalue(inner[0]), v, s2)
                    out.append((s2, v))
            return out
        if k == "CallExpr":
            f = inner[0]
            while f.get("kind") in SKIP:
                f = f["inner"][-1]
            name = f.get("referencedDecl", {}).get("name", "")
            sts = [(st, [])]
            for a in inner[1:]:
                sts = [(s2, vs + [v]) for s, vs in sts for s2, v in self.expr(a, s)]
            return [r for s, vs in sts for r in self.call(name, vs, s)]
        raise Und(k)

    def binary(self, o, a, b):
        if o == "^" and (a[0] == "w" or b[0] == "w"):
            x, y = w_of(a), w_of(b)
            return ("w", xor(x[0], y[0]), xor(x[1], y[1]))
        a, b = s_of(a), s_of(b)
        if o == "^":
            return ("s", xor(a, b))
        if o == "%" and const(b) is None:
            return ("s", op("%", a, frozenset({("in", "m")})))
        if o in ("+", "*", "%", "/", "&", "|", ">>", "<<", "-"):
            return ("s", op(o, a, b))
        raise Und(o)

    def call(self, name, vs, st):
        if name == "_mm_loadu_si128" or name == "_mm_load_si128" or name == "_mm_lddqu_si128":
            v = vs[0]
            if v[0] == "p":
                return [(st, ("w", frozenset({("in", v[1], 0)}), frozenset({("in", v[1], 1)})))]
            if v[0] == "ref":
                return [(st, self.read(v[1], st))]
            raise Und("load")
        if name in ("_mm_storeu_si128", "_mm_store_si128"):
            s = st.copy()
            if vs[0][0] == "p":
                s.out[vs[0][1]] = vs[1]
                return [(s, None)]
            if vs[0][0] == "ref":
                return [(self.write(vs[0][1], vs[1], s), None)]
            raise Und("store")
        if name == "_mm_xor_si128":
            return [(st, self.binary("^", ("w",) + w_of(vs[0]), vs[1]))]
        if name == "_mm_set_epi64x":
            return [(st, ("w", s_of(vs[1]), s_of(vs[0])))]
        if name == "_mm_set1_epi64x":
            return [(st, ("w", s_of(vs[0]), s_of(vs[0])))]
        if name == "_mm_setzero_si128":
            return [(st, ("w", ZERO, ZERO))]
        if name in ("__builtin_ia32_pslldqi128_byteshift", "_mm_slli_si128", "_mm_bslli_si128"):
            lo, hi = w_of(vs[0])
            if const(s_of(vs[1])) == 8:
                return [(st, ("w", ZERO, lo))]
            raise Und("shift")
        if name in ("__builtin_ia32_psrldqi128_byteshift", "_mm_srli_si128", "_mm_bsrli_si128"):
            lo, hi = w_of(vs[0])
            if const(s_of(vs[1])) == 8:
                return [(st, ("w", hi, ZERO))]
            raise Und("shift")
        if name in ("__builtin_ia32_pclmulqdq128", "_mm_clmulepi64_si128"):
            c = const(s_of(vs[2]))
            return [(st, ("w",) + clmul(w_of(vs[0])[1 if c & 1 else 0], w_of(vs[1])[1 if c & 16 else 0]))]
        if name == "_mm_aesenc_si128":
            return [(st, aes(vs[0], vs[1]))]
        if name == "_mm_add_epi64":
            (a, b), (c, d) = w_of(vs[0]), w_of(vs[1])
            return [(st, ("w", op("+", a, c), op("+", b, d)))]
        if name in ("__builtin_ia32_vec_ext_v2di", "_mm_extract_epi64"):
            return [(st, ("s", w_of(vs[0])[const(s_of(vs[1])) & 1]))]
        if name in ("_mm_cvtsi128_si64", "_mm_cvtsi128_si64x"):
            return [(st, ("s", w_of(vs[0])[0]))]
        if name.startswith("_mm") or name.startswith("__builtin"):
            raise Und(name)
        fn = self.get(name)
        if fn is None:
            raise Und(name)
        out = []
        for s, r in self.function(fn, vs, st):
            out.append((s, None if r == "fall" else r))
        return out


def symbols(fn):
    """The parameters as symbols, in the roles of a hash function."""
    out, n = [], 0
    for q in [c for c in fn.get("inner", ()) if c.get("kind") == "ParmVarDecl"]:
        ty = q["type"]["qualType"]
        if "*" in ty:
            out.append(("p", n))
            n += 1
        elif "__m128i" in ty:
            out.append(("w", frozenset({("in", "seed", 0)}), frozenset({("in", "seed", 1)})))
        else:
            out.append(("s", frozenset({("in", ("key", "m")[min(n, 1)])})))
            n += 1
    return out


def loops(n):
    todo = [n]
    while todo:
        x = todo.pop()
        if x.get("kind") in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
            return True
        todo.extend(c for c in x.get("inner", ()) if c)
    return False


def refs(n):
    out, todo = [], [n]
    while todo:
        x = todo.pop()
        r = x.get("referencedDecl")
        if r and r.get("kind") == "FunctionDecl" and r.get("name") not in out:
            out.append(r["name"])
        todo.extend(c for c in x.get("inner", ()) if c)
    return out


def reach(name, get):
    out, todo = {}, [name]
    while todo:
        n = todo.pop()
        if n in out or n.startswith(("_mm", "__builtin", "omp_")):
            continue
        fn = get(n)
        if fn is None:
            continue
        out[n] = fn
        todo += refs(fn)
    return out


# ------------------------------------------------------------------ the other side
class Straight(Client):
    exact = orders = path_sensitive = True
    max_states = 300
    max_depth = 8

    def __init__(self, p, module):
        self.p, self.module = p, module

    def should_inline(self, it, fi, call):
        return fi.module.name == self.module and not has_loop(fi) and not fi.name.lstrip("_").startswith("aesenc")

    def on_cond(self, it, t, truth, st, node, frame):
        return st.with_fact(("c", t, truth))


def has_loop(fi):
    return any(isinstance(n, (ast.For, ast.While, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)) for n in ast.walk(fi.node))


def fold(t):
    if t.k == "const":
        v = t.a[-1]
        return v if isinstance(v, int) and not isinstance(v, bool) else None
    if t.k == "bin":
        a, b = fold(t.a[1]), fold(t.a[2])
        if a is None or b is None:
            return None
        try:
            return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "LShift": lambda: a << b if b < 300 else None, "RShift": lambda: a >> b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b, "Pow": lambda: a ** b if 0 <= b < 300 else None, "FloorDiv": lambda: a // b if b else None, "Mod": lambda: a % b if b else None}.get(t.a[0], lambda: None)()
        except (ValueError, OverflowError):
            return None
    if t.k == "call" and len(t.a[1]) == 1 and not t.a[2] and t.a[0].k in ("ext", "class") and str(t.a[0].a[0]) in ("numpy.uint64", "builtins.int", "int"):
        return fold(t.a[1][0])
    return None


class Words:
    """Terms of the fallback as words."""

    def __init__(self, p, module, leaf):
        self.p, self.module, self.leaf, self.memo, self.moduli = p, module, leaf, {}, set()

    def of(self, t):
        if t not in self.memo:
            try:
                self.memo[t] = self.calc(t)
            except Und as e:
                self.memo[t] = e
        r = self.memo[t]
        if isinstance(r, Und):
            raise r
        return r

    def calc(self, t):
        c = fold(t)
        if c is not None:
            if 0 <= c <= MASK:
                return ("s", K(c))
            if 0 <= c < 1 << 128:
                return ("w", K(c & MASK), K(c >> 64))
            raise Und("constant")
        x = self.leaf(t)
        if x is not None:
            return x
        if t.k == "modvar" or t.k == "ext":
            v = module_constant(self.p, t)
            if v is not None:
                return ("s", K(v)) if v <= MASK else ("w", K(v & MASK), K(v >> 64))
        if t.k == "call":
            name = str(getattr(t.a[0].a[0], "qual", t.a[0].a[0])) if t.a[0].k in ("ext", "func", "class") else ""
            if name in ("numpy.uint64", "builtins.int", "int") and len(t.a[1]) == 1:
                return self.of(t.a[1][0])
            if name.rsplit(".", 1)[-1].lstrip("_").startswith("aesenc") and len(t.a[1]) == 2:
                return aes(self.of(t.a[1][0]), self.of(t.a[1][1]))
            raise Und("call")
        if t.k == "item" and t.a[0].k == "call":
            c = t.a[0]
            name = str(getattr(c.a[0].a[0], "qual", c.a[0].a[0])) if c.a[0].k == "func" else ""
            i = fold(t.a[1])
            if "clmul" in name and len(c.a[1]) == 2 and not c.a[2] and i in (0, 1):
                return ("s", clmul(s_of(self.of(c.a[1][0])), s_of(self.of(c.a[1][1])))[i])
            if name == "" and str(c.a[0].a[0]) == "builtins.divmod" and i == 1:
                return self.mod(c.a[1][0], c.a[1][1])
            raise Und("item")
        if t.k != "bin":
            raise Und(t.k)
        o, l, r = t.a[0], t.a[1], t.a[2]
        if o == "Mod":
            return self.mod(l, r)
        k = fold(r)
        if o == "BitAnd":
            for x, m in ((l, fold(r)), (r, fold(l))):
                if m is not None:
                    v = self.of(x)
                    if m == MASK:
                        return ("s", v[1])
                    if m == (1 << 128) - 1 and v[0] == "w":
                        return v
                    return ("s", op("&", s_of(v), K(m)))
            raise Und("and")
        a = self.of(l)
        if o == "RShift" and k == 64 or o == "FloorDiv" and k == 1 << 64:
            return ("s", w_of(a)[1])
        if o == "LShift" and k == 64 or o == "Mult" and k == 1 << 64:
            if a[0] == "w":
                raise Und("shift")
            return ("w", ZERO, s_of(a))
        b = self.of(r)
        if o in ("BitOr", "Add"):
            x, y = (w_of(v) if v[0] != "u" else None for v in (a, b))
            if x and y and ("w" in (a[0], b[0])) and all(not p or not q for p, q in zip(x, y)):
                return ("w", xor(x[0], y[0]), xor(x[1], y[1]))
        if o == "BitXor" and "u" in (a[0], b[0]) and "w" not in (a[0], b[0]):
            return ("u", xor(a[1], b[1]))
        if o == "BitXor":
            x, y = w_of(a), w_of(b)
            return ("w", xor(x[0], y[0]), xor(x[1], y[1])) if "w" in (a[0], b[0]) else ("s", xor(x[0], y[0]))
        if a[0] == "w" or b[0] == "w":
            raise Und("wide")
        if o in ("Add", "Mult"):
            n = {"Add": "+", "Mult": "*"}[o]
            v = op(n, a[1], b[1])
            small = [const(x[1]) for x in (a, b)]
            rest = [x[1] for x in (a, b) if const(x[1]) is None]
            reduced = len(rest) == 1 and len(rest[0]) == 1 and all(x[0] == "op" and x[1] == "%" for x in rest[0])
            if o == "Add" and reduced and all(c is None or c < 1 << 32 for c in small):
                return ("s", v)
            return ("u", v)
        if o in ("RShift", "LShift", "BitOr", "FloorDiv", "Sub"):
            n = {"RShift": ">>", "LShift": "<<", "BitOr": "|", "FloorDiv": "/", "Sub": "-"}[o]
            return ("u" if o in ("LShift", "Sub") else "s", op(n, s_of(a), s_of(b)))
        raise Und(o)

    def mod(self, l, r):
        a, k = self.of(l), fold(r)
        if k == 1 << 64:
            return ("s", a[1])
        if a[0] == "w":
            raise Und("wide")
        name = "%" if a[0] == "s" else "%, of a sum that is not reduced to 64 bits,"
        if k is not None:
            return ("s", op(name, a[1], K(k)))
        self.moduli.add(r)
        return ("s", op(name, a[1], frozenset({("in", "m")})))


def module_constant(p, t):
    name = str(t.a[0]) if t.k == "ext" else None
    if t.k == "modvar":
        name = ".".join(str(x) for x in t.a if isinstance(x, str))
    if not name or "." not in name:
        return None
    mod, var = name.rsplit(".", 1)
    m = p.modules.get(mod)
    if m is None:
        return None
    for n in m.tree.body:
        tg = n.targets[0] if isinstance(n, ast.Assign) and len(n.targets) == 1 else n.target if isinstance(n, ast.AnnAssign) else None
        if isinstance(tg, ast.Name) and tg.id == var and isinstance(n.value, ast.Constant) and isinstance(n.value.value, int):
            return n.value.value
    return None


def flagged(fi, flag):
    """The nodes of a function that count if its boolean parameters without a value have this one."""
    names = {a for a in fi.allparams}
    out = []

    def walk(n):
        out.append(n)
        if isinstance(n, (ast.IfExp, ast.If)) and flag is not None:
            t, neg = n.test, False
            while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t, neg = t.operand, not neg
            if isinstance(t, ast.Name) and t.id in names:
                take = n.body if flag != neg else n.orelse
                for x in take if isinstance(take, list) else [take]:
                    walk(x)
                return
        for c in ast.iter_child_nodes(n):
            walk(c)
    walk(fi.node)
    return out


def named(p, fi, flag=None):
    """Functions of its module a function names."""
    out = []
    for n in flagged(fi, flag):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            r = p.resolve_expr(n, fi.module, fi)
            if r and r[0] == "func" and r[1].module is fi.module and r[1] not in out and r[1] is not fi:
                out.append(r[1])
    return out


def closure(p, fi):
    out, todo = [], [fi]
    while todo:
        f = todo.pop()
        if f not in out:
            out.append(f)
            todo += named(p, f)
    return out


def triple(t, st):
    if t.k == "tup":
        items = t.a[0] if t.a and isinstance(t.a[0], tuple) else t.a
        return items
    return None


def hashes_py(p, fi):
    """[(conditions, [three words], other words)] of a hash function of the fallback."""
    def leaf(t):
        if t.k == "param" and len(fi.params) >= 3:
            name = t.a[-1]
            if name == fi.params[0]:
                return ("s", frozenset({("in", "key")}))
        if t.k == "item" and t.a[0].k == "param" and t.a[0].a[-1] == fi.params[2]:
            i = fold(t.a[1])
            if i in (0, 1):
                return ("s", frozenset({("in", "seed", i)}))
        return None

    rets, raises = Engine(p, Straight(p, fi.module.name)).run(fi)
    out = []
    for v, st in rets:
        w = Words(p, fi.module.name, leaf)
        items = triple(one(v), st) if len(v) == 1 else None
        if not items or len(items) != 3:
            raise Und("no three indices")
        res = []
        for t in items:
            cand, todo = [], [t]
            while todo:
                x = todo.pop()
                while x.k == "call" and len(x.a[1]) == 1 and str(x.a[0].a[0]) in ("builtins.int", "numpy.uint64"):
                    x = x.a[1][0]
                try:
                    y = s_of(w.of(x))
                    if len(y) == 1 and any(a[0] == "op" and a[1].startswith("%") and a[3] == frozenset({("in", "m")}) for a in y):
                        cand.append(y)
                        continue
                except Und:
                    pass
                if x.k == "bin" and x.a[0] == "Add":
                    todo += [x.a[1], x.a[2]]
            if len(cand) != 1:
                raise Und("index " + show(t)[:60])
            res.append(cand[0])
        conds = {}
        for f in st.facts:
            if not (isinstance(f, tuple) and f[0] == "c"):
                continue
            c, pairs = f[1], None
            if c.k == "cmp" and c.a[0] == "==":
                pairs = [(c.a[1], c.a[2])]
            elif c.k == "cmp" and c.a[0] == "in" and not f[2] and triple(c.a[2], st):
                pairs = [(c.a[1], x) for x in triple(c.a[2], st)]
            elif c.k == "cmp" and c.a[0] == "<":
                continue
            try:
                for x, y in pairs or [(None, None)]:
                    if x is None:
                        raise Und("condition")
                    conds[("eq",) + tuple(sorted((s_of(w.of(x)), s_of(w.of(y))), key=key))] = f[2]
            except Und:
                conds[("?",)] = True
        bins = set()
        for t in set().union(*[subterms(x, set()) for x in items]):
            if t.k == "bin" and t.a[0] == "Mod" and fold(t.a[2]) is not None or t.k == "item":
                try:
                    y = w.of(t)
                    if y[0] == "s" and len(y[1]) == 1 and any(a[0] == "op" and a[1].startswith("%") and const(a[3]) for a in y[1]):
                        bins.add(y[1])
                except Und:
                    pass
        if len(w.moduli) > 1:
            ms = {m for m in w.moduli}
            raise Und("several moduli: " + ", ".join(show(m)[:40] for m in ms))
        out.append((conds, res, bins))
    return out


def hashes_native(fns, get, consts):
    """({name: [(conditions, three words)]}, {name: [word]}) of the hash functions among these."""
    tri, one_ = {}, {}
    for n, fn in fns.items():
        kinds = ["*" if "*" in q["type"]["qualType"] else "w" if "__m128i" in q["type"]["qualType"] else "s" for q in fn.get("inner", ()) if q.get("kind") == "ParmVarDecl"]
        if loops(fn) or "w" not in kinds or "s" not in kinds:
            continue
        res = Native(get, consts).function(fn, symbols(fn))
        for st, r in res:
            if r and r != "fall" and r[0] == "rec":
                f = [x for _, x in sorted(r[1])]
                if len(f) != 3:
                    raise Und(n)
                tri.setdefault(n, []).append((dict(st.conds), [s_of(x) for x in f]))
            elif r and r != "fall" and r[0] == "s":
                one_.setdefault(n, []).append(r[1])
    return tri, one_


def compare(c, py, cname, fname):
    """Where two hash functions differ."""
    ac, ap = {k for conds, _ in c for k in conds}, {k for conds, _, _ in py for k in conds if k[0] == "eq"}
    partial = any(("?",) in conds for conds, _, _ in py)
    same = ac == ap and not partial
    common = ac & ap
    for conds, res in c:
        given = {k: v for k, v in conds.items() if k in common}
        mine = [r for cc, r in c if all(cc.get(k, v) == v for k, v in given.items())]
        theirs = [(pc, r) for pc, r, _ in py if all(pc.get(k, v) == v for k, v in given.items())]
        for i in range(3):
            if same:
                diff = [r[i] for pc, r in theirs if r[i] != res[i]]
            else:
                # the index does not depend on what is asked differently
                a, b = {r[i] for r in mine}, {r[i] for pc, r in theirs}
                diff = list(b) if len(a) == len(b) == 1 and a != b else ()
                plain = [r[i] for pc, r in theirs if not any(pc.values())]
                if not any(conds.values()) and plain and res[i] not in plain:
                    diff = plain
                if not diff and not partial and (a < b or b < a):
                    x = sorted(a ^ b, key=key)[0]
                    return f"index {i + 1} of a key can become {short(x)} only in {cname if x in a else fname}, not in {fname if x in a else cname}", True
            if diff:
                return f"index {i + 1} of a key is {short(diff[0])} in {fname} and {short(res[i])} in {cname}", True
    return None, same


def short(s):
    t = text(s)
    return t if len(t) < 110 else t[:60] + " … " + t[-40:]


def product(prefix=(0, 1)):
    """The product of two elements of GF(2^128) modulo x^128 + x^7 + x^2 + x + 1."""
    x, y = ([frozenset({("in", n, i)}) for i in (0, 1)] for n in prefix)
    r = [ZERO] * 4
    for i in (0, 1):
        for j in (0, 1):
            lo, hi = clmul(x[i], y[j])
            r[i + j] = xor(r[i + j], lo)
            r[i + j + 1] = xor(r[i + j + 1], hi)
    q = K(0x87)
    for k in (3, 2):
        lo, hi = clmul(r[k], q)
        r[k - 2] = xor(r[k - 2], lo)
        r[k - 1] = xor(r[k - 1], hi)
    return r[0], r[1]


def product_py(p, fi):
    def leaf(t):
        if t.k == "item" and t.a[0].k == "param" and t.a[0].a[-1] in fi.params[:2]:
            i = fold(t.a[1])
            if i in (0, 1):
                return ("s", frozenset({("in", fi.params.index(t.a[0].a[-1]), i)}))
        return None

    rets, raises = Engine(p, Straight(p, fi.module.name)).run(fi)
    out = []
    for v, st in rets:
        t = one(v)
        if t is None:
            raise Und("result")
        while t.k == "call" and t.a[1]:
            t = t.a[1][0]
        if t.k == "new":
            d = {k: one(val) for (o, k), val in st.heap.items() if o is t}
            items = [d.get(i) if i in d else d.get(f"[{i}]") for i in (0, 1)]
            if None in items:
                items = [one(x) for k, x in sorted(((k, val) for (o, k), val in st.heap.items() if o is t and not isinstance(k, str)), key=lambda kv: repr(kv[0]))]
        else:
            items = triple(t, st)
        if not items or len(items) != 2 or None in items:
            raise Und("result")
        w = Words(p, fi.module.name, leaf)
        out.append(tuple(s_of(w.of(x)) for x in items))
    return out


# ------------------------------------------------------------------ the rule
def bytes_of(p, e, mod, func):
    """A constant byte string."""
    if isinstance(e, ast.Constant) and isinstance(e.value, bytes):
        return e.value
    if isinstance(e, ast.Name):
        for m in [mod]:
            for n in m.tree.body:
                tg = n.targets[0] if isinstance(n, ast.Assign) and len(n.targets) == 1 else n.target if isinstance(n, ast.AnnAssign) else None
                if isinstance(tg, ast.Name) and tg.id == e.id:
                    return bytes_of(p, n.value, m, None)
        return None
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = bytes_of(p, e.left, mod, func), bytes_of(p, e.right, mod, func)
        return a + b if a is not None and b is not None else None
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
        if e.func.attr == "to_bytes" and len(e.args) == 2 and all(isinstance(a, ast.Constant) for a in e.args):
            v = int_of(p, e.func.value, mod)
            try:
                return v.to_bytes(e.args[0].value, e.args[1].value) if v is not None else None
            except (OverflowError, ValueError):
                return None
        if e.func.attr == "fromhex" and len(e.args) == 1 and isinstance(e.args[0], ast.Constant):
            return bytes.fromhex(e.args[0].value)
    return None


def int_of(p, e, mod):
    if isinstance(e, ast.Constant) and isinstance(e.value, int):
        return e.value
    if isinstance(e, ast.BinOp):
        a, b = int_of(p, e.left, mod), int_of(p, e.right, mod)
        if a is None or b is None:
            return None
        f = {ast.BitOr: lambda: a | b, ast.LShift: lambda: a << b, ast.Add: lambda: a + b, ast.BitXor: lambda: a ^ b}.get(type(e.op))
        return f() if f else None
    if isinstance(e, ast.Name):
        for n in mod.tree.body:
            tg = n.targets[0] if isinstance(n, ast.Assign) and len(n.targets) == 1 else n.target if isinstance(n, ast.AnnAssign) else None
            if isinstance(tg, ast.Name) and tg.id == e.id:
                return int_of(p, n.value, mod)
            if isinstance(n, ast.ImportFrom) and n.module in p.modules:
                for a in n.names:
                    if (a.asname or a.name) == e.id:
                        return int_of(p, ast.Name(id=a.name, ctx=ast.Load()), p.modules[n.module])
    return None


def keys_native(fns):
    """[(low, high)] of the 128-bit constants made."""
    out = []
    for fn in fns.values():
        todo = [fn]
        while todo:
            x = todo.pop()
            inner = [c for c in x.get("inner", ()) if c]
            if x.get("kind") == "CallExpr":
                f = inner[0]
                while f.get("kind") in SKIP:
                    f = f["inner"][-1]
                if f.get("referencedDecl", {}).get("name") == "_mm_set_epi64x":
                    vals = []
                    for a in inner[1:]:
                        while a.get("kind") in SKIP:
                            a = a["inner"][-1]
                        vals.append(int(a["value"]) & MASK if a.get("kind") == "IntegerLiteral" else None)
                    if None not in vals and min(vals) > 1 << 32:
                        out.append((vals[1], vals[0]))
            todo += inner
    return out


def run(p, rep, pairs, funs, texts, source):
    """pairs: {(native routine, fallback, flag)}; source(path, name): the definition, from clang."""
    from rules.c20 import emit, rel

    sides = {}
    for nat, q, flag in sorted(pairs, key=repr):
        c, fi = funs[nat], p.functions[q]
        path = os.path.join(REPO, c.file)
        known = {m.group(1): int(m.group(2), 0) for m in re.finditer(r"(?:const|constexpr|#define)[^;{}=\n]*?\b(\w+)\s*(?:=|\s)\s*(0[xX][0-9a-fA-F]+|\d+)[uUlL]*\s*(?:;|\n)", texts[path])}

        def get(n, path=path):
            return source(path, n)
        fns = reach(nat, get)
        inst = f"{nat}/{rel(fi)}"
        bad = []
        rep.saw(q)
        uses = {n for fn in fns.values() for n in refs(fn)}
        try:
            # hash functions
            tri, ones = hashes_native(fns, get, known)
            if tri:
                if len(tri) != 1:
                    raise Und("several hash functions: " + ", ".join(sorted(tri)))
                cname, rows = next(iter(tri.items()))
                cand = [f for f in named(p, fi, flag) if len(f.params) >= 3 and not has_loop(f) and any(isinstance(n, ast.Return) and n.value is not None for n in ast.walk(f.node)) and any(isinstance(n, ast.Mod) or isinstance(n, ast.Name) and n.id == "divmod" for g in closure(p, f) for n in ast.walk(g.node))]
                if len(cand) != 1:
                    raise Und("hash function of the fallback: " + ", ".join(f.name for f in cand))
                rep.saw(cand[0].qual)
                py = hashes_py(p, cand[0])
                diff, same = compare(rows, py, cname, cand[0].name)
                if diff:
                    bad.append(diff)
                elif not same:
                    rep.notes.append(f"agrees: {inst}: the conditions of the two hash functions are written differently: not compared where two indices coincide")
                for n, ws in ones.items():
                    if any(a[0] == "op" and a[1] == "%" and const(a[3]) for w in ws for a in w):
                        got = set().union(*[b for _, _, b in py])
                        if not got and not bad:
                            bad.append(f"{nat} divides the table by {n}, {cand[0].name} does not")
                        elif got and not set(ws) & got and not bad:
                            bad.append(f"the part of the table a key belongs to is {short(sorted(got, key=key)[0])} in {cand[0].name} and {short(ws[0])} in {n}")
                if not ones and any(b for _, _, b in py) and not bad:
                    bad.append(f"{cand[0].name} divides the table, {nat} does not")
                sides.setdefault((nat.split("_")[-1] == "opt"), {})[nat] = (cname, cand[0].name)
            elif any(n.startswith("__builtin_ia32_pclmul") for n in uses):
                want = product()
                seen = 0
                for n, fn in fns.items():
                    prm = [q2 for q2 in fn.get("inner", ()) if q2.get("kind") == "ParmVarDecl"]
                    if loops(fn) or len(prm) != 3 or not all("*" in q2["type"]["qualType"] for q2 in prm):
                        continue
                    for st, r in Native(get, known).function(fn, symbols(fn)):
                        if 2 in st.out:
                            seen += 1
                            got = w_of(st.out[2])
                            for i in (0, 1):
                                if got[i] != want[i]:
                                    bad.append(f"the {('low', 'high')[i]} half {n} computes is not the product's: {differ(got[i], want[i])}")
                if not seen:
                    raise Und("no product found in the native sources")
                seen = 0
                for f in closure(p, fi):
                    if has_loop(f) or len(f.params) != 2:
                        continue
                    rep.saw(f.qual)
                    for got in product_py(p, f):
                        seen += 1
                        for i in (0, 1):
                            if got[i] != want[i]:
                                bad.append(f"the {('low', 'high')[i]} half {f.name} computes is not the product's: {differ(got[i], want[i])}")
                if not seen:
                    raise Und("no product found in the fallback")
            elif "_mm_aesenclast_si128" in uses:
                keys = keys_native(fns)
                made = []
                for f in closure(p, fi):
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                            name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id
                            if name in ("AES", "AES128") and n.args:
                                made.append(bytes_of(p, n.args[0], f.module, f))
                            if name in ("CBC", "CTR", "OFB", "CFB", "CFB8", "GCM", "XTS") and isinstance(n.func, ast.Attribute):
                                bad.append(f"{f.name} chains the blocks ({name}), {nat} permutes each by itself")
                if not made:
                    bad.append(f"{nat} encrypts with AES, {fi.name} does not")
                for k in made:
                    if k is None:
                        raise Und("the key of the fallback is not constant")
                    if keys and (len(k) != 16 or (int.from_bytes(k[:8], "little"), int.from_bytes(k[8:], "little")) not in keys):
                        bad.append(f"the key of {fi.name} is {k.hex()}, that of {nat} is {keys[0][0].to_bytes(8, 'little').hex()}{keys[0][1].to_bytes(8, 'little').hex()}")
            else:
                continue
        except Und as e:
            if not bad:
                rep.notes.append(f"agrees: {inst}: not decided ({e})")
                continue
        emit(rep, "agrees", inst, c.where, bad)
    for opt, m in sides.items():
        bad = []
        if len({x[0] for x in m.values()}) > 1:
            bad.append("a table is solved and decoded with different hash functions: " + ", ".join(f"{n} with {x[0]}" for n, x in sorted(m.items())))
        if len({x[1] for x in m.values()}) > 1:
            bad.append("the fallback solves and decodes a table with different hash functions: " + ", ".join(f"{n} with {x[1]}" for n, x in sorted(m.items())))
        first = sorted(m)[0]
        emit(rep, "agrees", "sides:" + ("opt" if opt else "plain"), funs[first].where, bad)


def differ(a, b):
    extra, missing = a - b, b - a
    return "; ".join(([f"has {text(frozenset(list(sorted(extra, key=repr))[:1]))}"] if extra else []) + ([f"lacks {text(frozenset(list(sorted(missing, key=repr))[:1]))}"] if missing else []))
