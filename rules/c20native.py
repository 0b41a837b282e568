"""C20, native side: which elements of its buffers a routine indexes, from clang's syntax tree of the current sources.

Every index is bounded by the loops around it: an interval whose ends are expressions of the routine's parameters. An
index that depends on data (a hash, a stored column) or on a guard is not decided here.
"""
from __future__ import annotations

import concurrent.futures
import itertools
import json
import os
import re
import shutil
import subprocess
import tempfile

from sa.project import REPO

OUT = {"out", "output"}
STUB = "static inline int omp_get_max_threads(void){return 1;}\nstatic inline int omp_get_thread_num(void){return 0;}\nstatic inline int omp_get_num_threads(void){return 1;}\nstatic inline void omp_set_num_threads(int n){(void)n;}\n"
FLAGS = ["-std=c++17", "-w", "-maes", "-mpclmul", "-msse4.1", "-mavx2", "-fsyntax-only"]


def dump(path, name, inc):
    r = subprocess.run(["clang++", *FLAGS, "-I", inc, "-Xclang", "-ast-dump=json", "-Xclang", f"-ast-dump-filter={name}", path], capture_output=True, text=True, timeout=120)
    docs, dec, i, s = [], json.JSONDecoder(), 0, r.stdout
    while True:
        i = s.find("{", i)
        if i < 0:
            break
        try:
            d, i = dec.raw_decode(s, i)
        except ValueError:
            break
        docs.append(d)
    return docs, r.returncode, r.stderr


def bodies(docs, name):
    for d in docs:
        if d.get("kind") == "FunctionDecl" and d.get("name") == name and any(c.get("kind") == "CompoundStmt" for c in d.get("inner", ())):
            return d
    return None


# ------------------------------------------------------------------ values: intervals of expressions of the parameters
class Ptr:
    def __init__(self, param, off):
        self.param, self.off = param, off       # byte offset: interval expression


def num(n):
    return ("const", n)


def bounds(e, nums):
    """(smallest, largest) of an interval expression; None when it cannot be told; EmptyLoop when it is never evaluated."""
    if e is None:
        return None
    k = e[0]
    if k == "const":
        return e[1], e[1]
    if k == "par":
        return nums[e[1]], nums[e[1]]
    if k == "loop":
        lo, hi = bounds(e[1], nums), bounds(e[2], nums)
        if lo is None or hi is None:
            return None
        top = hi[1] - (0 if e[3] else 1)
        if top < lo[0]:
            raise EmptyLoop
        return lo[0], top
    if k == "down":
        hi = bounds(e[1], nums)
        if hi is None:
            return None
        if hi[1] < e[2]:
            raise EmptyLoop
        return e[2], hi[1]
    if k == "mod":
        m = bounds(e[2], nums)
        x = bounds(e[1], nums)
        if m is None or m[1] <= 0:
            return None
        if x is not None and x[0] >= 0 and x[1] < m[0]:
            return x
        return 0, m[1] - 1
    a, b = bounds(e[1], nums), bounds(e[2], nums)
    if a is None or b is None:
        return None
    if k == "+":
        return a[0] + b[0], a[1] + b[1]
    if k == "-":
        return a[0] - b[1], a[1] - b[0]
    if k == "*":
        ps = [x * y for x in a for y in b]
        return min(ps), max(ps)
    if k == "/" and b[0] > 0 and a[0] >= 0:
        return a[0] // b[1], a[1] // b[0]
    if k == "<<" and b[0] >= 0:
        return a[0] << b[0], a[1] << b[1]
    if k == ">>" and b[0] >= 0 and a[0] >= 0:
        return a[0] >> b[1], a[1] >> b[0]
    return None


class EmptyLoop(Exception):
    pass


WIDTHS = {"unsigned long": 8, "long": 8, "unsigned long long": 8, "long long": 8, "unsigned int": 4, "int": 4, "unsigned char": 1, "char": 1, "signed char": 1, "unsigned short": 2, "short": 2, "uint64_t": 8, "int64_t": 8, "uint32_t": 4, "int32_t": 4, "uint8_t": 1, "__m128i": 16, "__m128i_u": 16, "__m256i": 32, "__m256i_u": 32, "size_t": 8, "void": 1, "double": 8}


def pointee(ty):
    q = ty.get("desugaredQualType") or ty.get("qualType") or ""
    for q in (ty.get("qualType") or "", q):
        if q.endswith("]"):
            base = q.split("[")[0]
        elif q.rstrip().endswith(("*", "*const", "* const", "*restrict", "*__restrict")):
            base = q[:q.rindex("*")]
        else:
            continue
        base = " ".join(w for w in base.replace("*", " * ").split() if w not in ("const", "volatile"))
        if "*" in base:
            return 8
        if base in WIDTHS:
            return WIDTHS[base]
        if "__vector_size__(2 * sizeof(long long))" in base or "vector_size(16)" in base:
            return 16
    return None


def size_of(ty):
    q = ty.get("desugaredQualType") or ty.get("qualType") or ""
    for s in (ty.get("qualType") or "", q):
        s = " ".join(w for w in s.split() if w not in ("const", "volatile"))
        if s.endswith("*"):
            return 8
        if s in WIDTHS:
            return WIDTHS[s]
        if "__vector_size__(2 * sizeof(long long))" in s:
            return 16
    return None


LOADS = {"_mm_loadu_si128": 16, "_mm_load_si128": 16, "_mm256_loadu_si256": 32, "_mm_lddqu_si128": 16, "_mm_loadl_epi64": 8}
STORES = {"_mm_storeu_si128": 16, "_mm_store_si128": 16, "_mm256_storeu_si256": 32, "_mm_stream_si128": 16, "_mm_storel_epi64": 8}
CASTS = {"ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXReinterpretCastExpr", "CXXConstCastExpr", "CXXFunctionalCastExpr", "ParenExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "ConstantExpr"}


class Walk:
    """Accesses of one routine's buffers: (parameter, byte offset, bytes, written, line, guarded)."""

    def __init__(self, lookup, depth=3):
        self.lookup, self.depth = lookup, depth
        self.acc = []
        self.halves = []
        self.escaped = set()
        self.line = 0

    def function(self, fn, args=None, depth=0, guards=()):
        env, assigned = {}, self.assigned(fn)
        for i, prm in enumerate(c for c in fn.get("inner", ()) if c.get("kind") == "ParmVarDecl"):
            if args is not None:
                env[prm["id"]] = args[i] if i < len(args) else None
            elif pointee(prm["type"]):
                env[prm["id"]] = Ptr(prm.get("name", f"#{i}"), num(0))
            else:
                env[prm["id"]] = ("par", prm.get("name", f"#{i}"))
            if prm["id"] in assigned:
                env[prm["id"]] = None
        body = next(c for c in fn["inner"] if c.get("kind") == "CompoundStmt")
        self.stmt(body, env, assigned, depth, tuple(guards))

    def assigned(self, fn):
        out = set()

        def go(n):
            k = n.get("kind")
            if k in ("BinaryOperator", "CompoundAssignOperator") and (n.get("opcode") == "=" or k == "CompoundAssignOperator") or k == "UnaryOperator" and n.get("opcode") in ("++", "--", "&"):
                t = self.strip(n["inner"][0])
                if t.get("kind") == "DeclRefExpr":
                    out.add(t["referencedDecl"]["id"])
            for c in n.get("inner", ()):
                go(c)
        go(fn)
        return out

    def strip(self, n):
        while n.get("kind") in CASTS and n.get("inner"):
            n = n["inner"][-1]
        return n

    def uses(self, n):
        out = set()

        def go(x):
            if x.get("kind") == "DeclRefExpr":
                out.add(x["referencedDecl"]["id"])
            for c in x.get("inner", ()):
                go(c)
        go(n)
        return out

    # -------------------------------------------------------------- statements
    def stmt(self, n, env, assigned, depth, guards):
        k = n.get("kind")
        if not k:
            return
        if "range" in n:
            b = n["range"].get("begin", {})
            b = b.get("expansionLoc", b)
            if b.get("line"):
                self.line = b["line"]
        inner = n.get("inner", ())
        if k == "ForStmt":
            init, _, cond, inc, body = (list(inner) + [{}] * 5)[:5]
            var, rng, env2 = None, None, dict(env)
            if init.get("kind") == "DeclStmt" and len(init["inner"]) == 1 and init["inner"][0].get("inner"):
                d = init["inner"][0]
                var, start = d["id"], self.value(d["inner"][-1], env, depth, guards)
            elif init.get("kind") == "BinaryOperator" and init.get("opcode") == "=":
                t = self.strip(init["inner"][0])
                var, start = t.get("referencedDecl", {}).get("id"), self.value(init["inner"][1], env, depth, guards)
            inbody = self.assigned({"inner": [body]})
            if var and var not in inbody and cond.get("kind") == "BinaryOperator" and not isinstance(start, Ptr):
                l, r = self.strip(cond["inner"][0]), self.strip(cond["inner"][1])
                op = cond.get("opcode")
                if r.get("kind") == "DeclRefExpr" and r["referencedDecl"]["id"] == var:
                    l, r, op = r, l, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                if l.get("kind") == "DeclRefExpr" and l["referencedDecl"]["id"] == var and not (self.uses(r) & (assigned | {var})):
                    up = inc.get("kind") == "UnaryOperator" and inc.get("opcode") == "++" or inc.get("kind") == "CompoundAssignOperator" and inc.get("opcode") == "+="
                    down = inc.get("kind") == "UnaryOperator" and inc.get("opcode") == "--"
                    step = 1 if inc.get("kind") == "UnaryOperator" else None
                    if inc.get("kind") == "CompoundAssignOperator":
                        v = self.strip(inc["inner"][1])
                        step = int(v["value"]) if v.get("kind") == "IntegerLiteral" else None
                    hi = self.value(r, env, depth, guards)
                    if up and step == 1 and op in ("<", "<=", "!=") and not isinstance(hi, Ptr):
                        rng = ("loop", start, hi, op == "<=")
                    elif down and op in (">=", ">") and isinstance(hi, tuple) and hi[0] == "const":
                        rng = ("down", start, hi[1] + (op == ">"))
            if var:
                env2[var] = rng
            else:
                for i in self.assigned({"inner": [c for c in (init, inc, body) if c]}):
                    env2[i] = None
            for c in (cond, inc):
                if c.get("kind"):
                    self.value(c, env2, depth, guards)
            g = guards
            if self.leaves(body):
                g = guards + (("all",),)
            # inside a loop with an unknown range nothing is known about how often it runs
            if rng is None:
                g = g + (("maybe",),)
            self.stmt(body, env2, assigned - ({var} if rng else set()), depth, g)
            return
        if k in ("WhileStmt", "DoStmt", "CXXForRangeStmt"):
            for c in inner:
                self.stmt(c, env, assigned, depth, guards + (("maybe",),))
            return
        if k == "IfStmt":
            self.value(inner[0], env, depth, guards)
            g = guards + (("if", frozenset(self.uses(inner[0]))),)
            for c in inner[1:]:
                self.stmt(c, env, assigned, depth, g)
            return
        if k == "SwitchStmt":
            for c in inner:
                self.stmt(c, env, assigned, depth, guards + (("all",),))
            return
        if k == "DeclStmt":
            for d in inner:
                if d.get("kind") == "VarDecl":
                    v = self.value(d["inner"][-1], env, depth, guards) if d.get("inner") and d.get("init") else None
                    env[d["id"]] = None if d["id"] in assigned else v
                    if d.get("init") and d["id"] not in assigned and d.get("inner"):
                        env[("init", d["id"])] = d["inner"][-1]
            return
        if k in ("CompoundStmt", "ReturnStmt", "OMPParallelForDirective", "CapturedStmt", "CapturedDecl", "OMPForDirective", "OMPCriticalDirective", "OMPParallelDirective", "OMPSimdDirective", "OMPParallelForSimdDirective", "AttributedStmt", "LabelStmt", "CaseStmt", "DefaultStmt"):
            e = env if k != "CompoundStmt" else env
            for i, c in enumerate(inner):
                if k == "CompoundStmt" and c.get("kind") == "IfStmt" and self.leaves(c):
                    self.stmt(c, e, assigned, depth, guards)
                    guards = guards + (("if", frozenset(self.uses(c["inner"][0]))),)
                    continue
                self.stmt(c, e, assigned, depth, guards)
            return
        self.value(n, env, depth, guards)

    def leaves(self, n):
        if n.get("kind") in ("BreakStmt", "ContinueStmt", "ReturnStmt", "GotoStmt"):
            return n.get("kind") != "ContinueStmt"
        return any(self.leaves(c) for c in n.get("inner", ()))

    # -------------------------------------------------------------- expressions
    def access(self, p, size, write, guards, node, idx_uses):
        self.acc.append((p.param, p.off, size, write, self.line, guards, idx_uses))

    def value(self, n, env, depth, guards):
        """Value of an expression: an interval expression, a Ptr, ("lv", Ptr, size) for an element, or None."""
        k = n.get("kind")
        if not k:
            return None
        inner = n.get("inner", ())
        if "range" in n:
            b = n["range"].get("begin", {})
            b = b.get("expansionLoc", b)
            if b.get("line"):
                self.line = b["line"]
        if k == "IntegerLiteral":
            return num(int(n["value"]))
        if k == "ConstantExpr" and n.get("value", "").lstrip("-").isdigit():
            return num(int(n["value"]))
        if k == "DeclRefExpr":
            d = n["referencedDecl"]
            if d.get("kind") == "EnumConstantDecl":
                return None
            return env.get(d["id"])
        if k in CASTS:
            v = None
            for c in inner:
                v = self.value(c, env, depth, guards)
            if k == "ImplicitCastExpr" and n.get("castKind") == "LValueToRValue" and isinstance(v, tuple) and v and v[0] == "lv":
                self.access(v[1], v[2], False, guards, n, v[3])
                return None
            if isinstance(v, tuple) and v and v[0] == "lv" and n.get("castKind") not in ("NoOp", None) and k == "ImplicitCastExpr":
                return v
            return v
        if k == "ArraySubscriptExpr":
            b, i = self.value(inner[0], env, depth, guards), self.value(inner[1], env, depth, guards)
            if isinstance(i, Ptr):
                b, i = i, b
            if isinstance(b, Ptr):
                w = size_of(n["type"])
                if w and not (isinstance(i, tuple) and i and i[0] == "lv"):
                    off = None if i is None or b.off is None else ("+", b.off, ("*", i, num(w)))
                    return ("lv", Ptr(b.param, off), w, frozenset(self.uses(n)))
            return None
        if k == "UnaryOperator":
            op = n.get("opcode")
            v = self.value(inner[0], env, depth, guards)
            if op == "*" and isinstance(v, Ptr):
                return ("lv", v, size_of(n["type"]) or 1, frozenset(self.uses(n)))
            if op == "&" and isinstance(v, tuple) and v and v[0] == "lv":
                return v[1]
            if op in ("++", "--") and isinstance(v, tuple) and v and v[0] == "lv":
                self.access(v[1], v[2], True, guards, n, v[3])
            if op == "+":
                return v
            return None
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            op = n.get("opcode")
            a = self.value(inner[0], env, depth, guards)
            b = self.value(inner[1], env, depth, guards)
            if op == "=" or k == "CompoundAssignOperator":
                if isinstance(a, tuple) and a and a[0] == "lv":
                    self.access(a[1], a[2], True, guards, n, a[3])
                return None
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Ptr) and op in ("+", "-") and not isinstance(y, Ptr):
                    w = pointee(n["type"])
                    if not w or y is None or x.off is None or isinstance(y, tuple) and y[0] == "lv":
                        return Ptr(x.param, None)
                    return Ptr(x.param, (op, x.off, ("*", y, num(w))))
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                return None
            if isinstance(a, tuple) and a[0] == "lv" or isinstance(b, tuple) and b[0] == "lv":
                return None
            if op == "%":
                return ("mod", a, b) if b is not None else None
            if op == "&" and isinstance(b, tuple) and b[0] == "const":
                return ("mod", None, num(b[1] + 1))
            if op in ("+", "-", "*", "/", "<<", ">>") and a is not None and b is not None:
                return (op, a, b)
            return None
        if k == "ConditionalOperator":
            self.value(inner[0], env, depth, guards)
            g = guards + (("if", frozenset(self.uses(inner[0]))),)
            for c in inner[1:]:
                self.value(c, env, depth, g)
            return None
        if k == "UnaryExprOrTypeTraitExpr":
            if n.get("name") == "sizeof":
                w = size_of(n.get("argType", {})) if n.get("argType") else size_of(inner[0].get("type", {})) if inner else None
                return num(w) if w else None
            return None
        if k == "CallExpr":
            f = self.strip(inner[0])
            name = f.get("referencedDecl", {}).get("name")
            args = [self.value(c, env, depth, guards) for c in inner[1:]]
            us = frozenset(self.uses(n))
            if name in LOADS and args and isinstance(args[0], Ptr):
                self.access(args[0], LOADS[name], False, guards, n, us)
            elif name in STORES and args and isinstance(args[0], Ptr):
                self.access(args[0], STORES[name], True, guards, n, frozenset(self.uses(inner[1])))
            elif name in ("memset", "__builtin_memset") and args and isinstance(args[0], Ptr):
                self.acc.append((args[0].param, args[0].off, args[2] if len(args) > 2 else None, True, self.line, guards, us))
            elif name in ("memcpy", "memmove", "__builtin_memcpy"):
                for j in (0, 1):
                    if isinstance(args[j], Ptr):
                        self.acc.append((args[j].param, args[j].off, args[2], j == 0, self.line, guards, us))
            elif name == "__builtin_ia32_pclmulqdq128" and len(inner) == 4:
                self.product(inner[1], inner[2], inner[3], env)
            elif any(isinstance(a, Ptr) for a in args):
                fn = self.lookup(name) if name and depth < self.depth else None
                if fn is None:
                    self.escaped |= {a.param for a in args if isinstance(a, Ptr)}
                else:
                    line = self.line
                    clean = [None if isinstance(a, tuple) and a and a[0] == "lv" else a for a in args]
                    self.function(fn, clean, depth + 1, guards + (("args", us),))
                    self.line = line
            return None
        for c in inner:
            v = self.value(c, env, depth, guards) if not c.get("kind", "").endswith("Stmt") else self.stmt(c, env, set(), depth, guards)
            if isinstance(v, Ptr) and k not in ("MemberExpr",):
                self.escaped.add(v.param)
        return None

    # -------------------------------------------------------------- carry-less products
    def product(self, a, b, imm, env):
        i = self.strip(imm)
        while i.get("kind") in CASTS:
            i = i["inner"][-1]
        if i.get("kind") != "IntegerLiteral":
            return
        c = int(i["value"])
        for op, bit, side in ((a, 1, "first"), (b, 16, "second")):
            z = self.zero_half(op, env)
            if z is not None and z == (1 if c & bit else 0):
                self.halves.append(f"line {self.line}: the product selects the {'upper' if z else 'lower'} half of its {side} operand, which is constantly zero")

    def zero_half(self, n, env, d=0):
        n = self.strip(n)
        if n.get("kind") == "DeclRefExpr" and d < 5:
            i = env.get(("init", n["referencedDecl"]["id"]))
            return self.zero_half(i, env, d + 1) if i is not None else None
        if n.get("kind") == "CallExpr":
            f = self.strip(n["inner"][0]).get("referencedDecl", {}).get("name")
            if f in ("_mm_set_epi64x",) and len(n["inner"]) == 3:
                zs = []
                for x in n["inner"][1:]:
                    x = self.strip(x)
                    zs.append(x.get("kind") == "IntegerLiteral" and int(x["value"]) == 0)
                return 1 if zs[0] and not zs[1] else 0 if zs[1] and not zs[0] else None
            if f in ("_mm_cvtsi64_si128", "_mm_cvtsi32_si128", "_mm_loadl_epi64"):
                return 1
        return None


# ------------------------------------------------------------------ the rule
def run(p, rep, funs, texts, contract, tier, pairs=()):
    from rules.c20 import emit, decomment, matching

    if shutil.which("clang++") is None:
        rep.notes.append("indexed: no clang++ to read the native sources with")
        return
    single(rep, texts)
    inc = tempfile.mkdtemp(prefix="c20-")
    try:
        found = any(os.path.exists(os.path.join(d, "omp.h")) for d in ("/usr/lib/gcc", "/usr/include"))
        with open(os.path.join(inc, "omp.h"), "w") as f:
            f.write(STUB)
        jobs = {name: (os.path.join(REPO, c.file), name) for name, c in funs.items() if name in contract}
        cache = {}

        def get(path, name):
            if (path, name) not in cache:
                docs, rc, err = dump(path, name, inc)
                if rc and not docs:
                    rep.notes.append(f"indexed: {os.path.relpath(path, REPO)} is not understood: {err.strip().splitlines()[0][:100] if err.strip() else rc}")
                for d in docs:
                    if d.get("kind") == "FunctionDecl" and any(c.get("kind") == "CompoundStmt" for c in d.get("inner", ())):
                        cache.setdefault((path, d.get("name")), d)
                cache.setdefault((path, name), None)
            return cache[(path, name)]

        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda j: get(*j), jobs.values()))
        for name, (path, _) in sorted(jobs.items()):
            fn = get(path, name)
            c = funs[name]
            if fn is None:
                rep.notes.append(f"indexed: {name} was not found by clang")
                continue
            w = Walk(lambda n, path=path: get(path, n) if re.search(r"\b%s\s*\(" % re.escape(n), texts[path]) and not n.startswith("_mm") else None)
            w.function(fn)
            rep.saw(f"{c.file}:{name}")
            own = dict(zip([q[1] for q in c.params], c.names()))
            emit(rep, "indexed", name, c.where, wrong(w, own, contract[name], c))
            bad = [f"{name} writes into {prm} (line {line})" for prm, off, size, write, line, g, u in w.acc if write and own.get(prm) not in OUT and own.get(prm) in contract[name] or write and own.get(prm) == "indices"]
            bad += [f"{prm} of {name} is const and written" for prm, off, size, write, line, g, u in w.acc if write and dict((q[1], q[0][2]) for q in c.params).get(prm)]
            emit(rep, "direction", name, c.where, bad)
            if "pclmul" in texts[path] or "clmulepi64" in texts[path]:
                emit(rep, "halves", name, c.where, w.halves)
        from rules import c20same
        c20same.run(p, rep, pairs, funs, texts, get)
    finally:
        shutil.rmtree(inc, ignore_errors=True)


def needed(want, nums):
    r = 0
    for part in want.split("+"):
        q = 1
        for x in part.split("*"):
            q *= int(x) if x.isdigit() else nums[x]
        r += q
    return r


def wrong(w, own, want, c):
    bad = []
    numbers = [n for q, n in own.items() if not next(x for x in c.params if x[1] == q)[0][1]]
    inv = {n: q for q, n in own.items()}
    for prm, name in own.items():
        if name not in want:
            continue
        decided, whole = True, prm not in w.escaped
        top = {}
        used = False
        for q, off, size, write, line, guards, uses in w.acc:
            if q != prm:
                continue
            used = True
            # every number of a family: the ends of the interval are linear in them
            guarded = any(g[0] == "all" for g in guards) or any(g[0] == "if" and g[1] & uses for g in guards)
            optional = any(g[0] in ("if", "all", "maybe") for g in guards)
            if name in OUT and not write:
                pass
            for vals in itertools.product((1, 2, 3), repeat=len(numbers)):
                nums = dict(zip(numbers, vals))
                env = {inv[n]: v for n, v in nums.items()}
                ext = needed(want[name], nums) * 8
                try:
                    b = bounds(off, env)
                    s = size if isinstance(size, int) else (lambda z: z and z[1])(bounds(size, env)) if size is not None else None
                    if isinstance(b, tuple) and isinstance(s, int):
                        if not guarded and (b[1] + s > ext or b[0] < 0):
                            bad.append(f"line {line}: {prm} is indexed up to byte {b[1] + s}, it has {ext} ({', '.join(f'{k}={v}' for k, v in nums.items())})")
                            break
                        top[vals] = max(top.get(vals, 0), b[1] + s)
                    else:
                        whole = False
                except EmptyLoop:
                    continue
        if used and whole and not bad:
            for vals in itertools.product((1, 2, 3), repeat=len(numbers)):
                nums = dict(zip(numbers, vals))
                ext = needed(want[name], nums) * 8
                if top.get(vals, 0) < ext:
                    bad.append(f"{prm} is {'written' if name in OUT else 'read'} up to byte {top.get(vals, 0)} of {ext} only ({', '.join(f'{k}={v}' for k, v in nums.items())})")
                    break
    return bad


def single(rep, texts):
    """Functions with C linkage share one name space across the files."""
    from rules.c20 import decomment, matching

    seen = {}
    for path, s in sorted(texts.items()):
        if not path.endswith((".cpp", ".cc", ".cxx")):
            continue
        for m in re.finditer(r'extern\s*"C"\s*\{', s):
            end = matching(s, m.end() - 1)
            i = m.end()
            while True:
                f = re.compile(r"([A-Za-z_][\w\s\*&:<>,]*?)\b(\w+)\s*\(([^()]*)\)\s*\{").search(s, i, end)
                brace = s.find("{", i, end)
                if f is None:
                    break
                if brace < f.end() - 1:
                    i = matching(s, brace)
                    continue
                e = matching(s, f.end() - 1)
                head = re.split(r"[;}]", f.group(1))[-1].split()
                if "static" not in head and head:
                    seen.setdefault(f.group(2), []).append((path, s.count("\n", 0, f.start(2)) + 1, " ".join(s[f.start(3):e].split())))
                i = e
    for name, defs in sorted(seen.items()):
        files = {d[0] for d in defs}
        if len(files) > 1:
            different = len({d[2] for d in defs}) > 1
            where = f"{os.path.relpath(defs[0][0], REPO)}:{defs[0][1]}"
            rep.check(not different, "indexed", "one:" + name, where, f"{name} has C linkage and different definitions in {', '.join(sorted(os.path.relpath(f, REPO) for f in files))}: the linker keeps one for both")
