"""Projection of communication code onto symbolic participants.

Participants are a few named individuals. The analysed code may compare them for equality, test
membership and order collections of them; whatever else it computes is kept as an uninterpreted term
("data"), never as a value. A condition on data splits the analysis. What is collected for each
individual is the sequence of its sends and receives, i.e. the local projection of the protocol.
"""
from __future__ import annotations

import ast
from itertools import product


class Undecided(Exception):
    """The code does something with participants that the abstraction does not model."""


class Tok:
    """A participant."""
    __slots__ = ("i",)
    cache: dict = {}

    def __new__(cls, i):
        t = cls.cache.get(i)
        if t is None:
            t = object.__new__(cls)
            t.i = i
            cls.cache[i] = t
        return t

    def __repr__(self):
        return f"P{self.i}"


class D:
    """Data: an uninterpreted term. local: may differ between the participants."""

    def __init__(self, *term, local=False):
        self.term = term
        self.local = local or any(is_local(x) for x in term)

    def __repr__(self):
        h, *r = self.term
        return f"{h}({', '.join(map(repr, r))})" if r else str(h)

    def key(self):
        return repr(self)


def is_local(x):
    if isinstance(x, D):
        return x.local
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(is_local(y) for y in x)
    if isinstance(x, dict):
        return any(is_local(y) for y in (*x.keys(), *x.values()))
    return False


class Obj:
    def __init__(self, kind, **attrs):
        self.kind = kind
        self.attrs = attrs

    def __repr__(self):
        return self.kind


class Fn:
    def __init__(self, fi, env=None, node=None, bound=None):
        self.fi, self.env, self.node, self.bound = fi, env, node, bound

    def __repr__(self):
        return f"<{self.fi.name if self.fi is not None else 'lambda'}>"


class Ext:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Raised(Exception):
    def __init__(self, v, node):
        self.v, self.node = v, node


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Outcome:
    def __init__(self, kind, value, trace, log, node=None):
        self.kind, self.value, self.trace, self.log, self.node = kind, value, trace, log, node


class Env:
    def __init__(self, fi, parent=None):
        self.fi, self.parent, self.v = fi, parent, {}

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.v:
                return e, e.v[name]
            e = e.parent
        return None, None


SIZED = (list, tuple, set, frozenset, dict)


class Roles:
    """hooks.call(ev, callee, name, recv, args, kwargs, node) -> value or NotImplemented."""

    def __init__(self, project, hooks, max_runs=512, max_depth=8):
        self.p, self.hooks = project, hooks
        self.max_runs, self.max_depth = max_runs, max_depth
        self.seen_funcs = set()

    # ------------------------------------------------------------ driver
    def outcomes(self, fi, args, kwargs=None, make=None):
        """All outcomes of one participant. make() rebuilds mutable arguments for every run."""
        plans, out = [[]], []
        while plans:
            plan = plans.pop()
            if len(out) > self.max_runs:
                raise Undecided("too many cases")
            self.plan, self.pos, self.log, self.trace, self.memo, self.depth, self.steps = plan, 0, [], [], {}, 0, 0
            a, k = make() if make else (args, kwargs or {})
            try:
                v = self.invoke(Fn(fi), list(a), dict(k), None)
                out.append(Outcome("return", v, self.trace, self.log))
            except Raised as r:
                out.append(Outcome("raise", r.v, self.trace, self.log, r.node))
            for i in range(len(plan), len(self.log)):
                plans.append([x[3] for x in self.log[:i]] + [not self.log[i][3]])
        return out

    def decide(self, v, node):
        k = repr(v)
        if k in self.memo:
            return self.memo[k]
        t = v.term
        if t[0] in ("eq", "ne") and len(t) == 3:
            other = ("ne" if t[0] == "eq" else "eq") + k[2:]
            if other in self.memo:
                return not self.memo[other]
            if t[2] is None and self.memo.get(repr(t[1])):
                return t[0] == "ne"
        elif self.memo.get(f"eq({k}, None)") or self.memo.get(f"ne({k}, None)") is False:
            return False
        val = self.plan[self.pos] if self.pos < len(self.plan) else True
        self.pos += 1
        if self.pos > 24:
            raise Undecided("too many conditions on data")
        self.log.append((k, is_local(v), node, val))
        self.memo[k] = val
        return val

    # ------------------------------------------------------------ calls
    def invoke(self, fn, args, kwargs, node):
        if self.depth > self.max_depth:
            raise Undecided("call depth")
        if fn.node is not None:  # lambda
            env = Env(fn.fi, fn.env)
            for a, v in zip(fn.node.args.args, args):
                env.v[a.arg] = v
            return self.ev(fn.node.body, env)
        fi = fn.fi
        self.seen_funcs.add(fi.qual)
        a = fi.node.args
        env = Env(fi, fn.env)
        if fn.bound is not None:
            args = [fn.bound, *args]
        pos = [*a.posonlyargs, *a.args]
        for x, v in zip(pos, args):
            env.v[x.arg] = v
        if len(args) > len(pos):
            if a.vararg is None:
                raise Undecided("arity")
        if a.vararg is not None:
            env.v[a.vararg.arg] = tuple(args[len(pos):])
        rest = dict(kwargs)
        for x in (*pos, *a.kwonlyargs):
            if x.arg in rest:
                env.v[x.arg] = rest.pop(x.arg)
        if a.kwarg is not None:
            env.v[a.kwarg.arg] = rest
        dflt = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for x, d in dflt:
            if x.arg not in env.v:
                env.v[x.arg] = self.ev(d, Env(fi, fn.env))
        for x in (*pos, *a.kwonlyargs):
            if x.arg not in env.v:
                env.v[x.arg] = D("param", x.arg)
        self.depth += 1
        try:
            self.block(fi.node.body, env)
        except Return as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    def call(self, e, env):
        args, kwargs = [], {}
        recv = name = None
        if isinstance(e.func, ast.Attribute):
            name = e.func.attr
            r = self.p.resolve_expr(e.func, env.fi.module, env.fi) if self.is_global(e.func, env) else None
            if r and r[0] == "func":
                callee = Fn(r[1])
            elif r and r[0] in ("ext", "class"):
                callee = Ext(r[1] if r[0] == "ext" else r[1].qual)
            else:
                recv = self.ev(e.func.value, env)
                callee = None
        else:
            callee = self.ev(e.func, env)
            name = e.func.id if isinstance(e.func, ast.Name) else None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if isinstance(v, D):
                    args.append(D("star", v))
                else:
                    args += list(v)
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if isinstance(v, dict):
                    kwargs.update({str(x): y for x, y in v.items()})
                else:
                    raise Undecided("** of data")
            else:
                kwargs[k.arg] = v
        h = self.hooks.call(self, callee, name, recv, args, kwargs, e)
        if h is not NotImplemented:
            return h
        if callee is None:
            return self.method(recv, name, args, kwargs, e)
        return self.apply(callee, args, kwargs, e)

    def apply(self, callee, args, kwargs, e):
        if isinstance(callee, Fn):
            return self.invoke(callee, args, kwargs, e)
        if isinstance(callee, Ext):
            return self.builtin(callee.name, args, kwargs, e)
        return D("apply", callee, *args)

    def builtin(self, n, args, kwargs, e):
        n = n.removeprefix("builtins.")
        a0 = args[0] if args else None
        data = isinstance(a0, D)
        if n in ("int", "float", "str", "operator.index") and isinstance(a0, Tok):
            return a0
        if n == "bool":
            if isinstance(a0, (bool, type(None), int)) or isinstance(a0, SIZED):
                return bool(a0)
            if isinstance(a0, Tok):
                raise Undecided("truth of a rank")
            return a0 if data and a0.term[0] == "bool" else D("bool", a0)
        if n in ("tuple", "list", "set", "frozenset") and not data:
            v = list(self.items(a0)) if args else []
            return {"tuple": tuple, "list": list, "set": set, "frozenset": frozenset}[n](v)
        if n == "sorted" and not data:
            if kwargs.get("key") is not None or kwargs.get("reverse"):
                raise Undecided("custom sort")
            v = list(self.items(a0))
            if all(isinstance(x, Tok) for x in v):
                return sorted(v, key=lambda x: x.i)
            return D("sorted", *v)
        if n in ("min", "max") and not kwargs:
            v = list(self.items(a0)) if len(args) == 1 and not data else args
            if v and all(isinstance(x, Tok) for x in v):
                return (min if n == "min" else max)(v, key=lambda x: x.i)
            return D(n, *args)
        if n == "len" and isinstance(a0, SIZED):
            return len(a0)
        if n == "range":
            if all(isinstance(x, int) for x in args):
                return list(range(*args))
            if len(args) == 1 and isinstance(a0, Obj) and a0.kind == "world_size":
                return [Tok(i) for i in range(a0.attrs["n"])]
            return D("range", *args)
        if n == "enumerate" and not data:
            return list(enumerate(self.items(a0)))
        if n == "zip" and all(isinstance(x, SIZED) for x in args):
            return list(zip(*[list(self.items(x)) for x in args]))
        if n == "reversed" and not data:
            return list(reversed(list(self.items(a0))))
        if n == "iter" and not data and isinstance(a0, (list, tuple)):
            return list(a0)
        if n == "next" and isinstance(a0, list):
            if a0:
                return a0.pop(0)
            if len(args) > 1:
                return args[1]
            raise Raised("StopIteration", e)
        if n in ("any", "all") and isinstance(a0, SIZED):
            for x in self.items(a0):
                t = self.truth(x, e)
                if t == (n == "any"):
                    return t
            return n == "all"
        if n == "dict":
            return dict(a0) if isinstance(a0, (dict, list, tuple)) else dict(kwargs)
        if n == "dict.fromkeys" and not data:
            return {k: (args[1] if len(args) > 1 else None) for k in self.items(a0)}
        if n == "isinstance":
            if isinstance(a0, Tok):
                return True
            return D("isinstance", a0, *args[1:])
        if n in ("hasattr", "callable"):
            return True if isinstance(a0, Obj) else D(n, *args)
        if n == "print":
            return None
        if n in ("typing.cast",):
            return args[1]
        if n == "sum" and isinstance(a0, SIZED):
            return D("sum", *self.items(a0))
        if n == "functools.reduce" and isinstance(args[1], SIZED):
            it = list(self.items(args[1]))
            acc = args[2] if len(args) > 2 else it.pop(0)
            for x in it:
                acc = self.apply(a0, [acc, x], {}, e)
            return acc
        return D(n, *args, *kwargs.values())

    def method(self, recv, name, args, kwargs, e):
        if isinstance(recv, dict):
            if name == "get":
                return recv.get(self.hashable(args[0]), args[1] if len(args) > 1 else None)
            if name == "items":
                return list(recv.items())
            if name == "keys":
                return list(recv.keys())
            if name == "values":
                return list(recv.values())
            if name == "setdefault":
                return recv.setdefault(self.hashable(args[0]), args[1])
            if name == "pop":
                return recv.pop(self.hashable(args[0]), *args[1:])
            if name == "copy":
                return dict(recv)
            if name == "update":
                recv.update(args[0])
                return None
        if isinstance(recv, list):
            if name in ("append", "extend", "insert", "remove", "reverse", "pop", "index", "copy", "count"):
                return getattr(recv, name)(*args)
        if isinstance(recv, tuple) and name in ("index", "count"):
            return getattr(recv, name)(*args)
        if isinstance(recv, (set, frozenset)) and name in ("add", "discard", "remove", "difference", "union", "intersection", "copy"):
            return getattr(recv, name)(*args)
        if isinstance(recv, Obj):
            f = recv.attrs.get(name)
            if isinstance(f, Fn):
                return self.invoke(f, args, kwargs, e)
        return D("call", recv if isinstance(recv, D) else repr(recv), name, *args, *kwargs.values())

    def hashable(self, k):
        if isinstance(k, D):
            raise Undecided("data used as a key")
        return k

    # ------------------------------------------------------------ statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > 4000:
            raise Undecided("too many steps")
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            cur = self.ev(load(s.target), env)
            self.assign(s.target, self.binop(s.op, cur, self.ev(s.value, env), s), env)
        elif isinstance(s, ast.If):
            self.block(s.body if self.truth(self.ev(s.test, env), s.test) else s.orelse, env)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter, env)
            broke = False
            for x in list(self.items(it)):
                self.assign(s.target, x, env)
                try:
                    self.block(s.body, env)
                except Break:
                    broke = True
                    break
                except Continue:
                    continue
            if not broke:
                self.block(s.orelse, env)
        elif isinstance(s, ast.While):
            n = 0
            while self.truth(self.ev(s.test, env), s.test):
                n += 1
                if n > 16:
                    raise Undecided("unbounded loop")
                try:
                    self.block(s.body, env)
                except Break:
                    break
                except Continue:
                    continue
        elif isinstance(s, ast.Return):
            raise Return(self.ev(s.value, env) if s.value is not None else None)
        elif isinstance(s, ast.Raise):
            raise Raised(self.ev(s.exc, env) if s.exc is not None else None, s)
        elif isinstance(s, ast.Assert):
            if not self.truth(self.ev(s.test, env), s.test):
                raise Raised(D("AssertionError"), s)
        elif isinstance(s, ast.Try):
            try:
                self.block(s.body, env)
                self.block(s.orelse, env)
            except Raised as r:
                if not s.handlers:
                    raise
                h = s.handlers[0]
                if h.name:
                    env.v[h.name] = r.v
                self.block(h.body, env)
            finally:
                self.block(s.finalbody, env)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, env)
            self.block(s.body, env)
        elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fi = self.p.node2func.get(id(s))
            env.v[s.name] = Fn(fi, env)
        elif isinstance(s, ast.Break):
            raise Break
        elif isinstance(s, ast.Continue):
            raise Continue
        elif isinstance(s, ast.Delete):
            pass
        # imports, pass, global: nothing

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.v[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, D):
                for i, x in enumerate(t.elts):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, D("item", v, i), env)
                return
            vs = list(self.items(v))
            if any(isinstance(x, ast.Starred) for x in t.elts):
                i = next(i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred))
                tail = len(t.elts) - i - 1
                for x, y in zip(t.elts[:i], vs):
                    self.assign(x, y, env)
                self.assign(t.elts[i].value, vs[i:len(vs) - tail], env)
                for x, y in zip(t.elts[i + 1:], vs[len(vs) - tail:]):
                    self.assign(x, y, env)
                return
            if len(vs) != len(t.elts):
                raise Undecided("unpacking")
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            if isinstance(o, dict):
                o[self.hashable(k)] = v
            elif isinstance(o, list) and isinstance(k, int):
                o[k] = v
            elif isinstance(o, list):
                raise Undecided("index is not constant")
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            if isinstance(o, Obj):
                h = self.hooks.setattr(self, o, t.attr, v, t)
                if h is NotImplemented:
                    o.attrs[t.attr] = v

    # ------------------------------------------------------------ expressions
    def items(self, v):
        if isinstance(v, D):
            raise Undecided(f"iteration over {v!r}")
        if isinstance(v, (set, frozenset)):
            # the order of a set of participants is not defined
            self.hooks.unordered(self, v)
            return sorted(v, key=lambda x: x.i if isinstance(x, Tok) else 0)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (list, tuple, str)):
            return v
        raise Undecided(f"iteration over {v!r}")

    def truth(self, v, node):
        if isinstance(v, D):
            if v.term[0] == "not":
                return not self.truth(v.term[1], node)
            return self.decide(v, node)
        if isinstance(v, Tok):
            raise Undecided("truth of a rank")
        if isinstance(v, Obj):
            return True
        if isinstance(v, (Fn, Ext)):
            return True
        return bool(v)

    def is_global(self, e, env):
        while isinstance(e, ast.Attribute):
            e = e.value
        return isinstance(e, ast.Name) and env.lookup(e.id)[0] is None

    def ev(self, e, env):
        self.steps += 1
        if self.steps > 8000:
            raise Undecided("too many steps")
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            o, v = env.lookup(e.id)
            if o is not None:
                return v
            return self.global_value(e, env)
        if isinstance(e, ast.Attribute):
            if self.is_global(e, env):
                r = self.p.resolve_expr(e, env.fi.module, env.fi)
                if r is not None and r[0] in ("func", "ext", "class"):
                    return self.global_value(e, env)
            o = self.ev(e.value, env)
            if isinstance(o, Obj):
                h = self.hooks.getattr(self, o, e.attr, e)
                if h is not NotImplemented:
                    return h
                if e.attr in o.attrs:
                    return o.attrs[e.attr]
                return D("attr", repr(o), e.attr)
            return D("attr", o, e.attr)
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.BoolOp):
            v = None
            for x in e.values:
                v = self.ev(x, env)
                t = self.truth(v, x)
                if t != isinstance(e.op, ast.And):
                    return v
            return v
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env)
            if isinstance(e.op, ast.Not):
                return D("not", v) if isinstance(v, D) else not self.truth(v, e)
            if isinstance(v, (int, float)):
                return -v if isinstance(e.op, ast.USub) else v
            return D(type(e.op).__name__, v)
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env), e)
        if isinstance(e, ast.Compare):
            left = self.ev(e.left, env)
            res = True
            for op, r in zip(e.ops, e.comparators):
                right = self.ev(r, env)
                res = self.compare(op, left, right, e)
                if isinstance(res, D) and len(e.ops) > 1:
                    res = self.truth(res, e)
                if res is False:
                    return False
                left = right
            return res
        if isinstance(e, ast.IfExp):
            return self.ev(e.body if self.truth(self.ev(e.test, env), e.test) else e.orelse, env)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out += list(self.items(self.ev(x.value, env)))
                else:
                    out.append(self.ev(x, env))
            return tuple(out) if isinstance(e, ast.Tuple) else out if isinstance(e, ast.List) else set(out)
        if isinstance(e, ast.Dict):
            d = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    d.update(self.ev(v, env))
                else:
                    d[self.hashable(self.ev(k, env))] = self.ev(v, env)
            return d
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            src = self.ev(e.generators[0].iter, env)
            if isinstance(src, D):
                # one representative element of the data
                inner = Env(env.fi, env)
                self.assign(e.generators[0].target, D("elem", src), inner)
                conds = [self.ev(c, inner) for c in e.generators[0].ifs]
                if len(e.generators) > 1:
                    return D("each", src, *conds)
                n = len(self.trace)
                r = D("each", self.ev(e.value, inner) if isinstance(e, ast.DictComp) else self.ev(e.elt, inner), src, *conds)
                if len(self.trace) != n:
                    raise Undecided("communication for each element of data")
                return r
            out = []
            self.comp(e, e.generators, Env(env.fi, env), out)
            if isinstance(e, ast.ListComp) or isinstance(e, ast.GeneratorExp):
                return out
            if isinstance(e, ast.SetComp):
                return set(out)
            return dict(out)
        if isinstance(e, ast.Subscript):
            o = self.ev(e.value, env)
            if isinstance(e.slice, ast.Slice):
                lo, hi, st = (self.ev(x, env) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step))
                if isinstance(o, (list, tuple)) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                    return o[lo:hi:st]
                return D("slice", o, lo, hi)
            k = self.ev(e.slice, env)
            if isinstance(o, dict):
                k = self.hashable(k)
                if k in o:
                    return o[k]
                raise Raised(D("KeyError"), e)
            if isinstance(o, (list, tuple)):
                if isinstance(k, int):
                    if -len(o) <= k < len(o):
                        return o[k]
                    raise Raised(D("IndexError"), e)
                raise Undecided(f"a collection indexed with {k!r}")
            return D("item", o, k)
        if isinstance(e, ast.JoinedStr):
            return D("str", *[self.ev(x.value, env) for x in e.values if isinstance(x, ast.FormattedValue)])
        if isinstance(e, ast.Lambda):
            return Fn(env.fi, env, e)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            env.v[e.target.id] = v
            return v
        if isinstance(e, ast.Await):
            return self.ev(e.value, env)
        if isinstance(e, ast.Starred):
            return self.ev(e.value, env)
        return D("expr", ast.unparse(e))

    def comp(self, e, gens, env, out):
        if not gens:
            if isinstance(e, ast.DictComp):
                out.append((self.hashable(self.ev(e.key, env)), self.ev(e.value, env)))
            else:
                out.append(self.ev(e.elt, env))
            return
        g = gens[0]
        for x in list(self.items(self.ev(g.iter, env))):
            self.assign(g.target, x, env)
            if all(self.truth(self.ev(c, env), c) for c in g.ifs):
                self.comp(e, gens[1:], env, out)

    def global_value(self, e, env):
        r = self.p.resolve_expr(e, env.fi.module, env.fi)
        if r is None:
            return D("global", ast.unparse(e))
        if r[0] == "func":
            return Fn(r[1])
        if r[0] == "class":
            return Ext(r[1].qual)
        if r[0] == "ext":
            return Ext(r[1])
        return D("global", ast.unparse(e))

    def compare(self, op, a, b, node):
        eq = isinstance(op, (ast.Eq, ast.Is))
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            simple = (Tok, Obj, type(None), bool, int, str)
            if isinstance(a, simple) and isinstance(b, simple):
                if isinstance(a, Tok) and isinstance(b, int):
                    b = Tok(b)
                if isinstance(b, Tok) and isinstance(a, int):
                    a = Tok(a)
                r = a is b if isinstance(a, (Tok, Obj)) or isinstance(b, (Tok, Obj)) else a == b
                return r if eq else not r
            if a is None or b is None:
                x = b if a is None else a
                if isinstance(x, (*SIZED, Fn, Ext)):
                    return not eq
            if isinstance(a, SIZED) and isinstance(b, SIZED) and not is_data(a) and not is_data(b):
                return (a == b) == eq
            if repr(a) == repr(b):
                return eq
            return D("eq" if eq else "ne", a, b)
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, SIZED) and not isinstance(a, D):
                r = any(x is a or (not isinstance(x, (D, Tok)) and x == a) for x in b)
                if not r and any(isinstance(x, D) for x in b):
                    return D("in" if isinstance(op, ast.In) else "notin", a, tuple(b))
                return r == isinstance(op, ast.In)
            return D("in" if isinstance(op, ast.In) else "notin", a, b)
        # order
        if isinstance(a, int) and isinstance(b, int):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        for x, y, flip in ((a, b, False), (b, a, True)):
            if isinstance(x, Tok):
                less = isinstance(op, (ast.Lt, ast.LtE)) != flip
                if isinstance(y, int) and y == 0 and isinstance(op, (ast.Lt, ast.GtE) if not flip else (ast.Gt, ast.LtE)):
                    return not less
                if isinstance(y, Obj) and y.kind == "world_size" and isinstance(op, (ast.Lt, ast.GtE) if not flip else (ast.Gt, ast.LtE)):
                    return less
                if isinstance(y, Tok):
                    return {ast.Lt: a.i < b.i, ast.LtE: a.i <= b.i, ast.Gt: a.i > b.i, ast.GtE: a.i >= b.i}[type(op)]
                raise Undecided("a rank compared with a number")
        return D(type(op).__name__, a, b)

    def binop(self, op, a, b, node):
        if isinstance(a, Tok) or isinstance(b, Tok):
            raise Undecided("arithmetic on ranks")
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.BitOr):
                return a | b
            if isinstance(op, ast.BitAnd):
                return a & b
        if isinstance(a, (list, tuple)) and isinstance(b, type(a)) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, list) and isinstance(b, int) and isinstance(op, ast.Mult):
            return a * b
        if isinstance(a, int) and isinstance(b, int) and not isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
        return D({"BitAnd": "operator.and_", "BitOr": "operator.or_", "BitXor": "operator.xor"}.get(type(op).__name__, type(op).__name__), a, b)


def is_data(x):
    return isinstance(x, D) or isinstance(x, (list, tuple, set, frozenset)) and any(is_data(y) for y in x) or isinstance(x, dict) and any(is_data(y) for y in (*x, *x.values()))


def load(t):
    t2 = ast.copy_location(type(t)(**{f: getattr(t, f) for f in t._fields}), t)
    t2.ctx = ast.Load()
    return t2


class Hooks:
    def call(self, ev, callee, name, recv, args, kwargs, node):
        return NotImplemented

    def getattr(self, ev, obj, attr, node):
        return NotImplemented

    def setattr(self, ev, obj, attr, v, node):
        return NotImplemented

    def unordered(self, ev, v):
        pass


def subsets(xs):
    for bits in product((0, 1), repeat=len(xs)):
        yield [x for x, b in zip(xs, bits) if b]
