"""C19: table input and output lose, duplicate and misplace no data.

Reading is decided by following one arbitrary iteration of each reading loop: what was taken from the source must be in
the batch returned or in the part kept for the next one, exactly once and in order, on every path. Writing is decided by
the order of the operations on the written path: open, write, close, rename.
"""
from __future__ import annotations

import ast
import itertools
from types import SimpleNamespace

from sa.engine import C, EMPTY, FALSE, NONE, TRUE, Client, Engine, T, St, V, one, show, split, subterms
from rules.common import abstract
from rules.c21 import callee_name, is_call, kw, order, plain, recv_of, Flow

TI, OS_ = "mplang.backends.table_impl", "mplang.runtime.object_store"
READS = {"read_next_batch", "read_all", "__next__"}
RULES = {
    "kept": "whatever is read from the source is returned or kept for the next batch, exactly once and in order",
    "counted": "the row count that decides where a batch is cut counts the rows of the batches collected",
    "ended": "the end of the data is reported only when the source has ended and nothing is kept back",
    "failing": "an error while reading or writing reaches the caller; only the end of the source ends a loop",
    "aligned": "batches of several sources are combined in the order of the sources, under the names in that order; tables of a query are registered under the name in the same place",
    "typed": "a source with a declared schema delivers that schema, or refuses",
    "atomic": "a file is written under a temporary name and renamed onto its destination after it was completely written and closed",
    "complete": "every batch of the input is written",
    "returned": "the table a write returns can be read afterwards",
    "columns": "columns and their names are paired by position, and differing numbers of rows or columns are refused",
    "text": "a text format keeps every digit of the numbers written",
}


def emit(rep, rule, inst, where, bad):
    rep.check(not bad, rule, inst, where, bad or "")


def all_terms(v, st):
    seen, todo, objs, out = set(), list(v) if isinstance(v, (list, tuple)) else [v], set(), []
    while todo:
        for x in subterms(todo.pop(), seen):
            out.append(x)
            if x.k == "new" and x not in objs:
                objs.add(x)
                for (o, k), val in st.heap.items():
                    if o is x:
                        todo.append(val)
    return out


# ------------------------------------------------------------------ evaluating conditions on small numbers
def evaluate(t, env):
    """Value of a term under an assignment of its atoms; None when it cannot be told."""
    if t in env:
        return env[t]
    if t.k == "const":
        return t.a[-1] if isinstance(t.a[-1], (int, bool)) or t.a[-1] is None else None
    if t.k == "bin":
        a, b = evaluate(t.a[1], env), evaluate(t.a[2], env)
        if a is None or b is None:
            return None
        return a + b if t.a[0] == "Add" else a - b if t.a[0] == "Sub" else a * b if t.a[0] == "Mult" else None
    if t.k == "call" and callee_name(t) in ("min", "max") and t.a[1]:
        xs = [evaluate(x, env) for x in t.a[1]]
        return None if any(x is None for x in xs) else (min if callee_name(t) == "min" else max)(xs)
    if t.k == "cmp":
        a, b = evaluate(t.a[1], env), evaluate(t.a[2], env)
        if a is None or b is None:
            return None
        return a == b if t.a[0] == "==" else a < b if t.a[0] == "<" else None
    return None


def size_atoms(t):
    """Row counts and lengths a term depends on."""
    out = set()
    for x in subterms(t, set()):
        if x.k == "attr" and x.a[1] in ("num_rows", "_batch_size", "batch_size") or x.k == "fresh" or x.k == "param":
            out.add(x)
        elif is_call(x, "len"):
            out.add(x)
    return out


class Rows(Client):
    """Follows batches from their source; loops by one arbitrary iteration."""

    exact = orders = True
    comp_facts = loop_conds = path_sensitive = assume_nonempty_loops = True
    max_states = 256
    max_depth = 8

    def __init__(self, p, cls, tracked=frozenset(), kept=()):
        self.p, self.cls, self.tracked, self.kept = p, cls, frozenset(tracked), tuple(kept)
        self.appended = set()
        self.bad = {}            # rule -> {text}
        self.assume = {}
        self.rowcounts = set()
        self.reads = 0

    # -------------------------------------------------------------- calls
    def should_inline(self, it, fi, call):
        return fi.cls is not None and fi.cls.name == self.cls.name and fi.module.name == TI or fi.cls is None and fi.parent is None and fi.module.name == TI and fi.name.startswith("_") and not fi.decorators

    def quiet_call(self, it, call):
        return True

    def note(self, rule, text):
        self.bad.setdefault(rule, set()).add(text)

    def on_call(self, it, call):
        isread = call.name in READS and call.recv is not None and call.target is None or call.ext == "builtins.next" and call.args
        if isread:
            src = one(call.args[0] if call.ext == "builtins.next" else call.recv)
            if src is None:
                return None
            self.reads += 1
            if call.name != "read_all":
                it.add_raise(T("exc", ("StopIteration",), 0), call.st.with_fact(("ended", src)))
            it.add_raise(T("exc", ("OSError",), 0), call.st.with_fact(("failed", it.where(call.node))))
            t = T("call", T("attr", src, "read" if call.name != "read_all" else "read_all"), (), (), call.site)
            return [(V(t), call.st.with_fact(("read", t)))]
        if call.name in ("append", "extend", "appendleft", "insert") and call.recv is not None:
            o = one(call.recv)
            if o is not None and o.k == "new" and call.frame.func is not None and any(isinstance(n, (ast.For, ast.While)) and self.collects(n) and any(m is call.node for b in n.body for m in ast.walk(b)) for n in ast.walk(call.frame.func.node)):
                self.appended.add(o)
        if call.name == "pop" and call.recv is not None and one(call.recv) in self.tracked:
            o = one(call.recv)
            i = call.args[0] if call.args else V(C(-1))
            w = "last" if one(i) is C(-1) else "first" if one(i) is C(0) else None
            if w:
                return [(V(self.end(o, w, call.st)), call.st.with_fact(("cut", o, w)))]
        return None

    def after_call(self, it, call, value, st):
        o = one(call.recv) if call.recv is not None else None
        if o is not None and o in self.tracked and call.args:
            if call.name in ("append", "extend"):
                return st.with_fact(("put", self.nputs(st), o, one(call.args[-1])))
            if call.name in ("insert", "appendleft"):
                return st.with_fact(("front", o, one(call.args[-1])))
        return st

    @staticmethod
    def nputs(st):
        return sum(1 for f in st.facts if isinstance(f, tuple) and f[0] == "put")

    @staticmethod
    def puts(st, o=None):
        return [f[3] for f in sorted((f for f in st.facts if isinstance(f, tuple) and f[0] == "put" and (o is None or f[2] is o)), key=lambda f: f[1])]

    def end(self, o, w, st):
        """The first or last element of a tracked list."""
        if w == "last":
            ps = self.puts(st, o)
            if ps and ps[-1] is not None:
                return ps[-1]
        return T("attr", o, w)

    def on_getitem(self, it, obj, idx, st, node, frame):
        o, i = one(obj), one(idx)
        if o is not None and o in self.tracked and i is not None and i.k == "slice":
            return [(V(T("item", o, i)), st)]
        if o is not None and o in self.tracked and any(f == ("loop", o) for f in st.facts) and i is not None and i.k == "const" and i.a[-1] in (0, -1):
            w = "last" if i.a[-1] == -1 else "first"
            for f in st.facts:
                if isinstance(f, tuple) and f[0] == "set" and f[1] is o and f[2] == w:
                    return [(f[3], st)]
            return [(V(self.end(o, w, st)), st)]
        return None

    def on_return(self, it, value, st, node, frame):
        # results of an inlined method are kept apart
        if value is not None and frame.func is not None and len(value) == 1:
            return st.with_fact(("ret", frame.func.qual, "none" if one(value) is C(None) else "some", tuple(sorted((repr(t), b) for t, b in st.conds.items()))))
        return st

    def on_setattr(self, it, obj, name, val, st, node, frame):
        if one(val) is C(True) and one(obj) is not None and is_self(one(obj)):
            return st.with_fact(("flag", name))
        return st

    def on_setitem(self, it, obj, idx, val, st, node, frame):
        o, i = one(obj), one(idx)
        if o is not None and o in self.tracked and i is not None and i.k == "const" and i.a[-1] in (0, -1):
            w = "last" if i.a[-1] == -1 else "first"
            return st.without(lambda f: isinstance(f, tuple) and f[0] == "set" and f[1] is o and f[2] == w).with_fact(("set", o, w, val))
        return st

    def on_cond(self, it, term, truth, st, node, frame):
        if term in self.assume and self.assume[term] is not truth:
            return None
        if not truth and term.k == "new" and ("some", term) in st.facts:
            return None
        # native readers deliver record batches, never tables
        if term.k == "isinst" and any(is_read(x) for x in subterms(term.a[0], set())) and truth and all(str(q).endswith("Table") for q in term.a[1]):
            return None
        if term.k == "cmp" and term.a[0] == "is" and truth and C(None) in term.a[1:]:
            x = term.a[2] if term.a[1] is C(None) else term.a[1]
            if x.k == "attr" and x.a[1] in ("last", "first") or is_token(x) or x.k in ("call", "item", "new", "tup") and any(is_read(y) or y.k == "new" for y in subterms(x, set())):
                return None
        return st

    # -------------------------------------------------------------- loops
    def counters(self, node):
        out = set()
        for b in node.body:
            for n in ast.walk(b):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    out.add(n.target.id)
                elif isinstance(n, ast.Assign):
                    for x in n.targets:
                        if isinstance(x, ast.Name) and any(isinstance(y, ast.Name) and y.id == x.id for y in ast.walk(n.value)):
                            out.add(x.id)
        return out

    def collects(self, node):
        """Does the loop take batches from a source?"""
        return any(isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr in READS or isinstance(n.func, ast.Name) and n.func.id == "next") for b in node.body for n in ast.walk(b)) or any(
            isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Load) and self.p.find_method(self.cls, n.attr) is not None and n.attr not in ("schema", "num_rows")
            for b in node.body for n in ast.walk(b))

    def havoc(self, st, node, frame):
        st = st.copy()
        live = set(all_terms([v for v in st.env.values()], st))
        for o in self.tracked:
            if o not in live:
                continue
            for k in [k for k in st.heap if k[0] is o and k[1] not in ("a",)]:
                del st.heap[k]
            st.heap[(o, "*")] = V(T("attr", o, "prior"))
        gone = set()
        for b in node.body:
            for m in ast.walk(b):
                if isinstance(m, (ast.AugAssign, ast.Assign)) and any(isinstance(y, ast.Attribute) and y.attr == "num_rows" for y in ast.walk(m.value)):
                    self.rowcounts |= {y.id for t in (m.targets if isinstance(m, ast.Assign) else [m.target]) for y in ast.walk(t) if isinstance(y, ast.Name)}
        for n in self.counters(node):
            k = (frame.fid, n)
            if k in st.env:
                f = T("fresh", n)
                st.env[k] = V(f)
                gone.add(f)
        st.conds = {t: b for t, b in st.conds.items() if not any(x in gone or is_read(x) for x in subterms(t, set()))}
        keep = frozenset(f for f in st.facts if not (isinstance(f, tuple) and f[0] in ("put", "read", "front", "set")))
        st.facts = keep | {("loop", o) for o in self.tracked if o in live} | {("in", node.lineno)}
        return st

    def on_loop(self, it, kind, iterval, st, node, frame):
        if kind == "comp" or not self.collects(node):
            return st
        rows0 = [x for x in self.outstanding(st)]
        inlists = set(all_terms([o for o in self.tracked], st))
        self.entering(st, node, frame, rows0, inlists)
        return self.havoc(self.absorb(st, rows0, inlists), node, frame)

    def absorb(self, st, items, inlists):
        for x in items:
            if x in inlists and is_token(x):
                st = st.with_fact(("absorbed", x))
        return st

    def entering(self, st, node, frame, items, inlists):
        for n in self.counters(node):
            v = st.env.get((frame.fid, n))
            v = one(v) if v is not None else None
            if v is None or not any(isinstance(m, ast.Attribute) and m.attr == "num_rows" for b in node.body for m in ast.walk(b)):
                continue
            collected = [x for x in items if x in inlists]
            bad = mismatch(v, collected)
            if bad:
                self.note("counted", f"the count starts as {show(v)[:60]} although {', '.join(show(x) for x in collected) or 'nothing'} was collected before the loop")

    def on_iter_end(self, it, st, node, frame, kind):
        if not self.collects(node) or ("in", node.lineno) not in st.facts:
            return st
        if kind == "break" and not self.puts(st):
            return st
        inlists = set(all_terms(list(self.tracked), st))
        reads = [f[1] for f in st.facts if isinstance(f, tuple) and f[0] == "read"]
        taken = []
        for x in reads:
            if x in inlists:
                taken.append(x)
                if any(isinstance(f, tuple) and f[0] == "front" and f[2] is not None and x in subterms(f[2], set()) for f in st.facts):
                    self.note("kept", f"the batch read is put in front of the batches read before it ({it.where(node)})")
                if sum(1 for y in self.puts(st) if y is x) > 1:
                    self.note("kept", f"a batch read is collected twice ({it.where(node)})")
            elif x in set(all_terms([v for (o, k), v in st.heap.items() if is_self(o)], st)):
                pass
            elif kind != "break" and not self.empty(x, st) and not self.carried(x, st, node, frame):
                self.note("kept", f"a batch read in one round of the loop is dropped: on one path it is neither collected nor known to be empty ({it.where(node)})")
        for n in self.counters(node):
            v = st.env.get((frame.fid, n))
            v = one(v) if v is not None else None
            if v is None:
                continue
            f0 = T("fresh", n)
            if not any(x.k == "attr" and x.a[1] == "num_rows" for x in subterms(v, set())):
                uses = any(isinstance(m, ast.Attribute) and m.attr == "num_rows" for b in node.body for m in ast.walk(b) if not isinstance(m, ast.Name))
                if not (v is f0 and taken and uses and any(isinstance(m, (ast.AugAssign, ast.Assign)) and any(isinstance(y, ast.Attribute) and y.attr == "num_rows" for y in ast.walk(m)) and n in {y.id for y in ast.walk(m) if isinstance(y, ast.Name)} for b in node.body for m in ast.walk(b))):
                    continue
            bad = mismatch(v, taken, f0, [x for x in reads if self.empty(x, st)])
            if bad:
                self.note("counted", f"after a round of the loop the count is {show(v)[:80]}, which is not the number of rows collected ({it.where(node)})")
        if kind == "break":
            s = st.copy()
            s.facts = frozenset(f for f in s.facts)
            return s
        for f in st.facts:
            if isinstance(f, tuple) and f[0] == "put" and f[3] in reads:
                st = st.with_fact(("some", f[2]))
        return self.havoc(st, node, frame)

    def carried(self, x, st, node, frame):
        """A batch held in a variable the next round, or the code after the loop, reads."""
        names = {k[1] for k, v in st.env.items() if k[0] == frame.fid and x in subterms(v, set())}
        for n in names:
            occ = sorted((m for b in node.body for m in ast.walk(b) if isinstance(m, ast.Name) and m.id == n), key=lambda m: (m.lineno, m.col_offset))
            if occ and isinstance(occ[0].ctx, ast.Load):
                return True
            end = node.end_lineno
            if any(isinstance(m, ast.Name) and m.id == n and isinstance(m.ctx, ast.Load) and m.lineno > end for m in ast.walk(frame.func.node)):
                return True
        return False

    # -------------------------------------------------------------- what must not be lost
    def outstanding(self, st):
        out = [f[1] for f in st.facts if isinstance(f, tuple) and f[0] == "read"]
        gone = {f[1] for f in st.facts if isinstance(f, tuple) and f[0] == "absorbed"}
        out += [T("attr", f[1], "prior") for f in st.facts if isinstance(f, tuple) and f[0] == "loop"]
        out += [x for x in self.kept if x not in gone]
        return out

    def assignments(self, x, st, extra=()):
        """Small numbers satisfying every condition of the path that can be evaluated, with x not empty."""
        atoms, conds = set(extra), []
        for t, b in st.conds.items():
            conds.append((t, b))
            atoms |= size_atoms(t)
            if t.k in ("new", "attr") and t.k == "new":
                atoms.add(T("call", T("ext", "builtins.len"), (t,), (), 0))
        lists = {f[1] for f in st.facts if isinstance(f, tuple) and f[0] == "loop"}
        atoms = sorted(atoms, key=repr)[:7]
        names = [a for a in atoms]
        dom = []
        for a in names:
            dom.append((-1, 0, 1, 2, 3) if a.k == "attr" and "batch_size" in a.a[1] else (0, 1, 2, 4) if not is_call(a, "len") else (0, 1, 2))
        for vals in itertools.product(*dom):
            env = dict(zip(names, vals))
            ok = True
            for a, v in env.items():
                if a.k == "attr" and a.a[1] == "num_rows" and a.a[0] is x and v == 0:
                    ok = False
                if a.k == "fresh" and x.k == "attr" and x.a[1] == "prior" and v == 0:
                    ok = False
                if is_call(a, "len") and a.a[1] and (x.k == "attr" and x.a[1] == "prior" and a.a[1][0] is x.a[0] or a.a[1][0] is x) and v == 0:
                    ok = False
                if is_call(a, "len") and v == 0 and a.a[1] and a.a[1][0] in lists and any(c.k == "fresh" and w for c, w in env.items()):
                    ok = False
                # the last batch is one of those counted
                if a.k == "attr" and a.a[1] == "num_rows" and a.a[0].k == "attr" and a.a[0].a[1] in ("last", "first"):
                    for c, w in env.items():
                        if c.k == "fresh" and w < v:
                            ok = False
            if not ok:
                continue
            for t, b in conds:
                r = evaluate(t, env)
                if r is None and t.k == "new":
                    n = [v for a, v in env.items() if is_call(a, "len") and a.a[1] and a.a[1][0] is t]
                    r = bool(n[0]) if n else None
                if r is None and is_call(t, "len"):
                    r = env.get(t)
                if r is not None and bool(r) != b:
                    ok = False
                    break
            if ok:
                yield env

    def empty(self, x, st):
        """The path is impossible with x having rows."""
        mine = [t for t in st.conds if x in subterms(t, set()) or x.k == "attr" and x.a[1] == "prior" and (x.a[0] in subterms(t, set()) or any(y.k == "fresh" for y in subterms(t, set())))]
        if any(t.k == "cmp" and t.a[0] == "is" and st.conds[t] and x in t.a[1:] and C(None) in t.a[1:] for t in mine):
            return True
        if any(y.k == "fresh" and y.a[0] not in self.rowcounts for t in mine for y in subterms(t, set())):
            return True             # a count of something else: its relation to the batches is not followed
        return next(self.assignments(x, st), None) is None


def is_token(x):
    return x.k == "param" and str(x.a[-1]).startswith("kept:")


def is_self(o):
    return o.k == "param" and o.a[-1] == "self"


def is_read(t):
    return isinstance(t, T) and t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] in ("read", "read_all") and not t.a[1]


def mismatch(v, collected, base=None, empty=()):
    """Is v certainly not base + the rows of what was collected?"""
    atoms = {x for x in subterms(v, set()) if x.k == "attr" and x.a[1] == "num_rows"}
    if base is not None:
        atoms.add(base)
    want = [T("attr", x, "num_rows") for x in collected]
    atoms |= set(want)
    atoms = sorted(atoms, key=repr)
    free = {T("attr", x, "num_rows") for x in empty}
    for vals in itertools.product((1, 2, 5), repeat=min(len(atoms), 5)):
        env = dict(zip(atoms, vals))
        for f in free:
            env[f] = 0
        r = evaluate(v, env)
        if r is None:
            return False
        if r != (env[base] if base is not None else 0) + sum(env[w] for w in want):
            return True
    return False


# ------------------------------------------------------------------ what is live at the end
def occurrences(x, vals, st):
    """Where x occurs in vals: ("all",), ("slice", offset, length) or ("part", text)."""
    out = []
    holder = x.a[0] if x.k == "attr" and x.a[1] == "prior" else None
    sets = {(f[1], f[2]): f[3] for f in st.facts if isinstance(f, tuple) and f[0] == "set"}
    seen = set()

    def walk(t, part):
        if isinstance(t, frozenset):
            for y in t:
                walk(y, part)
            return
        if isinstance(t, (tuple, list)):
            for y in t:
                walk(y, part)
            return
        if not isinstance(t, T) or (t, part) in seen:
            return
        seen.add((t, part))
        if t is x or t is holder:
            out.append(part or ("all",))
            return
        if holder is not None and t.k == "attr" and t.a[0] is holder and t.a[1] in ("first", "last"):
            out.append(part if part and part[0] == "slice" else ("end", t.a[1]))
            return
        if t.k == "attr" and t.a[1] in ("num_rows", "schema", "num_columns", "nbytes"):
            return
        if t.k == "cmp":
            return
        if t.k == "call":
            n = callee_name(t)
            r = recv_of(t)
            if n in ("len", "sum", "isinstance"):
                return
            if n == "slice" and r is not None and t.a[1]:
                if r is x or holder is not None and r.k == "attr" and r.a[0] is holder and r.a[1] in ("first", "last"):
                    out.append(("slice", r, t.a[1][0], kw(t, "length", 1)))
                    return
                walk(r, part or ("unknown",))
                return
            if n in ("filter", "take", "head", "limit", "drop_null"):
                walk(r, ("unknown",))
                return
        if t.k == "item" or t.k == "index":
            b = t.a[0]
            if isinstance(b, T) and b.k == "new" and b.a[0] == "list" and isinstance(t.a[1], T) and t.a[1].k == "slice":
                lo, hi, step = (list(t.a[1].a) + [None, None, None])[:3]
                if step in (None, C(None), C(1)) and lo in (None, C(None), C(0)) and hi in (None, C(None)):
                    walk(b, part)
                elif all(y is None or y.k == "const" for y in (lo, hi, step)):
                    walk(b, part or ("part", "the batches in the wrong order" if step is C(-1) else "only some of the batches"))
                else:
                    walk(b, ("unknown",))
                return
            if isinstance(b, T) and is_call(b, "to_batches"):
                r = recv_of(b)
                if not any(is_call(y, "combine_chunks") for y in subterms(r, set())):
                    walk(r, part or ("part", "only one of the native batches it consists of"))
                    return
            elif isinstance(b, T) and b.k == "new" and b.a[0] == "list":
                walk(b, part or ("unknown",))
                return
        if t.k == "new":
            for (o, k), val in st.heap.items():
                if o is t:
                    if k in ("order", "exact", "over", "keys", "filtered"):
                        if k == "order":
                            walk(val, part)
                        continue
                    walk(val, part)
            for (o, w), val in sets.items():
                if o is t:
                    walk(val, part)
        for a in t.a:
            if isinstance(a, (T, tuple, frozenset)):
                walk(a, part)

    walk(vals, None)
    return out, {w: v for (o, w), v in sets.items() if holder is not None and o is holder}


def selfvals(st, params):
    """What the reader keeps for later calls."""
    return [v for (o, k), v in st.heap.items() if is_self(o) and isinstance(k, tuple) and k[0] == "a"]


class Exit:
    def __init__(self, cl, value, st, where):
        self.cl, self.value, self.st, self.where = cl, value, st, where

    def possible(self):
        return next(self.cl.assignments(T("ext", "nothing"), self.st), None) is not None

    def check(self):
        cl, st = self.cl, self.st
        if next(cl.assignments(T("ext", "nothing"), st), None) is None:
            return                      # the path cannot be taken
        kept = [v for v in selfvals(st, None)]
        for x in cl.outstanding(st):
            self.one(x, kept)
        flow = SimpleNamespace(appended={o: {("insert", None)} for o in cl.tracked})
        for t in all_terms([self.value] if self.value is not None else [], st):
            seg = order(t, st, flow) if t.k in ("new", "tup") else None
            old = [i for i, (k, y) in enumerate(seg or ()) if isinstance(y, T) and any(is_token(z) for z in subterms(y, set()))]
            new = [i for i, (k, y) in enumerate(seg or ()) if isinstance(y, T) and any(is_read(z) for z in subterms(y, set()))]
            if old and new and max(old) > min(new):
                cl.note("kept", "a batch kept from the call before is returned after batches read later")
        if self.value is not None and any(is_read(y) for t in all_terms([self.value], st) for y in subterms(t, set())):
            for t in all_terms(kept, st):
                for y in subterms(t, set()):
                    if is_token(y):
                        cl.note("kept", "a batch kept from the call before is still kept when batches read later are returned: its rows are missing there")
                        return

    def one(self, x, kept):
        cl, st = self.cl, self.st
        ret, over = occurrences(x, [self.value] if self.value is not None else [], st)
        held, _ = occurrences(x, kept, st)
        what = "a batch kept from the call before" if is_token(x) else "the batches collected" if x.k == "attr" and x.a[1] == "prior" else "what was read from the source"
        every = ret + held
        if any(o[0] == "unknown" for o in every):
            return
        if x.k == "attr" and x.a[1] == "prior":
            over = dict(over)
            for f in st.facts:
                if isinstance(f, tuple) and f[0] == "cut" and f[1] is x.a[0]:
                    over[f[2]] = "cut"
            for o in every:
                if o[0] == "slice":
                    over.setdefault(o[1].a[1], None)
            self.ends(x, ret, held, over, what)
            return
        if any(is_token(x) and f == ("absorbed", x) for f in st.facts):
            if any(o[0] == "all" for o in held):
                cl.note("kept", "a batch kept from the call before is collected for this batch and stays kept: its rows are returned twice")
            return
        if not every:
            if not cl.empty(x, st):
                cl.note("kept", f"{what} is lost: on one path it is neither returned nor kept")
            return
        part = [o for o in every if o[0] == "part"]
        if part:
            cl.note("kept", f"{part[0][1]} is returned of {what}, the rest is lost")
            return
        if all(o[0] == "all" for o in every):
            if len({o for o in ret}) and held:
                cl.note("kept", f"{what} is both returned and kept: its rows are returned twice")
            return
        self.cover(x, [o for o in ret], [o for o in held], T("attr", x, "num_rows"), what)

    def ends(self, x, ret, held, over, what):
        cl, st = self.cl, self.st
        lst = x.a[0]
        part = [o for o in ret + held if o[0] == "part"]
        if part and len({o for o in ret + held}) == 1:
            cl.note("kept", f"{part[0][1]} of {what} {'is' if 'only one' in part[0][1] else 'are'} returned")
            return
        whole = [o for o in ret if o[0] == "all"]
        only = [o for o in ret if o[0] == "end"]
        if not whole and not only and not any(o[0] == "slice" for o in ret):
            if any(o[0] == "all" for o in held):
                return
            if not cl.empty(x, st):
                cl.note("kept" if self.value is None or one(self.value) is not NONE else "ended", f"{what} are lost: on one path {'the end of the data is reported' if self.value is None or one(self.value) in (None, C(None)) else 'they are not part of what is returned'} although there may be some")
            return
        if only and not whole:
            ln = [t for t in st.conds if is_call(t, "len") or any(is_call(y, "len") for y in subterms(t, set()))]
            lens = {y for t in ln for y in subterms(t, set()) if is_call(y, "len") and y.a[1] and y.a[1][0] is lst}
            if not ln or lens and any(all(env.get(y) == 2 for y in lens) for env in cl.assignments(x, st)):
                cl.note("kept", f"only the {only[0][1]} of the batches collected is returned")
            return
        for w in over:
            e = T("attr", lst, w)
            r, _ = occurrences(e, [self.value, *[v for k, v in over.items() if isinstance(v, frozenset)]], st)
            h, _ = occurrences(e, selfvals(st, None), st)
            sl_r = [o for o in r if o[0] == "slice"]
            sl_h = [o for o in h if o[0] == "slice"]
            if any(o[0] in ("unknown", "part") for o in r + h):
                continue
            rr = sl_r if over[w] is not None else [("all",)]
            if over[w] == "cut":
                rr = [o if o[0] == "slice" else ("all",) for o in r]
            hh = [o if o[0] == "slice" else ("all",) for o in h]
            self.cover(e, rr, hh, T("attr", e, "num_rows"), f"the {w} batch collected", x)

    def cover(self, e, ret, held, rows, what, prior=None):
        """Do the slices of e cover each of its rows exactly once?"""
        cl, st = self.cl, self.st
        sl = [("ret", o) for o in dict.fromkeys(ret)] + [("held", o) for o in dict.fromkeys(held)]
        atoms = {rows}
        for _, o in sl:
            if o[0] == "slice":
                for y in o[2:]:
                    if y is not None:
                        atoms |= size_atoms(y)
        for env in cl.assignments(prior or e, st, atoms):
            n = env.get(rows)
            if not n:
                continue
            # the batches before the last one did not fill the batch
            bs = [v for a, v in env.items() if a.k == "attr" and "batch_size" in a.a[1]]
            tot = [v for a, v in env.items() if a.k == "fresh"]
            if prior is not None and bs and tot and not (tot[0] - n < bs[0] or tot[0] == n):
                continue
            count = [0] * n
            where = {}
            for side, o in sl:
                if o[0] == "all":
                    lo, hi = 0, n
                else:
                    lo = evaluate(o[2], env)
                    ln = evaluate(o[3], env) if o[3] is not None and o[3] is not C(None) else n
                    if lo is None or ln is None:
                        return
                    if lo < 0 or ln < 0:
                        lo, hi = 0, 0
                        count = None
                        break
                    hi = min(n, lo + ln)
                for i in range(lo, hi):
                    count[i] += 1
                    where.setdefault(i, side)
            if count is None:
                continue
            lost, twice = [i for i, c in enumerate(count) if c == 0], [i for i, c in enumerate(count) if c > 1]
            if lost or twice:
                cl.note("kept", f"{what} is cut so that row {(lost or twice)[0]} of {n} is {'lost' if lost else 'returned twice'}")
                return
            order_ = [where[i] for i in range(n)]
            if "held" in order_ and "ret" in order_ and order_.index("held") < len(order_) - 1 - order_[::-1].index("ret"):
                cl.note("kept", f"{what} is cut so that its later rows are returned before its earlier ones")
                return


def is_phi_with(t, x):
    return x in subterms(t, set())


# ------------------------------------------------------------------ reading
def reading(p, rep):
    """Every method that takes batches from a source."""
    found = 0
    for q, cls in sorted(p.classes.items()):
        if cls.module.name != TI or p.find_method(cls, "read_next_batch") is None:
            continue
        for name, fi in sorted(cls.methods.items()):
            if fi.is_property or name in ("__init__",) or not takes(fi) and not delegates(p, cls, fi):
                continue
            found += 1
            inst = f"{cls.name}.{name}"
            bad = method(p, cls, fi)
            rep.saw(fi.qual)
            for rule in ("kept", "counted", "ended", "failing"):
                emit(rep, rule, inst, fi.where, "; ".join(sorted(bad.get(rule, ()))))
    if not found:
        rep.broken("no method reads batches from a source")


def takes(fi):
    return any(isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr in READS or isinstance(n.func, ast.Name) and n.func.id == "next") for n in ast.walk(fi.node))


def delegates(p, cls, fi):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and (m := p.find_method(cls, n.func.attr)) is not None and m is not fi and m.cls is cls and takes(m) for n in ast.walk(fi.node))


def flags(cls):
    """Attributes set to true somewhere in the class."""
    return {t.attr for m in cls.methods.values() for n in ast.walk(m.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is True
            for t in n.targets if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self"}


def method(p, cls, fi):
    self_ = T("param", ("root", fi.qual), fi.params[0])

    def go(tracked, kept, heap, conds=()):
        cl = Rows(p, cls, tracked, kept)
        cl.assume = dict(conds)
        st = St()
        for k, v in heap.items():
            st.heap[(self_, ("a", k))] = V(v)
        r, x = Engine(p, cl).run(fi, st=st)
        return cl, r, x

    cl, r, x = go((), (), {})
    tracked = cl.appended
    cl, r, x = go(tracked, (), {})
    # what is kept for the next call: attributes holding batches when a reading method of the class returns
    held = set()
    for m in cls.methods.values():
        if takes(m):
            c1 = Rows(p, cls)
            Engine(p, c1).run(m)
            c2 = Rows(p, cls, c1.appended)
            for v, st in Engine(p, c2).run(m)[0]:
                for (o, k), val in st.heap.items():
                    if is_self(o) and k[0] == "a" and any(is_read(y) or y.k == "attr" and y.a[1] in ("last", "first", "prior") for y in all_terms([val], st)):
                        held.add(k[1])
    ending = [a for a in flags(cls) if ends(go(tracked, (), {a: TRUE}))]
    # settings under which something is kept at all: attributes fixed by the constructor
    fixed = {a for a in attrs_of(cls) if not assigned(cls, a)}
    under = {}
    for a in held:
        sets = [st for v, st in r for (o, k), w in st.heap.items() if is_self(o) and k == ("a", a) and one(w) is not C(None)]
        under[a] = [(t, b) for t, b in sets[0].conds.items() if all(s.conds.get(t) is b for s in sets) and (at := {x for x in subterms(t, set()) if x.k not in ("const", "cmp", "bin") and not is_self(x)}) and all(x.k == "attr" and is_self(x.a[0]) and x.a[1] in fixed for x in at)] if sets else []
    bad = {}
    tokens = {a: T("param", "kept", "kept:" + a) for a in held}
    for combo in itertools.product((True, False), repeat=len(held)):
        on = [a for a, b in zip(sorted(held), combo) if b]
        heap = {a: (tokens[a] if a in on else C(None)) for a in held}
        heap |= {a: FALSE for a in ending}
        cl, r, x = go(tracked, tuple(tokens[a] for a in on), heap, [kv for a in on for kv in under[a]])
        for v, st in r:
            e = Exit(cl, v, st, fi.where)
            e.check()
            if e.possible():
                late(cl, v, st, tokens, ending, held)
        for exc, st in x:
            if exc.k == "exc" and exc.a[0] and exc.a[0][0] == "StopIteration":
                e = Exit(cl, None, st, fi.where)
                e.check()
                if e.possible():
                    late(cl, None, st, tokens, ending, held)
        for k, vs in cl.bad.items():
            bad.setdefault(k, set()).update(vs)
    return bad


def attrs_of(cls):
    return {n.attr for m in cls.methods.values() for n in ast.walk(m.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self"}


def assigned(cls, a):
    return any(isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, (ast.Store, ast.Del)) for name, m in cls.methods.items() if name != "__init__" for n in ast.walk(m.node))


def ends(res):
    cl, r, x = res
    return not r and x and all(e.k == "exc" and e.a[0] and e.a[0][0] == "StopIteration" for e, _ in x) and not cl.reads


def late(cl, v, st, tokens, ending, held):
    failed = [f[1] for f in st.facts if isinstance(f, tuple) and f[0] == "failed"]
    if failed:
        cl.note("failing", f"an error while reading at {failed[0]} does not reach the caller: it is taken for the end of the data")
        return
    ended = any(isinstance(f, tuple) and f[0] == "ended" for f in st.facts)
    if any(y.k == "fresh" and y.a[0] not in cl.rowcounts for t in st.conds for y in subterms(t, set())):
        ended = True                # decided by a count that is not followed
    over = v is None or one(v) is C(None)
    for a in ending:
        val = [w for (o, k), w in st.heap.items() if is_self(o) and k == ("a", a)]
        if val and one(val[0]) is TRUE_T:
            if not ended and not over:
                cl.note("ended", f"the end of the data is recorded (self.{a}) although the source has not ended")
            rest = [h for h in held for (o, k), w in st.heap.items() if is_self(o) and k == ("a", h) and any(y is not C(None) for y in w)]
            if rest:
                cl.note("ended", f"the end of the data is recorded (self.{a}) while self.{rest[0]} still holds rows")
    if over and not ended and v is None:
        cl.note("ended", "the end of the data is reported although the source has not ended")


TRUE_T = C(True)


def run(p, rep, tier):
    for r, t in RULES.items():
        rep.rule(r, t, 0)
    if TI not in p.modules:
        rep.broken(f"module {TI} not found")
        return
    reading(p, rep)
    writing(p, rep)
    typed(p, rep)
    typemaps(p, rep)
    columns(p, rep)
    aligned(p, rep)
    text(p, rep)


# ------------------------------------------------------------------ writing
OPENERS = {"ParquetWriter": 0, "CSVWriter": 0, "to_json": 0, "to_csv": 0, "to_parquet": 0, "to_pickle": 0, "to_feather": 0, "write_csv": 1, "write_table": 1, "write_feather": 1, "copy": 1, "copy2": 1, "copyfile": 1, "savez": 0, "OSFile": 0, "new_file": 0, "FileOutputStream": 0}
WRITES = {"write", "write_batch", "write_table", "writelines", "dump", "write_row_group"}
MOVES = {"os.replace", "os.rename", "os.renames"}
SELF_CONTAINED = {"to_json", "to_csv", "to_parquet", "to_pickle", "to_feather", "write_csv", "copy", "copy2", "copyfile", "write_text", "write_bytes", "savez"}


def calls_in(fi):
    return [n for n in ast.walk(fi.node) if isinstance(n, ast.Call)]


def cname(n):
    return n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""


def writes_mode(n):
    m = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == "mode"), None)
    return isinstance(m, ast.Constant) and isinstance(m.value, str) and any(c in m.value for c in "wax+")


class Files(Flow):
    """Follows what is written where, and which steps may fail."""

    assume_nonempty_loops = False
    max_states = 1024

    def __init__(self, p, root):
        super().__init__()
        self.p, self.root = p, root
        self.bad = {}
        self.elems = {}

    def note(self, rule, text):
        self.bad.setdefault(rule, set()).add(text)

    def should_inline(self, it, fi, call):
        if fi.module is not self.root.module:
            return False
        r = fi
        while r is not None:
            if r is self.root:
                return True
            r = r.parent
        c = fi.cls
        if c is not None and getattr(c, "func", None) is None and fi.qual.startswith(self.root.qual + "."):
            return True
        if c is not None and self.root.cls is c and fi is not self.root:
            return any(self.effect(n) for n in calls_in(fi))
        return c is None and fi.parent is None and fi.name.startswith("_") and not fi.decorators

    @staticmethod
    def effect(n):
        return cname(n) in OPENERS or cname(n) in WRITES or cname(n) in ("replace", "rename", "remove", "unlink", "move") or cname(n) == "open" and writes_mode(n)

    def nth(self, st):
        return sum(1 for f in st.facts if isinstance(f, tuple) and f[0] in ("open", "closed", "moved"))

    def may_fail(self, it, call, what):
        it.add_raise(T("exc", ("OSError",), 0), call.st.with_fact(("failed", what, it.where(call.node))))

    def called(self, it, call):
        n, w = call.name, it.where(call.node)
        ext = call.ext or ""
        if ext in MOVES or n in ("replace", "rename") and len(call.args) == 2 and ext.startswith("os."):
            it.add_raise(T("exc", ("OSError",), 0), call.st.with_fact(("stuck", one(call.args[1]))))
        elif ext in ("builtins.open", "io.open") and len(call.args) > 0:
            self.may_fail(it, call, "open")
        elif call.target is None and (n in OPENERS or n in WRITES or n == "close" or ext == "shutil.move" or n in ("upload", "download")):
            self.may_fail(it, call, n)
        if n == "write_batch" or n in WRITES:
            return None
        return None

    def after_call(self, it, call, value, st):
        n, ext = call.name, call.ext or ""
        a0 = lambda i: one(call.args[i]) if len(call.args) > i else None
        k = self.nth(st)
        if ext in MOVES and len(call.args) > 1:
            st = st.without(lambda f: isinstance(f, tuple) and f[0] == "stuck" and f[1] is a0(1))
            return st.with_fact(("moved", k, a0(0), a0(1), it.where(call.node)))
        if ext in ("builtins.open", "io.open"):
            m = call.arg(1, "mode")
            m = one(m) if m is not None else None
            if m is not None and m.k == "const" and isinstance(m.a[-1], str) and any(c in m.a[-1] for c in "wax+"):
                return st.with_fact(("open", k, a0(0), one(value), it.where(call.node)))
            return st
        if ext == "shutil.move" and len(call.args) > 1:
            return st.with_fact(("open", k, a0(1), None, it.where(call.node)))
        if n in OPENERS and call.target is None:
            i = OPENERS[n]
            p = a0(i)
            if n in ("copy", "copy2", "copyfile") and not ext.startswith("shutil."):
                return st
            if p is not None and p.k != "new":
                return st.with_fact(("open", k, p, None if n in SELF_CONTAINED else one(value), it.where(call.node)))
            return st
        if n == "close" and call.recv is not None and not call.args:
            return st.with_fact(("closed", k, one(call.recv)))
        if n in ("write_batch",) and call.args:
            return st.with_fact(("wrote", one(call.args[0])))
        if n in ("upload", "download") and len(call.args) > 1:
            return st.with_fact((n, k, a0(0), a0(1)))
        if n in ("remove", "unlink") and call.args:
            return st.with_fact(("removed", a0(0)))
        return st

    def on_exit(self, it, v, st, node, frame):
        t = one(v)
        if t is not None and t.k == "call" and callee_name(t) == "open":
            return st.with_fact(("closed", self.nth(st), t))
        return st

    def on_cond(self, it, term, truth, st, node, frame):
        if term.k == "cmp" and term.a[0] == "==" and term.a[1].k == term.a[2].k == "const" and (term.a[1].a[-1] == term.a[2].a[-1]) != truth:
            return None
        return st

    def on_return(self, it, value, st, node, frame):
        if frame.func is not None and frame.func.qual.startswith(self.root.qual + "."):
            if any(t.k == "new" and t.a[0].startswith("obj:") and "Source" in t.a[0] for t in all_terms([value], st)):
                return st.with_fact(("own", frame.func.qual))
        return st

    # loops over the input
    def writing_loop(self, node):
        return isinstance(node, ast.For) and any(isinstance(n, ast.Call) and cname(n) == "write_batch" for b in node.body for n in ast.walk(b))

    def on_loop(self, it, kind, iterval, st, node, frame):
        st = super().on_loop(it, kind, iterval, st, node, frame)
        if kind == "for" and self.writing_loop(node):
            it.add_raise(T("exc", ("OSError",), 0), st.with_fact(("failed", "read", it.where(node))))
        return st

    def on_iter(self, it, st, node, frame):
        if self.writing_loop(node):
            return st.without(lambda f: isinstance(f, tuple) and f[0] == "wrote")
        return st

    def on_iter_end(self, it, st, node, frame, kind):
        if self.writing_loop(node) and isinstance(node.target, ast.Name):
            e = st.env.get((frame.fid, node.target.id))
            e = one(e) if e is not None else None
            wrote = [f[1] for f in st.facts if isinstance(f, tuple) and f[0] == "wrote" and f[1] is not None]
            if e is not None:
                if kind == "break":
                    self.note("complete", f"the loop over the input stops before its end ({it.where(node)})")
                hit = [t for t in wrote if e in subterms(t, set())]
                if not hit and not zero(e, st):
                    self.note("complete", f"a batch of the input is not written on one path ({it.where(node)})")
                for t in hit:
                    o, _ = occurrences(e, [t], st)
                    if o and all(x[0] in ("slice", "part") for x in o):
                        self.note("complete", f"only part of a batch is written ({it.where(node)})")
        return st


def zero(e, st):
    """Is e known to have no rows on this path?"""
    parts = set(split(e)) if not isinstance(e, T) else set(split_deep(V(e), st))
    rows = lambda x: x.k == "attr" and x.a[1] == "num_rows" and (x.a[0] is e or x.a[0] in parts) or is_call(x, "len") and x.a[1] and x.a[1][0] is e
    sizes = {x for t in st.conds for x in subterms(t, set()) if rows(x) or x.k == "phi" and all(rows(y) for y in split_deep(V(x), st))}
    if not sizes:
        return False
    for vals in itertools.product((1, 2, 3), repeat=len(sizes)):
        env = dict(zip(sorted(sizes, key=repr), vals))
        ok = True
        for t, b in st.conds.items():
            r = evaluate(t, env)
            if r is not None and bool(r) != b:
                ok = False
        if ok:
            return False
    return True


def sizes_agree(st):
    """Can one choice of lengths (one or more) satisfy every condition on the lengths of lists?"""
    by = {}
    for t, b in st.conds.items():
        atoms = [x for x in subterms(t, set()) if is_call(x, "len")]
        if len(set(atoms)) == 1:
            by.setdefault(plain(atoms[0]), []).append((t, b, atoms[0]))
    for cs in by.values():
        if not any(all((lambda r: r is None or bool(r) == b)(evaluate(t, {x: n})) for t, b, x in cs) for n in (1, 2, 3, 4)):
            return False
    return True


def writing(p, rep):
    roots = []
    for q, fi in sorted(p.functions.items()):
        if fi.module.name not in (TI, OS_) or fi.parent is not None or "<" in fi.name:
            continue
        if fi.cls is not None and getattr(fi.cls, "parent", None) is not None:
            continue
        if any(cname(n) in OPENERS or cname(n) == "open" and writes_mode(n) or cname(n) in ("move",) for n in calls_in(fi)) and fi.name.count(".") == 0:
            roots.append(fi)
    top = [f for f in roots if not any(f is not g and f.qual.startswith(g.qual + ".") for g in roots)]
    if not top:
        rep.broken("no function writes files")
    for fi in top:
        cl = Files(p, fi)
        r, x = Engine(p, cl).run(fi)
        rep.saw(fi.qual)
        temp = set()
        exits = [(v, st, False) for v, st in r] + [(None, st, True) for e, st in x]
        exits = [z for z in exits if sizes_agree(z[1])]
        for v, st, raised in exits:
            fs = [f for f in st.facts if isinstance(f, tuple)]
            moved = [f for f in fs if f[0] == "moved"]
            temp |= {plain(f[2]) for f in moved}
        for v, st, raised in exits:
            fs = [f for f in st.facts if isinstance(f, tuple)]
            moved = [f for f in fs if f[0] == "moved"]
            for f in fs:
                if f[0] != "open" or f[2] is None:
                    continue
                later = [m for m in moved if plain(m[2]) is plain(f[2]) and m[1] > f[1]]
                if not later and not raised and not any(g[0] == "removed" and plain(g[1]) is plain(f[2]) for g in fs):
                    cl.note("atomic", f"{show(f[2])[:50]} is written in place ({f[4]}): until the writing has finished, or when it fails, an incomplete file is at the destination")
                elif not later and raised and plain(f[2]) not in temp and f[3] is None and not temp:
                    cl.note("atomic", f"{show(f[2])[:50]} is written in place ({f[4]})")
                for m in later:
                    if f[3] is not None:
                        done = [g for g in fs if g[0] == "closed" and g[2] is f[3] and g[1] <= m[1]]
                        if not done:
                            cl.note("atomic", f"the file is renamed onto its destination at {m[4]} before it is closed")
                early = [m for m in moved if plain(m[2]) is plain(f[2]) and m[1] <= f[1]]
                if early and not later:
                    cl.note("atomic", f"the file is renamed onto its destination at {early[0][4]} before it is written")
            if not raised:
                bad = [f for f in fs if f[0] == "failed"]
                if bad:
                    cl.note("failing", f"an error in {bad[0][1]} at {bad[0][2]} does not reach the caller")
                if any(f[0] == "stuck" for f in fs):
                    cl.note("failing", "a file that could not be moved to its destination is not reported")
                returned(cl, v, st, fs)
        for rule in ("atomic", "failing", "complete", "returned"):
            emit(rep, rule, fi.qual[len(fi.module.name) + 1:], fi.where, "; ".join(sorted(cl.bad.get(rule, ()))))


def returned(cl, v, st, fs):
    ups = [f for f in fs if f[0] == "upload" and f[2] is not None]
    if not ups or v is None:
        return
    for t in all_terms([v], st):
        if t.k == "new" and t.a[0].startswith("obj:") and "Source" in t.a[0]:
            path = [w for k, w in st.slots(t).items() if k in (("a", "path"), ("arg", "path"), ("arg", 0))]
            path = one(path[0]) if path else None
            for u in ups:
                if path is not None and plain(u[2]) in {plain(y) for y in subterms(path, set())} and not any(f[0] == "download" and f[1] >= u[1] and plain(f[3]) is plain(u[2]) for f in fs):
                    cl.note("returned", "the table returned reads from a file that uploading has moved away")


# ------------------------------------------------------------------ declared types
class Marks(Flow):
    """Remembers how comparisons and tests of interest were decided."""

    assume_nonempty_loops = True
    max_states = 128

    def __init__(self, p, mod, mark):
        super().__init__()
        self.p, self.mod, self.mark = p, mod, mark
        self.calls = {}

    def should_inline(self, it, fi, call):
        return fi.module is self.mod and fi.name.startswith("_") and not fi.name.startswith("__") and not fi.decorators

    def on_cond(self, it, term, truth, st, node, frame):
        m = self.mark(term, truth)
        if m == "never":
            return None
        return st.with_fact(m) if m else st

    def called(self, it, call):
        self.calls.setdefault(call.name, []).append((call, call.st))
        return None

    def on_getitem(self, it, obj, idx, st, node, frame):
        o, i = one(obj), one(idx)
        if o is not None and i is not None and i.k == "slice":
            return [(V(T("item", o, i)), st)]
        return None


def leaf_eq(t):
    return t.k == "cmp" and t.a[0] == "=="


def schema_of_self(t, name="schema"):
    return t.k == "attr" and t.a[1] == name and is_self(t.a[0])


def uses_schema(t):
    """Does t depend on self.schema beyond its column names?"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if schema_of_self(x):
            return True
        if x.k == "attr" and x.a[1] == "names" and schema_of_self(x.a[0]):
            continue
        for y in x.a:
            todo += flat(y)
    return False


def flat(y):
    if isinstance(y, T):
        return [y]
    if isinstance(y, (tuple, list, frozenset)):
        return [z for x in y for z in flat(x)]
    return []


def typed(p, rep):
    base = p.classes.get(TI + ".TableSource")
    for q, cls in sorted(p.classes.items()):
        if cls.module.name != TI:
            continue
        fields = {n.target.id for n in cls.node.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)}
        if "schema" in fields and cls.name != "TableReader":
            if "open" in cls.methods:
                typed_open(p, rep, cls, cls.methods["open"])
            if "register" in cls.methods:
                typed_register(p, rep, cls, cls.methods["register"])
        if "cast" in cls.methods and "read_next_batch" in cls.methods:
            typed_cast(p, rep, cls)


def schema_mark(term, truth):
    if schema_of_self(term):
        return ("schema", truth)
    if term.k == "cmp" and term.a[0] == "is" and any(schema_of_self(x) for x in term.a[1:]) and any(x.k == "const" and x.a[-1] is None for x in term.a[1:]):
        return ("schema", not truth)
    if leaf_eq(term) and any(schema_of_self(x) for x in term.a[1:]):
        return ("same", truth)
    if is_call(term, "equals") and any(schema_of_self(x) for x in [recv_of(term)] + list(term.a[1]) if x is not None):
        return ("same", truth)
    return None


def typed_open(p, rep, cls, fi):
    cl = Marks(p, fi.module, schema_mark)
    r, x = Engine(p, cl).run(fi, self_cls=cls)
    rep.saw(fi.qual)
    bad = []
    for v, st in r:
        f = set(z for z in st.facts if isinstance(z, tuple))
        if ("schema", False) in f or ("same", True) in f:
            continue
        for t in split_deep(v, st):
            if t.k == "new" and not uses_schema_value(t, st):
                bad.append("a reader is returned that neither converts to the declared schema nor was compared with it")
    emit(rep, "typed", f"{cls.name}.open", fi.where, "; ".join(dict.fromkeys(bad)))


def split_deep(v, st):
    out = []
    for t in split(v):
        out += split_deep(V(*t.a), st) if t.k == "phi" else [t]
    return out


def uses_schema_value(t, st):
    sl = st.slots(t)
    vals = [sl[k] for k in sl if isinstance(k, tuple) and k[0] == "arg" and k[1] in (0, "source", "reader", "data")]
    if not vals:
        return True
    return all(uses_schema(x) or x.k == "new" and any(uses_schema(y) for y in all_terms([x], st)) for v in vals for x in split_deep(v, st))


def typed_register(p, rep, cls, fi):
    cl = Marks(p, fi.module, schema_mark)
    r, x = Engine(p, cl).run(fi, self_cls=cls)
    rep.saw(fi.qual)
    bad = []
    for name in ("create_view", "create", "register"):
        for call, st in cl.calls.get(name, ()):
            f = set(z for z in st.facts if isinstance(z, tuple))
            if ("schema", False) in f or ("same", True) in f:
                continue
            srcs = [call.recv] + list(call.args) if name == "register" else [call.recv]
            ts = all_terms([s for s in srcs if s is not None], st)
            if not any(typed_element(y) for y in ts) and not any(uses_schema(y) for y in ts if y.k == "call" and callee_name(y) == "cast"):
                bad.append(f"a view is created without converting its columns to the declared types ({cl_where(fi, call)})")
    emit(rep, "typed", f"{cls.name}.register", fi.where, "; ".join(dict.fromkeys(bad)))


def cl_where(fi, call):
    return f"{fi.where.rsplit(':', 1)[0]}:{call.node.lineno}"


def typed_element(y):
    """A type of a field of the declared schema."""
    return y.k == "attr" and y.a[1] in ("type", "types") and any(schema_of_self(z) for z in subterms(y, set()))


def typed_cast(p, rep, cls):
    fi = cls.methods["cast"]
    target = T("param", ("root", fi.qual), fi.params[1] if len(fi.params) > 1 else "")

    def mark(term, truth):
        if not leaf_eq(term):
            return None
        a, b = term.a[1], term.a[2]
        for what in ("name", "type"):
            if a.k == b.k == "attr" and a.a[1] == b.a[1] == what and any(target in subterms(z, set()) for z in (a, b)):
                return (what, truth)
        return None

    cl = Marks(p, fi.module, mark)
    r, x = Engine(p, cl).run(fi, self_cls=cls)
    rep.saw(fi.qual)
    me = T("param", ("root", fi.qual), fi.params[0])
    read = cls.methods["read_next_batch"]
    r2, _ = Engine(p, Marks(p, fi.module, lambda t, b: None)).run(read, self_cls=cls)
    rep.saw(read.qual)
    flagged, schema, bad = set(), set(), []
    for v, st in r2:
        for t in split_deep(v, st):
            cs = [c for c in subterms(t, set()) if is_call(c, "cast")]
            on = {c.a[1] for c, b in st.conds.items() if c.k == "attr" and is_self(c.a[0]) and b}
            off = {c.a[1] for c, b in st.conds.items() if c.k == "attr" and is_self(c.a[0]) and not b}
            if cs:
                flagged |= on
                schema |= {y.a[1] for c in cs for y in c.a[1] if y.k == "attr" and is_self(y.a[0])}
            else:
                flagged |= off
                if not off:
                    bad.append("read_next_batch returns batches that are not converted, whatever was declared")
    if not schema:
        bad.append("read_next_batch never converts")
    for v, st in r:
        f = {z for z in st.facts if isinstance(z, tuple)}
        if ("name", False) in f:
            bad.append("a declared column of another name is accepted")
        if ("type", False) in f:
            for a in schema:
                w = st.slots(me).get(("a", a))
                if w is None or not any(target in subterms(y, set()) for y in w):
                    bad.append(f"the declared schema is not kept in {a} although a type differs")
            for a in flagged - schema:
                w = st.slots(me).get(("a", a))
                if w is None or all(y.k == "const" and not y.a[-1] for y in w):
                    bad.append(f"{a} is not set although a type differs")
        if not any(z[0] == "type" for z in f) and not any(me is not None and st.slots(me).get(("a", a)) is not None for a in schema):
            bad.append("the types are not compared")
    emit(rep, "typed", f"{cls.name}.cast", fi.where, "; ".join(dict.fromkeys(bad)))


ARROW = {"bool_": "bool_", "BOOL": "bool_", "STRING": "string", "string": "string", "BINARY": "binary", "DATE": "date", "TIME": "time", "TIMESTAMP": "timestamp", "DECIMAL": "decimal", "JSON": "json_"}
ARROW.update({f"i{n}": f"int{n}" for n in (8, 16, 32, 64)} | {f"u{n}": f"uint{n}" for n in (8, 16, 32, 64)} | {f"f{n}": f"float{n}" for n in (16, 32, 64)})
SQL = {
    "bool_": {"BOOLEAN", "BOOL", "LOGICAL"}, "int8": {"TINYINT", "INT1"}, "int16": {"SMALLINT", "INT2", "SHORT", "INT16"}, "int32": {"INTEGER", "INT4", "INT", "SIGNED", "INT32"},
    "int64": {"BIGINT", "INT8", "LONG", "INT64"}, "uint8": {"UTINYINT", "UINT8"}, "uint16": {"USMALLINT", "UINT16"}, "uint32": {"UINTEGER", "UINT32"}, "uint64": {"UBIGINT", "UINT64"},
    "float32": {"FLOAT", "FLOAT4", "REAL"}, "float64": {"DOUBLE", "FLOAT8"}, "string": {"VARCHAR", "CHAR", "BPCHAR", "TEXT", "STRING"}, "binary": {"BLOB", "BYTEA", "BINARY", "VARBINARY"},
}


def typemaps(p, rep):
    """Tables of types pair each type with the one of the same meaning."""
    m = p.modules[TI]
    for n in m.tree.body:
        v = n.value if isinstance(n, (ast.Assign, ast.AnnAssign)) else None
        if not isinstance(v, ast.Dict) or len(v.keys) < 4:
            continue
        name = n.targets[0].id if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else n.target.id if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) else "?"
        bad, known = [], 0
        for k, w in zip(v.keys, v.values):
            kt, wt = tail(k), tail(w)
            if kt in ARROW and wt is not None and isinstance(w, ast.Call):
                known += 1
                if not wt.startswith(ARROW[kt]) or wt[len(ARROW[kt]):].isdigit() and ARROW[kt] in ("int", "uint", "float") or ARROW[kt][-1].isdigit() and wt != ARROW[kt]:
                    bad.append(f"{kt} is read as {wt}")
            elif kt in SQL and isinstance(w, ast.Constant) and isinstance(w.value, str):
                known += 1
                if w.value.upper() not in SQL[kt]:
                    bad.append(f"{kt} is read as {w.value}")
        if known:
            emit(rep, "typed", name, f"{m.path}:{n.lineno}" if hasattr(m, "path") else name, "; ".join(bad))


def tail(e):
    if isinstance(e, ast.Call):
        e = e.func
    return e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else None


# ------------------------------------------------------------------ tables and tensors
def named(t, name):
    """op.attrs[name] (or .get)."""
    return t.k == "item" and t.a[1].k == "const" and t.a[1].a[-1] == name or is_call(t, "get") and t.a[1] and t.a[1][0].k == "const" and t.a[1][0].a[-1] == name


def accepted(st, env_of, need):
    """Can the conditions on a path hold for the given sizes? (None: they do not talk about them.)"""
    atoms = {}
    for t, b in st.conds.items():
        for x in subterms(t, set()):
            k = env_of(x)
            if k is not None:
                atoms[x] = k
    if need - set(atoms.values()):
        return None
    return atoms


def columns(p, rep):
    fi = p.functions.get(TI + ".tensor2table_impl")
    if fi is not None:
        tensor_columns(p, rep, fi)
    fi = p.functions.get(TI + ".table2tensor_impl")
    if fi is not None:
        tensor_rows(p, rep, fi)


class Pairs(Marks):
    def __init__(self, p, mod):
        super().__init__(p, mod, lambda t, b: None)
        self.sets = []

    def on_setitem(self, it, obj, idx, val, st, node, frame):
        r = super().on_setitem(it, obj, idx, val, st, node, frame)
        self.sets.append((obj, idx, val, st))
        return r


def tensor_columns(p, rep, fi):
    cl = Pairs(p, fi.module)
    r, x = Engine(p, cl).run(fi)
    rep.saw(fi.qual)
    bad = []

    def size(t):
        if t.k == "item" and t.a[0].k == "attr" and t.a[0].a[1] == "shape" and t.a[1].k == "const" and t.a[1].a[-1] in (1, -1):
            return "columns"
        if is_call(t, "len") and t.a[1] and named(t.a[1][0], "column_names"):
            return "names"
        return None

    for v, st in r:
        strict = any(is_call(t, "zip") and (kw(t, "strict") is not None and one(V(kw(t, "strict"))).k == "const" and kw(t, "strict").a[-1]) for t in all_terms([v], st))
        if strict:
            continue
        atoms = accepted(st, size, {"columns", "names"})
        for a, b, what in ((3, 2, "fewer"), (2, 3, "more")):
            env = {t: a if k == "columns" else b for t, k in (atoms or {}).items()}
            if atoms is None or all((lambda z: z is None or bool(z) == tr)(evaluate(t, env)) for t, tr in st.conds.items()):
                bad.append(f"{what} names than columns are accepted")
    pairs = []
    for obj, idx, val, st in cl.sets:
        for i in split_deep(idx, st) if isinstance(idx, frozenset) else [idx]:
            for w in split_deep(val, st) if isinstance(val, frozenset) else [val]:
                pairs.append((i, w))
    for i, w in pairs:
        src = [y for y in subterms(i, set()) if is_call(y, "sorted") or is_call(y, "set") or is_call(y, "reversed")]
        if src and any(named(y, "column_names") for z in src for y in subterms(z, set())):
            bad.append("the names are taken in another order than the columns")
        if w.k == "item" and w.a[1].k == "tup" and len(w.a[1].a[0]) == 2:
            a, b = w.a[1].a[0]
            if not (a.k == "slice" and all(is_none(z) for z in a.a)):
                bad.append("only some rows of a column are taken" if a.k == "slice" else "a row is taken as a column")
            if b.k == "bin" or b.k == "const" or b.k == "slice":
                bad.append(f"name {show(i)[:30]} gets column {show(b)[:30]}")
            elif b.k == "index" and i.k == "elem" and not same_iteration(b, i):
                bad.append(f"name {show(i)[:30]} gets column {show(b)[:30]}")
    emit(rep, "columns", "tensor2table_impl", fi.where, "; ".join(dict.fromkeys(bad)))


def is_none(z):
    return z is None or isinstance(z, T) and z.k == "const" and z.a[-1] is None


def same_iteration(a, b):
    return plain(a.a[0]) is plain(b.a[0]) if isinstance(a.a[0], T) and isinstance(b.a[0], T) else True


def tensor_rows(p, rep, fi):
    cl = Marks(p, fi.module, lambda t, b: None)
    r, x = Engine(p, cl).run(fi)
    rep.saw(fi.qual)
    bad = []
    for v, st in r:
        atoms = {}
        for t, b in st.conds.items():
            for y in subterms(t, set()):
                if named(y, "number_rows"):
                    atoms[y] = 2
                elif y.k == "attr" and y.a[1] == "num_rows" or is_call(y, "len") and y.a[1] and "table" in show(y) or y.k == "item" and y.a[0].k == "attr" and y.a[0].a[1] == "shape" and y.a[1].k == "const" and y.a[1].a[-1] == 0:
                    atoms[y] = 3
        for rows in (3, 1):
            env = {y: (rows if n == 3 else n) for y, n in atoms.items()}
            if all((lambda z: z is None or bool(z) == tr)(evaluate(t, env)) for t, tr in st.conds.items()):
                bad.append("a table with " + ("more" if rows == 3 else "fewer") + " rows than declared is accepted")
    emit(rep, "columns", "table2tensor_impl", fi.where, "; ".join(dict.fromkeys(bad)))


# ------------------------------------------------------------------ several tables
def aligned(p, rep):
    for q, cls in sorted(p.classes.items()):
        if cls.module.name == TI and "read_next_batch" in cls.methods and "__init__" in cls.methods:
            combined(p, rep, cls)
    fi = p.functions.get(TI + ".write_impl")
    if fi is not None:
        gathered(p, rep, fi)
    fi = p.functions.get(TI + ".run_sql_impl")
    if fi is not None:
        registered(p, rep, fi)
    equal_sizes(p, rep)


def size_param(p):
    """Reader classes whose batches have a size of the caller's choice: class name -> (parameter, its position)."""
    out = {}
    for q, cls in sorted(p.classes.items()):
        init = cls.methods.get("__init__")
        if cls.module.name != TI or init is None or "read_next_batch" not in cls.methods:
            continue
        held = {t.attr: n.value.id for n in ast.walk(init.node) if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Name) and n.value.id in init.params
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) if isinstance(t, ast.Attribute)}
        for m in cls.methods.values():
            for n in ast.walk(m.node):
                if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                    sides = [n.left, n.comparators[0]]
                    for a, b in (sides, sides[::-1]):
                        if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and a.value.id == "self" and a.attr in held and not isinstance(b, ast.Constant):
                            out[cls.name] = (held[a.attr], init.params.index(held[a.attr]) - 1)
    return out


def equal_sizes(p, rep):
    """Readers that are combined deliver batches of one size: each is told the size, and passes it on."""
    readers = size_param(p)
    if not readers:
        return

    def argument(call, name, pos):
        if any(k is None or k == "**" for k in call.kwargs) or getattr(call, "star", None):
            return "unknown"
        return call.kwargs.get(name, call.args[pos] if len(call.args) > pos else None)

    for q, cls in sorted(p.classes.items()):
        fi = cls.methods.get("open")
        if cls.module.name != TI or fi is None or len(fi.params) < 2 or not any(isinstance(n, ast.Call) for n in ast.walk(fi.node)):
            continue
        cl = Marks(p, fi.module, lambda t, b: None)
        Engine(p, cl).run(fi, self_cls=cls)
        rep.saw(fi.qual)
        size = T("param", ("root", fi.qual), fi.params[1])
        bad, seen = [], 0
        for name, (prm, pos) in readers.items():
            for call, st in cl.calls.get(name, ()):
                seen += 1
                v = argument(call, prm, pos)
                if v == "unknown":
                    continue
                if v is None:
                    bad.append("the reader returned is not told the size of the batches wanted")
                elif not any(size in subterms(y, set()) for y in v) and not any(size in subterms(t, set()) for t in st.conds):
                    bad.append(f"the reader returned is told another size of batches ({', '.join(show(y)[:30] for y in v)})")
        if seen:
            emit(rep, "aligned", f"{cls.name}.open@size", fi.where, "; ".join(dict.fromkeys(bad)))
    for q, fi in sorted(p.functions.items()):
        if fi.module.name != TI or fi.cls is not None or not any(cname(n) == "MultiTableReader" for n in ast.walk(fi.node) if isinstance(n, ast.Call)) or fi.parent is None and any(f.parent is fi or f.qual.startswith(fi.qual + ".") and any(cname(n) == "MultiTableReader" for n in ast.walk(f.node) if isinstance(n, ast.Call)) for f in p.functions.values() if f is not fi):
            continue
        cl = Marks(p, fi.module, lambda t, b: None)
        cl.should_inline = lambda it, f, call, fi=fi: f.cls is None and f.module is fi.module and (f.parent is not None or f.name.startswith("_"))
        Engine(p, cl).run(fi)
        rep.saw(fi.qual)
        bad, sizes = [], {}
        for name in (*readers, "open"):
            for call, st in cl.calls.get(name, ()):
                if name == "open" and (call.recv is None):
                    continue
                prm, pos = readers.get(name, (next((f.params[1] for c in p.classes.values() if c.module.name == TI and (f := c.methods.get("open")) is not None and len(f.params) > 1), "batch_size"), 0))
                v = argument(call, prm, pos)
                if v == "unknown":
                    continue
                if v is None and name == "open":
                    continue                    # the default size
                sizes.setdefault("?" if v is None else frozenset(show(y) for y in v), []).append((name, st.conds))
        if "?" in sizes:
            bad.append(f"{sizes['?'][0][0]}() is not told the size of the batches: sources combined with it have batches of another size")
        told = [k for k in sizes if k != "?"]
        if any(not a & b and any(all(c1.get(t, x) == x or any(y.k == "elem" for y in subterms(t, set())) for t, x in c2.items()) for _, c1 in sizes[a] for _, c2 in sizes[b]) for a in told for b in told):
            bad.append("sources combined with each other are told different sizes of batches")
        emit(rep, "aligned", f"{fi.name}@size", fi.where, "; ".join(dict.fromkeys(bad)))


WRONG = {"reversed", "sorted", "set", "frozenset", "part", "some", "uniq"}


def shuffled(v, st, cl, what):
    out = []
    for t in split_deep(v, st):
        for kind, src in order(t, st, cl) or ():
            if kind in WRONG:
                out.append(f"{what} in another order or not all ({kind} {show(src)[:40]})")
    return out


def misplaced(cl, events=("insert", "reverse", "sort")):
    out = []
    for n in events:
        for call, st in cl.calls.get(n, ()):
            if call.recv is not None and one(call.recv) is not None and one(call.recv).k == "new":
                out.append(f"{n}() reorders a list")
    return out


def loops_wrong(cl, pred):
    """Loops over a reordered or shortened list."""
    out = []
    for kind, *ev in cl.events:
        if kind != "loop":
            continue
        v, st = ev
        for t in split_deep(v, st):
            if any(pred(y) for y in subterms(t, set())):
                for k, src in order(t, st, cl) or ():
                    if k in WRONG:
                        out.append(f"the loop runs over {k} {show(src)[:40]}")
    return out


def combined(p, rep, cls):
    init, read = cls.methods["__init__"], cls.methods["read_next_batch"]
    kept = {n.targets[0].attr for n in ast.walk(init.node) if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in init.allparams}
    loops = [n for n in ast.walk(read.node) if isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(y, ast.Attribute) and y.attr in kept for y in ast.walk(n.iter))]
    many = any(isinstance(n, ast.AnnAssign) or True for n in loops)
    if not loops:
        return
    bad = []
    me = lambda y: y.k == "attr" and is_self(y.a[0]) and y.a[1] in kept
    cl = Marks(p, read.module, lambda t, b: None)
    cl.should_inline = lambda it, fi, call: fi.cls is cls and fi is not read
    r, x = Engine(p, cl).run(read, self_cls=cls)
    rep.saw(read.qual)
    bad += loops_wrong(cl, me) + misplaced(cl)
    for v, st in r:
        for t in split_deep(v, st):
            if t.k == "call" and callee_name(t) in ("from_arrays", "from_pydict", "record_batch") and t.a[1]:
                bad += shuffled(V(t.a[1][0]), st, cl, "the columns are taken")
                names = kw(t, "names") if kw(t, "names") is not None else t.a[1][1] if len(t.a[1]) > 1 else None
                if names is not None:
                    bad += shuffled(V(names), st, cl, "the names are taken")
    prm = [T("param", ("root", init.qual), a) for a in init.params[1:]]
    cl = Marks(p, read.module, lambda t, b: None)
    r, x = Engine(p, cl).run(init, self_cls=cls)
    rep.saw(init.qual)
    bad += loops_wrong(cl, lambda y: y in prm) + misplaced(cl)
    obj = T("param", ("root", init.qual), init.params[0])
    for v, st in r:
        for a, w in st.slots(obj).items():
            if isinstance(a, tuple) and a[0] == "a":
                for t in split_deep(w, st):
                    if t.k == "call" and callee_name(t) == "schema" and t.a[1]:
                        bad += shuffled(V(t.a[1][0]), st, cl, "the names are taken")
                    elif t not in prm and a[1] in kept:
                        bad += shuffled(V(t), st, cl, "the readers are kept")
    emit(rep, "aligned", cls.name, cls.methods["read_next_batch"].where, "; ".join(dict.fromkeys(bad)))


def gathered(p, rep, fi):
    """All inputs of a write are read, in order."""
    cl = Marks(p, fi.module, lambda t, b: None)
    cl.should_inline = lambda it, f, call: f.parent is not None and f.qual.startswith(fi.qual + ".") and f.cls is None
    r, x = Engine(p, cl).run(fi)
    rep.saw(fi.qual)
    rest = [a for a in fi.allparams if a not in fi.params]
    inputs = lambda y: y.k in ("param", "star", "rest") and (y.a[-1] in rest)
    bad = loops_wrong(cl, inputs) + misplaced(cl)
    for call, st in cl.calls.get("MultiTableReader", ()):
        for v in call.args:
            bad += shuffled(v, st, cl, "the readers are taken")
    emit(rep, "aligned", "write_impl", fi.where, "; ".join(dict.fromkeys(bad)))


def registered(p, rep, fi):
    cl = Pairs(p, fi.module)
    r, x = Engine(p, cl).run(fi)
    rep.saw(fi.qual)
    rest = [a for a in fi.allparams if a not in fi.params]
    inputs = lambda y: y.k in ("param", "star", "rest") and y.a[-1] in rest
    bad = loops_wrong(cl, lambda y: inputs(y) or named(y, "table_names")) + misplaced(cl)
    zips = [t for kind, *ev in cl.events if kind == "loop" for t in split_deep(ev[0], ev[1]) if is_call(t, "zip")]
    for z in zips:
        if not any(named(y, "table_names") for y in subterms(z, set())):
            continue
        st = next(ev[1] for kind, *ev in cl.events if kind == "loop" and z in split_deep(ev[0], ev[1]))
        for part in z.a[1]:
            bad += shuffled(V(part), st, cl, "the tables or names are taken")
        k = kw(z, "strict")
        if k is None or k.k == "const" and not k.a[-1]:
            if not any(is_call(y, "len") and y.a[1] and named(y.a[1][0], "table_names") for t in st.conds for y in subterms(t, set())):
                bad.append("a differing number of names and tables is not refused")
    emit(rep, "aligned", "run_sql_impl", fi.where, "; ".join(dict.fromkeys(bad)))


# ------------------------------------------------------------------ text
def text(p, rep):
    for q, fi in sorted(p.functions.items()):
        if fi.module.name != TI or not any(cname(n) == "to_json" and n.args for n in own_calls(fi)):
            continue
        cl = Marks(p, fi.module, lambda t, b: None)
        Engine(p, cl).run(fi, self_cls=fi.cls)
        rep.saw(fi.qual)
        bad = []
        for call, st in cl.calls.get("to_json", ()):
            if call.target is not None or call.recv is None or not call.args and "path_or_buf" not in call.kwargs:
                continue
            d = call.kwargs.get("double_precision")
            d = one(d) if d is not None else None
            if d is None or d.k == "const" and isinstance(d.a[-1], int) and d.a[-1] < 15:
                bad.append("numbers are cut to ten digits" if d is None else f"numbers are cut to {d.a[-1]} digits")
            ts = all_terms([call.recv], st)
            for y in ts:
                if is_call(y, "to_pandas") and not y.a[2].__contains__("types_mapper"):
                    k = kw(y, "integer_object_nulls")
                    if kw(y, "types_mapper") is None and (k is None or k.k == "const" and not k.a[-1]):
                        bad.append("integers next to missing values become floating point numbers")
                if y.k == "item" and y.a[1].k in ("slice", "const") or is_call(y, "head") or is_call(y, "tail") or is_call(y, "drop_duplicates") or is_call(y, "dropna"):
                    bad.append(f"only part of the batches is written ({show(y)[:50]})")
        emit(rep, "text", fi.qual[len(fi.module.name) + 1:], fi.where, "; ".join(dict.fromkeys(bad)))
    keeps(p, rep)


def own_calls(fi):
    inner = {id(y) for c in ast.walk(fi.node) if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.Lambda)) and c is not fi.node for y in ast.walk(c)}
    return [n for n in ast.walk(fi.node) if isinstance(n, ast.Call) and id(n) not in inner]


def keeps(p, rep):
    """A writer of our own keeps or writes every batch it is given."""
    for q, fi in sorted(p.functions.items()):
        if fi.module.name != TI or fi.name != "write_batch" or len(fi.params) < 2 or abstract(fi) or not own_calls(fi) and not any(isinstance(n, (ast.Assign, ast.AugAssign)) for n in ast.walk(fi.node)):
            continue
        cl = Marks(p, fi.module, lambda t, b: None)
        b = T("param", ("root", fi.qual), fi.params[1])
        seen = []

        def after(it, call, value, st, b=b):
            if any(b in subterms(x, set()) for v in list(call.args) + list(call.kwargs.values()) for x in v) and call.name != "len":
                return st.with_fact(("given",))
            return st

        cl.after_call = after
        cl.on_setattr = lambda it, obj, attr, val, st, node, frame: st.with_fact(("given",)) if any(b in subterms(x, set()) for x in val) else st
        r, x = Engine(p, cl).run(fi, self_cls=fi.cls)
        rep.saw(fi.qual)
        bad = "a batch is not written on one path" if any(("given",) not in st.facts and not zero(b, st) for v, st in r) else ""
        emit(rep, "complete", fi.qual[len(fi.module.name) + 1:], fi.where, bad)
