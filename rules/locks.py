"""Which expressions are locks, and a client that tracks which are held."""
from __future__ import annotations

import ast

from sa.engine import Client, T, split
from rules.common import all_nodes, dotted_of

LOCKS = {"threading.Lock", "threading.RLock", "threading.Condition", "threading.Semaphore", "threading.BoundedSemaphore", "asyncio.Lock", "asyncio.Condition", "multiprocessing.Lock", "multiprocessing.RLock"}


def lock_names(p):
    """Names of attributes and variables that are given a lock anywhere in the package."""
    r = getattr(p, "_lock_names", None)
    if r is not None:
        return r
    names = {}
    for n, m, f in all_nodes(p, (ast.Assign, ast.AnnAssign)):
        v = n.value
        if v is None:
            continue
        kinds = set()
        for c in ast.walk(v):
            if isinstance(c, ast.Call):
                d = dotted_of(p, c.func, m, f)
                if d in LOCKS:
                    kinds.add(d)
                if d in ("dataclasses.field",):
                    for k in c.keywords:
                        if k.arg == "default_factory":
                            d2 = dotted_of(p, k.value, m, f)
                            if d2 in LOCKS:
                                kinds.add(d2)
        if not kinds:
            continue
        for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
            nm = t.attr if isinstance(t, ast.Attribute) else t.id if isinstance(t, ast.Name) else None
            if nm:
                names.setdefault(nm, set()).update(kinds)
    p._lock_names = names
    return names


class LockClient(Client):
    def __init__(self, p):
        self._ln = lock_names(p)

    def is_lock(self, t):
        if t.k == "attr":
            return t.a[1] in self._ln
        if t.k == "modvar":
            return t.a[1] in self._ln
        if t.k == "param":
            return t.a[1] in self._ln and t.a[1] not in ("self", "cls")
        if t.k == "call" and t.a[0].k == "ext":
            return t.a[0].a[0] in LOCKS
        return False

    def held(self, st):
        return {f[1] for f in st.facts if f[0] == "held"}

    def on_lock(self, it, lock, st, node, frame):
        return st

    def on_unlock(self, it, lock, st, node, frame):
        return st

    def _take(self, it, t, st, node, frame):
        d = sum(1 for f in st.facts if f[0] == "held" and f[1] is t)
        return self.on_lock(it, t, st.with_fact(("held", t, d)), node, frame)

    def _drop(self, it, t, st, node, frame):
        d = sum(1 for f in st.facts if f[0] == "held" and f[1] is t)
        if d:
            st = st.without(lambda f: f[0] == "held" and f[1] is t and f[2] == d - 1)
        if d <= 1:
            st = self.on_unlock(it, t, st, node, frame)
        return st

    def on_enter(self, it, v, st, node, frame):
        for t in split(v):
            if self.is_lock(t):
                st = self._take(it, t, st, node, frame)
        return st

    def on_exit(self, it, v, st, node, frame):
        for t in split(v):
            if self.is_lock(t):
                st = self._drop(it, t, st, node, frame)
        return st

    def lock_call(self, it, call):
        """To be used by on_call: results for acquire/release, or None."""
        if call.recv is None or call.name not in ("acquire", "release"):
            return None
        ts = [t for t in split(call.recv) if self.is_lock(t)]
        if not ts:
            return None
        from sa.engine import C, V
        st = call.st
        for t in ts:
            st = (self._take if call.name == "acquire" else self._drop)(it, t, st, call.node, it.frame)
        return [(V(C(True)), st)]
