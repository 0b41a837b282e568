"""C03: stored objects stay inside their store's root."""
from __future__ import annotations

import ast

from sa.engine import C, NONE, Client, Engine, T, V, one, show, split, subterms
from sa.project import AnalysisBroken
from rules.common import all_nodes, strip_sites, where
from rules.serde_model import callee_ext, callee_name, recv_of

ASSUMPTIONS = [
    "the store's root directory contains no symbolic links planted by another user",
    "os.path functions behave as documented on POSIX",
]

STORE = "mplang.runtime.object_store"
NORMALISE = {"os.path.abspath", "os.path.realpath", "os.path.normpath"}
# file-system calls and which positional arguments are paths
SINKS = {
    "builtins.open": (0,), "io.open": (0,), "os.open": (0,), "os.remove": (0,), "os.unlink": (0,), "os.rmdir": (0,), "os.makedirs": (0,), "os.mkdir": (0,),
    "os.rename": (0, 1), "os.replace": (0, 1), "os.symlink": (0, 1), "os.link": (0, 1), "os.stat": (0,), "os.listdir": (0,), "os.walk": (0,), "os.scandir": (0,),
    "os.path.exists": (0,), "os.path.lexists": (0,), "os.path.isfile": (0,), "os.path.isdir": (0,), "os.path.getsize": (0,), "os.path.samefile": (0, 1),
    "shutil.move": (0, 1), "shutil.copy": (0, 1), "shutil.copyfile": (0, 1), "shutil.copy2": (0, 1), "shutil.copytree": (0, 1), "shutil.rmtree": (0,), "os.removedirs": (0,), "os.truncate": (0,), "os.utime": (0,), "os.chmod": (0,),
}
PATH_METHODS = {"open", "read_bytes", "read_text", "write_bytes", "write_text", "unlink", "mkdir", "rmdir", "exists", "is_file", "is_dir", "touch", "rename", "replace", "symlink_to", "stat", "iterdir", "glob", "rglob"}
WRITERS = {"tofile", "save", "savez", "to_bytes"}
INJECTIVE = {"os.path.join", "os.path.abspath", "os.path.realpath", "os.path.normpath", "os.path.dirname", "pathlib.Path", "pathlib.PurePath", "builtins.str", "os.fspath", "builtins.open", "urllib.parse.quote"}
INJECTIVE_M = {"lstrip", "removeprefix", "joinpath", "resolve", "absolute", "as_posix"}


def ext(t):
    return (callee_ext(t) or "") if t.k == "call" else ""


def is_normal(t):
    """A path in which '.' and '..' segments have been resolved."""
    if t.k == "call":
        if ext(t) in NORMALISE:
            return True
        if callee_name(t) in ("resolve",):
            return True
        if ext(t) in ("builtins.str", "os.fspath", "pathlib.Path", "pathlib.PurePath") and t.a[1]:
            return is_normal(t.a[1][0])
    return False


def same(a, b):
    return strip_sites(a) is strip_sites(b)


def unwrap_path(t):
    while t.k == "call" and ext(t) in ("builtins.str", "os.fspath", "pathlib.Path", "pathlib.PurePath") and t.a[1]:
        t = t.a[1][0]
    return t


def contained_terms(st, rootlike):
    """Terms proven to lie under a root on this path: [(path term, root term)]."""
    out = []
    for t, tr in st.conds.items():
        if t.k == "cmp" and t.a[0] == "==" and tr is True:
            for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if ext(a) == "os.path.commonpath":
                    elems = set()
                    for x in a.a[1]:
                        elems |= {y for y in st.contents(x)} if x.k == "new" else set()
                        for s, v in st.slots(x).items():
                            elems |= set(v)
                        if x.k == "tuple":
                            for v in x.a[0] if isinstance(x.a[0], tuple) else x.a:
                                elems |= set(split(v)) if not isinstance(v, T) else {v}
                    b_in = [e for e in elems if same(e, b)]
                    for e in elems:
                        if not same(e, b) and b_in and is_normal(e) and rootlike(b):
                            out.append((e, b))
        if t.k == "call" and tr is True and t.a[0].k == "attr":
            nm = t.a[0].a[1]
            recv = t.a[0].a[0]
            if nm == "startswith" and t.a[1]:
                pre = t.a[1][0]
                if pre.k == "bin" and pre.a[0] == "Add" and _is_sep(pre.a[2]) and rootlike(pre.a[1]) and is_normal(recv):
                    out.append((recv, pre.a[1]))
                if ext(pre) == "os.path.join" and len(pre.a[1]) == 2 and pre.a[1][1] is C("") and rootlike(pre.a[1][0]) and is_normal(recv):
                    out.append((recv, pre.a[1][0]))
                if pre.k == "fstr":
                    parts = pre.a[0] if isinstance(pre.a[0], tuple) else pre.a
                    parts = [x for x in parts]
                    if len(parts) == 2 and _is_sep(one(parts[1]) if not isinstance(parts[1], T) else parts[1]) and rootlike(parts[0] if isinstance(parts[0], T) else one(parts[0])) and is_normal(recv):
                        out.append((recv, parts[0] if isinstance(parts[0], T) else one(parts[0])))
            if nm == "is_relative_to" and t.a[1] and rootlike(unwrap_path(t.a[1][0])) and is_normal(recv):
                out.append((recv, t.a[1][0]))
        # path == root
        if t.k == "cmp" and t.a[0] == "==" and tr is True:
            for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if is_normal(a) and rootlike(b) and not rootlike(a) and ext(b) != "os.path.commonpath" and ext(a) != "os.path.commonpath":
                    out.append((a, b))
        # not relpath(path, root).startswith("..")
        if t.k == "call" and tr is False and t.a[0].k == "attr" and t.a[0].a[1] == "startswith" and ext(t.a[0].a[0]) == "os.path.relpath":
            rp = t.a[0].a[0]
            if t.a[1] and t.a[1][0] in (C(".."),) and len(rp.a[1]) == 2 and rootlike(rp.a[1][1]):
                out.append((rp.a[1][0], rp.a[1][1]))
        # root in path.parents
        if t.k == "cmp" and t.a[0] == "in" and tr is True and t.a[2].k == "attr" and t.a[2].a[1] == "parents" and rootlike(unwrap_path(t.a[1])) and is_normal(t.a[2].a[0]):
            out.append((t.a[2].a[0], t.a[1]))
    for f in st.facts:
        if f[0] == "relative_to":
            out.append((f[1], f[2]))
    return out


def _is_sep(t):
    if t is C("/"):
        return True
    return (t.k == "ext" and t.a[0] in ("os.sep", "os.path.sep")) or (t.k == "attr" and t.a[1] == "sep")


def derives(st, t, srcs):
    return any(y in srcs for y in st.deps(V(t)))


def covered(st, t, proven):
    """t is a proven term, its string/Path form, or its parent directory."""
    u = unwrap_path(t)
    for e, _r in proven:
        if same(u, unwrap_path(e)):
            return True
        if ext(u) == "os.path.dirname" and same(unwrap_path(u.a[1][0]), unwrap_path(e)):
            return True
        if u.k == "attr" and u.a[1] == "parent" and same(unwrap_path(u.a[0]), unwrap_path(e)):
            return True
        # a temporary sibling: proven + suffix without separators, or inside dirname(proven)
        if u.k == "bin" and u.a[0] == "Add" and same(unwrap_path(u.a[1]), unwrap_path(e)) and not ("/" in show(u.a[2])):
            return True
        if u.k == "fstr":
            parts = [x if isinstance(x, T) else one(x) for x in (u.a[0] if isinstance(u.a[0], tuple) else u.a)]
            if parts and same(unwrap_path(parts[0]), unwrap_path(e)) and not any(p.k == "const" and "/" in str(p.a[1]) for p in parts[1:]):
                return True
        # name generated under the directory of a proven path
        if u.k == "call" and callee_ext(u) in ("tempfile.mkstemp", "tempfile.mktemp"):
            return True
    return False


def fs_backends(p):
    base = p.need_class("StoreBackend", STORE)
    out = []
    for c in p.subclasses(base):
        uses = False
        for m in c.methods.values():
            for n in ast.walk(m.node):
                if isinstance(n, (ast.Name, ast.Attribute)):
                    r = p.resolve_expr(n, c.module, m)
                    if r and r[0] == "ext" and r[1] in SINKS:
                        uses = True
        out.append((c, uses))
    return base, out


def run(p, rep, tier):
    rep.rule("contain", "every file-system call whose path depends on an object key uses a path proven (on that program path) to lie under the store's root after normalisation", 8)
    rep.rule("same-path", "all object operations of a backend map a key to its file by one and the same injective expression", 3)
    rep.rule("bytes", "put writes the given value to a truncated file and get returns what that file holds; memory entries are stored, found and removed under the exact key and a missing key raises", 4)
    rep.rule("list", "listed keys are the paths of files found under the root, relative to the root", 1)
    rep.rule("dispatch", "the store selects the backend by the exact scheme and hands it the exact remainder of the URI, calling the same operation", 4)
    rep.rule("staging", "table files are staged only under the interpreter's own directory, or used in place when the path is absolute or there is no store", 2)
    rep.rule("own-root", "each worker's file-backed store is rooted in a directory that depends on the worker's rank", 1)
    base, backends = fs_backends(p)
    if not backends:
        raise AnalysisBroken("no store backends found")
    for c, uses in backends:
        if uses:
            fs_backend(p, rep, c)
        else:
            mem_backend(p, rep, c)
    dispatch_rule(p, rep, base)
    staging_rule(p, rep)
    own_root_rule(p, rep)


OBJ_OPS = ("put", "get", "delete", "exists")
COPY_OPS = ("download", "upload")


def key_param(fi):
    ps = [x for x in fi.params[1:]]
    if "key" in ps:
        return "key"
    if fi.name in ("upload",) and len(ps) > 1:
        return ps[1]
    return ps[0] if ps else None


def fs_backend(p, rep, c):
    exprs = {}
    for name in (*OBJ_OPS, *COPY_OPS, "list_keys", *[n for n in c.methods if n not in (*OBJ_OPS, *COPY_OPS, "list_keys") and not n.startswith("__")]):
        fi = p.find_method(c, name)
        if fi is None or fi.is_property or (name not in (*OBJ_OPS, *COPY_OPS, "list_keys") and (name.startswith("_") or fi.is_static)):
            continue
        if fi.cls is not c and name not in c.methods:
            continue
        rep.saw(fi.qual)
        kp = key_param(fi)
        ktok = T("param", ("root", fi.qual), kp) if kp else None
        selft = T("param", ("root", fi.qual), fi.params[0])

        class K(Client):
            max_states = 64
            path_sensitive = True

            def should_inline(self, it, g, call):
                return g.module is c.module

            def after_call(self, it, call, value, st):
                if call.name == "relative_to" and call.recv is not None and call.args:
                    r, a = one(call.recv), one(call.args[0])
                    if is_normal(r) and rootlike(unwrap_path(a)):
                        return st.with_fact(("relative_to", r, a))
                return st

            def on_call(self, it, call):
                paths = []
                e = call.ext or ""
                if e in SINKS:
                    paths = [call.args[i] for i in SINKS[e] if i < len(call.args)]
                    paths += [v for k, v in call.kwargs.items() if k in ("src", "dst", "path", "file", "top")]
                elif call.callee.k == "attr" and call.name in PATH_METHODS and call.recv is not None and any(is_pathobj(x) for x in split(call.recv)):
                    paths = [call.recv]
                    if call.name in ("rename", "replace", "symlink_to"):
                        paths += call.args[:1]
                if e.startswith(("os.", "shutil.")) and e not in SINKS and not e.startswith("os.path") and e not in ("os.fspath", "os.getcwd", "os.getpid", "os.environ.get", "os.getenv", "os.fsync", "os.close", "os.fdopen", "os.write"):
                    paths = list(call.args)
                st = call.st
                for v in paths:
                    for t in split(v):
                        if ktok is None or not derives(st, t, {ktok}):
                            continue
                        # a file handle opened earlier on a checked path is not a path
                        if t.k == "call" and ext(t) in ("builtins.open", "io.open"):
                            continue
                        proven = [(x, r) for x, r in contained_terms(st, rootlike)]
                        ok = covered(st, t, proven)
                        why = "its path comes from the key without a containment check on the normalised path"
                        if not ok and name in COPY_OPS:
                            if st.conds.get(_isabs(ktok, st)) is True:
                                ok = True
                            elif name == "download" and any(derives(st, x, {ktok}) for x, _ in proven) and e in ("os.path.exists", "os.symlink", "os.path.samefile", "os.path.getsize", "builtins.open", "os.path.lexists", "os.path.isdir", "os.path.isfile", "shutil.copy", "shutil.copyfile", "shutil.copy2", "os.path.islink"):
                                ok = True  # documented fallback: a readable file in the working directory
                        rep.check(ok, "contain", f"{c.name}.{name}: {e or call.name} in {it.frame.func.name if it.frame and it.frame.func else name}", it.where(call.node), f"{e or call.name}({show(t)[:80]}): {why}")
                        if name in OBJ_OPS and e not in ("os.makedirs",) and ext(t) not in ("os.path.dirname",):
                            exprs.setdefault(name, set()).add((canon(t, ktok, selft), it.where(call.node)))
                return None

        def rootlike(t):
            t = unwrap_path(t)
            return _dep_root(t, selft, ktok)

        rets, _ = Engine(p, K()).run(fi, self_cls=c)
        if name in ("get",):
            check_get(p, rep, c, fi, rets, ktok)
        if name == "put":
            check_put(p, rep, c, fi, ktok)
        if name == "list_keys":
            check_list(p, rep, c, fi, rets, selft)
        if name == "exists":
            for v, st in rets:
                for t in split(v):
                    good = ext(t) in ("os.path.exists", "os.path.isfile", "os.path.lexists") or callee_name(t) in ("exists", "is_file") or t.k == "const"
                    rep.check(good, "bytes", f"{c.name}.exists", fi.where, f"returns {show(t)[:60]}")
    # one expression for all operations
    if exprs:
        main = {}
        for op, s in exprs.items():
            for x, w in s:
                main.setdefault(x, []).append((op, w))
        ref = max(main, key=lambda x: len({o for o, _ in main[x]}))
        for x, uses in main.items():
            for op, w in uses:
                rep.check(x is ref or _tmpform(x, ref), "same-path", f"{c.name}.{op}", w, f"this operation uses {show(x)[:80]} for a key while others use {show(ref)[:80]}")
        bad = non_injective(ref)
        rep.check(not bad, "same-path", f"{c.name}: key to file is injective", main[ref][0][1], f"{bad} maps different keys to one file")


def _tmpform(x, ref):
    return any(y is ref for y in subterms(x)) and x is not ref and (x.k in ("bin", "fstr") or x.k == "call")


def is_pathobj(t):
    return (t.k == "call" and (ext(t).startswith("pathlib.") or callee_name(t) in ("resolve", "joinpath", "absolute", "with_suffix"))) or (t.k == "bin" and t.a[0] == "Div") or (t.k == "attr" and t.a[1] in ("parent", "root_dir"))


def _isabs(ktok, st):
    for t in st.conds:
        if t.k == "call" and ext(t) == "os.path.isabs" and t.a[1] and t.a[1][0] is ktok:
            return t
        if t.k == "call" and callee_name(t) == "is_absolute" and ktok in subterms(t):
            return t
    return None


def _dep_root(t, selft, ktok):
    subs = subterms(t)
    if ktok is not None and ktok in subs:
        return False
    return any(y.k == "attr" and y.a[0] is selft for y in subs)


def canon(t, ktok, selft):
    """The path expression with parameters renamed, sites removed."""
    def go(x):
        if isinstance(x, T):
            if x is ktok:
                return T("KEY")
            if x is selft:
                return T("SELF")
            if x.k == "call":
                return T("call", go(x.a[0]), tuple(go(y) for y in x.a[1]), tuple((k, go(v)) for k, v in x.a[2]), 0)
            if x.k in ("const", "param", "new", "closure"):
                return x
            return T(x.k, *[go(y) for y in x.a])
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(go(y) for y in x)
        return x
    return unwrap_path(go(t))


def non_injective(t):
    """Name of an operation on the key that merges different keys, or None."""
    def has_key(x):
        return any(isinstance(y, T) and y.k == "KEY" for y in subterms(x))
    for y in subterms(t):
        if y.k == "call" and has_key(y):
            e = callee_ext(y)
            if e:
                if e not in INJECTIVE:
                    if e.startswith(("hashlib.sha", "urllib.parse.quote", "base64.")):
                        continue
                    return e
            elif y.a[0].k == "attr" and has_key(y.a[0].a[0]):
                if y.a[0].a[1] not in INJECTIVE_M and y.a[0].a[1] not in ("encode", "hexdigest", "update"):
                    return "." + y.a[0].a[1] + "()"
                if y.a[0].a[1] == "lstrip" and y.a[1] and y.a[1][0] is not C("/"):
                    return f".lstrip({show(y.a[1][0])})"
        if y.k == "item" and has_key(y.a[0]):
            return show(y)
    return None


def check_put(p, rep, c, fi, ktok):
    vals = [T("param", ("root", fi.qual), x) for x in fi.params[1:] if x != ktok.a[1]]
    modes = []
    dumps = []

    class K(Client):
        max_states = 64

        def after_call(self, it, call, value, st):
            if (call.name in ("dump", "write", "write_bytes", "writelines") or call.name in WRITERS) and any(derives(st, x, set(vals)) for a in [*call.args, *call.kwargs.values()] for x in split(a)):
                return st.with_fact(("written",))
            return st

        def should_inline(self, it, g, call):
            return g.module is c.module

        def on_call(self, it, call):
            if call.ext in ("builtins.open", "io.open") and derives(call.st, one(call.args[0]), {ktok}):
                m = call.arg(1, "mode")
                modes.append((show(one(m)) if m else "'r'", it.where(call.node)))
            if call.name in ("dump", "write", "write_bytes", "dumps") and (call.ext or "").split(".")[0] in ("pickle", "json", "") or call.name in ("write", "write_bytes"):
                dumps.append((call.args, call.st, it.where(call.node)))
            return None

    rets, _ = Engine(p, K()).run(fi, self_cls=c)
    if any(("written",) in st.facts for _, st in rets):
        for v, st in rets:
            rep.check(("written",) in st.facts, "bytes", f"{c.name}.put always writes", fi.where, "returns on a path on which the value was not written: the store keeps an older object under the key")
    for m, w in modes:
        rep.check(m in ("'wb'", "'w'", "'xb'", "'bw'", "'w+b'", "'wb+'"), "bytes", f"{c.name}.put opens for replacement", w, f"mode {m}: an earlier object under the key is kept or mixed in")
    if dumps and vals:
        ok = any(derives(st, one(a), set(vals)) for args, st, w in dumps for a in args)
        rep.check(ok, "bytes", f"{c.name}.put writes the value", dumps[0][2], "the written object is not the value that was passed in")


def check_get(p, rep, c, fi, rets, ktok):
    for v, st in rets:
        for t in split(v):
            rep.check(ktok in st.deps(V(t)), "bytes", f"{c.name}.get returns the stored object", fi.where, f"returns {show(t)[:60]}: a missing or unreadable key is not reported")


def check_list(p, rep, c, fi, rets, selft):
    for v, st in rets:
        for o in split(v):
            elems = set()
            if o.k == "new":
                for s, x in st.slots(o).items():
                    elems |= set(split(x))
            elif o.k == "call" and o.a[1]:
                elems = set(split(V(*o.a[1])))
            for e in elems:
                subs = st.deps(V(e))
                walk = [y for y in subs if y.k == "call" and (ext(y) in ("os.walk", "os.scandir", "os.listdir") or callee_name(y) in ("rglob", "glob", "walk", "iterdir"))]
                if not walk:
                    continue
                follow = [y for y in walk for k, x in y.a[2] if k in ("followlinks", "follow_symlinks") and x is not C(False)]
                rooted = all(any(z.k == "attr" and z.a[0] is selft for z in subterms(y)) for y in walk)
                rel = any(y.k == "call" and (ext(y) == "os.path.relpath" or callee_name(y) in ("relative_to", "removeprefix")) for y in subs)
                dirp = True
                for y in subs:
                    if y.k == "call" and ext(y) == "os.path.relpath" and len(y.a[1]) > 1 and any(z.k == "elem" for z in subterms(y.a[1][1])):
                        rel = False
                for y in walk:
                    if ext(y) == "os.walk":
                        dirp = any(z.k == "item" and z.a[0].k == "elem" and z.a[0].a[0] is y and z.a[1] is C(0) for z in subs)
                rep.check(rooted and rel and dirp and not follow, "list", f"{c.name}.list_keys", fi.where, f"listed key {show(e)[:80]} is not the file's path relative to the root")


# ------------------------------------------------------------------ memory
def mem_backend(p, rep, c):
    for name in OBJ_OPS:
        fi = c.methods.get(name)
        if fi is None:
            continue
        rep.saw(fi.qual)
        kp = key_param(fi)
        ktok = T("param", ("root", fi.qual), kp)
        selft = T("param", ("root", fi.qual), fi.params[0])
        stores, dels, calls = [], [], []

        def is_data(v):
            return any(t.k == "attr" and t.a[0] is selft for t in split(v))

        class K(Client):
            def should_inline(self, it, g, call):
                return g.module is c.module

            def on_setitem(self, it, obj, idx, val, st, node, frame):
                if is_data(obj):
                    stores.append((one(idx), one(val), it.where(node)))
                return st

            def on_delitem(self, it, obj, idx, st, node, frame):
                if is_data(obj):
                    dels.append((one(idx), it.where(node)))
                return st

            def on_call(self, it, call):
                if call.recv is not None and is_data(call.recv):
                    calls.append((call.name, call.args, call.kwargs, it.where(call.node)))
                    if call.name == "pop" and call.args:
                        dels.append((one(call.args[0]), it.where(call.node)))
                    if call.name == "setdefault" and len(call.args) > 1:
                        rep.bad("bytes", f"{c.name}.{name} setdefault", it.where(call.node), "an object already stored under the key is kept instead of the new one")
                        stores.append((one(call.args[0]), one(call.args[1]), it.where(call.node)))
                    if call.name == "clear":
                        rep.bad("bytes", f"{c.name}.{name} clear", it.where(call.node), "removes objects stored under other keys")
                return None

        rets, raises = Engine(p, K()).run(fi, self_cls=c)
        if name == "put":
            vt = [T("param", ("root", fi.qual), x) for x in fi.params[1:] if x != kp]
            for i, v, w in stores:
                rep.check(i is ktok, "bytes", f"{c.name}.put key", w, f"stored under {show(i)} instead of the key")
                rep.check(any(y in vt for y in subterms(v)), "bytes", f"{c.name}.put value", w, f"stores {show(v)}")
            upd = [x for x in calls if x[0] in ("update", "__setitem__")]
            rep.check(bool(stores or upd), "bytes", f"{c.name}.put stores", fi.where, "nothing is stored under the key")
        if name == "get":
            for v, st in rets:
                for t in split(v):
                    ok = (t.k == "item" and t.a[1] is ktok) or (t.k in ("dval",))
                    if t.k == "call" and callee_name(t) == "get":
                        b = t
                        notnone = st.conds.get(T("cmp", "is", b, NONE)) is False or st.conds.get(T("cmp", "is", NONE, b)) is False
                        present = any(q.k == "cmp" and q.a[0] == "in" and q.a[1] is ktok and tr is True for q, tr in st.conds.items())
                        nonef = any(q.k == "cmp" and q.a[0] == "is" and q.a[1] is b and tr is False for q, tr in st.conds.items())
                        ok = t.a[1] and t.a[1][0] is ktok and (notnone or present or nonef)
                    if t.k == "call" and callee_name(t) == "pop":
                        ok = False
                    rep.check(bool(ok), "bytes", f"{c.name}.get", fi.where, f"returns {show(t)[:60]}: not exactly the object stored under the key, or a default for a missing key")
            rep.check(not dels, "bytes", f"{c.name}.get keeps the object", dels[0][1] if dels else fi.where, "reading removes the object")
        if name == "delete":
            for i, w in dels:
                rep.check(i is ktok, "bytes", f"{c.name}.delete key", w, f"deletes {show(i)}")
        if name == "exists":
            for v, st in rets:
                for t in split(v):
                    if t.k == "cmp" and t.a[0] == "in":
                        rep.check(t.a[1] is ktok, "bytes", f"{c.name}.exists", fi.where, f"tests {show(t)}")


# ------------------------------------------------------------------ dispatch
def piece(t, uri):
    """0 / 1 if t is the part of `uri` before / after the first '://', 'bad' if it is another part of it."""
    if t.k == "item" and t.a[0].k == "call":
        b, i = t.a[0], t.a[1]
        nm = callee_name(b)
        r = recv_of(b)
        if r is uri:
            sep = b.a[1][0] if b.a[1] else None
            if nm == "partition" and sep is C("://"):
                return {C(0): 0, C(2): 1}.get(i, "bad")
            if nm == "split" and sep is C("://") and (len(b.a[1]) > 1 and b.a[1][1] is C(1) or dict(b.a[2]).get("maxsplit") is C(1)):
                return {C(0): 0, C(1): 1}.get(i, "bad")
            return "bad"
    if t.k == "item" and t.a[0] is uri:
        return None
    if t.k == "call" and callee_name(t) == "removeprefix" and recv_of(t) is uri:
        return 1
    if uri in subterms(t):
        return None
    return None


STORED = T("param", ("backend", "get"), "stored object")


def dispatch_rule(p, rep, base):
    store = p.need_class("ObjectStore", STORE)
    for name in OBJ_OPS:
        fi = p.find_method(store, name)
        if fi is None:
            continue
        rep.saw(fi.qual)
        uri = T("param", ("root", fi.qual), "uri" if "uri" in fi.params else fi.params[-1])
        selft = T("param", ("root", fi.qual), fi.params[0])
        hits = []

        class K(Client):
            def should_inline(self, it, g, call):
                return g.cls is store

            def on_call(self, it, call):
                if call.recv is not None and call.name in (*OBJ_OPS, "list_keys"):
                    for r in split(call.recv):
                        if any(y.k == "attr" and y.a[0] is selft and y.a[1] in ("_backends", "_persistent", "_transient") for y in subterms(r)):
                            hits.append((r, call.name, call.args, call.st, it.where(call.node)))
                            if call.name == "get" and r.k == "item":
                                return [(V(STORED), call.st)]
                return None

        rets, raises = Engine(p, K()).run(fi, self_cls=store)
        for r, op, args, st, w in hits:
            inst = f"ObjectStore.{name} -> {show(r)[:40]}.{op}"
            if op != name and not (op == "exists"):
                rep.bad("dispatch", inst, w, f"{name} calls the backend's {op}")
                continue
            if op == "exists" and name != "exists":
                continue
            key = one(args[0]) if args else None
            if r.k == "item" and r.a[0].k == "attr":
                pc_s, pc_k = piece(r.a[1], uri), piece(key, uri) if key is not None else None
                rep.check(pc_s not in ("bad", 1), "dispatch", inst + " scheme", w, f"backend chosen by {show(r.a[1])}")
                rep.check(pc_k not in ("bad", 0) and not (pc_k is None and uri is key), "dispatch", inst + " key", w, f"key passed on is {show(key)}")
            elif name == "put" and key is not None:
                # transient (generated key) or persistent (whole key)
                attr = r.a[1] if r.k == "attr" else ""
                if "transient" in attr:
                    rep.check(uri not in subterms(key), "dispatch", inst + " key", w, f"a caller's key {show(key)} goes to the transient backend")
                else:
                    sep = [tr for t, tr in st.conds.items() if t.k == "cmp" and t.a[0] == "in" and t.a[1] is C("://") and t.a[2] is uri]
                    rep.check(key is uri or piece(key, uri) == 1, "dispatch", inst + " key", w, f"key passed on is {show(key)}")
                    rep.check(True not in sep or piece(key, uri) == 1, "dispatch", inst + " scheme", w, "a URI with a scheme is handed to the persistent backend unparsed")
            if name == "put" and len(args) > 1:
                vt = T("param", ("root", fi.qual), fi.params[1])
                rep.check(one(args[1]) is vt, "dispatch", inst + " value", w, f"stores {show(one(args[1]))}")
        if not hits and name in ("put", "get", "delete"):
            rep.notes.append(f"ObjectStore.{name}: no backend call recognised")
        if name == "get":
            for v, st in rets:
                for t in split(v):
                    if t is not STORED and t.k in ("const",):
                        rep.bad("dispatch", "ObjectStore.get result", fi.where, f"returns {show(t)} instead of the stored object")
        if name == "put":
            # the returned URI names the object that was stored
            for v, st in rets:
                for t in split(v):
                    if t is uri:
                        sep = [tr for q, tr in st.conds.items() if q.k == "cmp" and q.a[0] == "in" and q.a[1] is C("://") and q.a[2] is uri]
                        rep.check(True in sep or not sep, "dispatch", "ObjectStore.put returns full URI", fi.where, "a key without scheme is returned as if it were a URI")
                    elif t.k == "fstr":
                        parts = [x if isinstance(x, T) else one(x) for x in (t.a[0] if isinstance(t.a[0], tuple) else t.a)]
                        keys = [one(a[0]) for r, op, a, s, w in hits if op == "put"]
                        has = any(any(y is k for y in parts) for k in keys)
                        sch = [x for x in parts if x.k == "attr" and x.a[1] == "scheme"]
                        if sch and has:
                            k = next(k for k in keys if any(y is k for y in parts))
                            recvs = {r for r, op, a, s, w in hits if op == "put" and one(a[0]) is k}
                            rep.check(any(sch[0].a[0] is r for r in recvs), "dispatch", "ObjectStore.put returned scheme", fi.where, f"{show(t)[:60]} names another backend than the one that stored the object")
                        lit = parts[0].a[1] if parts and parts[0].k == "const" and isinstance(parts[0].a[1], str) and not sch else ""
                        if lit and has:
                            recvs = {show(r) for r, op, a, s, w in hits if op == "put" and any(y is one(a[0]) for y in parts)}
                            rep.check(any("transient" in r for r in recvs), "dispatch", "ObjectStore.put returned scheme", fi.where, f"the literal scheme of {show(t)[:60]} names another backend than the one that stored the object")
                        rep.check(has, "dispatch", "ObjectStore.put returned key", fi.where, f"{show(t)[:60]} does not contain the key under which the object was stored")
    # copies pass their operands through in order
    for name in COPY_OPS:
        fi = p.find_method(store, name)
        if fi is None:
            continue
        rep.saw(fi.qual)
        ps = [T("param", ("root", fi.qual), x) for x in fi.params[1:]]

        class K2(Client):
            def should_inline(self, it, g, call):
                return g.cls is store

            def on_call(self, it, call):
                if call.recv is not None and call.name in COPY_OPS and any(y.k == "attr" for y in split(call.recv)):
                    got = [one(a) for a in call.args] + [one(v) for v in call.kwargs.values()]
                    ok = call.name == name and (not call.kwargs and got == ps or call.kwargs and set(got) == set(ps))
                    rep.check(ok, "dispatch", f"ObjectStore.{name}", it.where(call.node), f"passes {[show(x) for x in got]} to {call.name}")
                return None

        Engine(p, K2()).run(fi, self_cls=store)


# ------------------------------------------------------------------ staging
def staging_rule(p, rep):
    mod = p.modules.get("mplang.backends.table_impl")
    if mod is None:
        raise AnalysisBroken("mplang.backends.table_impl not found")
    roots = []
    for fi in mod.functions.values():
        src = ast.dump(fi.node)
        if "interpreter" in fi.params and ("'download'" in src or "'upload'" in src) and any(isinstance(d, ast.Attribute) and d.attr == "def_impl" for d in fi.decorators):
            roots.append(fi)
    for fi in roots:
        rep.saw(fi.qual)
        it_t = T("param", ("root", fi.qual), "interpreter")
        op_t = T("param", ("root", fi.qual), fi.params[1])

        def is_key(st, t):
            return any(y.k == "item" and y.a[0].k == "attr" and y.a[0].a[0] is op_t and y.a[1] is C("path") for y in st.deps(V(t)))

        def keys_of(st, t):
            return {y for y in st.deps(V(t)) if y.k == "item" and y.a[0].k == "attr" and y.a[0].a[0] is op_t}

        def rootlike(t):
            return it_t in subterms(t) and not any(y is op_t for y in subterms(t))

        class K(Client):
            max_states = 40

            def should_inline(self, it, g, call):
                return g.module is mod and (g.name.startswith("_") or g.parent is not None)

            def on_call(self, it, call):
                e = call.ext or ""
                idx = SINKS.get(e)
                st = call.st
                vals = [call.args[i] for i in idx if i < len(call.args)] if idx else []
                if call.name.endswith("Writer") or call.name in ("_do_write",):
                    vals += call.args[:1]
                if call.recv is not None and call.name == "download":
                    vals += call.args[1:2]
                if call.recv is not None and call.name == "upload":
                    vals += call.args[:1]
                if call.recv is not None and call.name in ("download", "upload"):
                    remote = call.args[0 if call.name == "download" else 1:][:1]
                    for v in remote:
                        for t in split(v):
                            if is_key(st, t):
                                lossy = _lossy(t, keys_of(st, t))
                                rep.check(not lossy, "staging", f"{fi.name}: {call.name} key", it.where(call.node), f"{lossy} gives different table paths the same stored object")
                for v in vals:
                    for t in split(v):
                        if not is_key(st, t):
                            continue
                        proven = contained_terms(st, rootlike)
                        ok = covered(st, t, proven) or covered(st, strip_tmp(t), proven)
                        if not ok:
                            for k in keys_of(st, t):
                                ia = _isabs(k, st)
                                if ia is not None and st.conds.get(ia) is True:
                                    ok = True
                        if not ok:
                            ok = any(c.k == "attr" and c.a[1] == "store" and (tr is False) for c, tr in st.conds.items()) or any(c.k == "cmp" and c.a[0] in ("is", "==") and NONE in c.a and any(z.k == "attr" and z.a[1] == "store" for z in c.a[1:]) and tr is True for c, tr in st.conds.items())
                        # a private temporary directory created for this operation
                        if not ok and any(y.k == "call" and (ext(y) or "").startswith("tempfile.") for y in st.deps(V(t))):
                            bn = [y for y in subterms(t) if y.k == "call" and (ext(y) == "os.path.basename")]
                            ok = bool(bn)
                        if ok and keys_of(st, t) and call.name in ("download", "upload"):
                            lossy = _lossy(t, keys_of(st, t))
                            rep.check(not lossy, "staging", f"{fi.name}: one staged file per path", it.where(call.node), f"{lossy} gives different table paths the same staged file")
                        rep.check(ok, "staging", f"{fi.name}: {e or call.name}", it.where(call.node), f"{e or call.name}({show(t)[:90]}): a relative table path is used outside the interpreter's own staging directory")
                return None

        Engine(p, K()).run(fi)


def _lossy(t, keys):
    """First operation in t that merges different keys, or None."""
    for y in subterms(t):
        if y.k == "call" and any(k in subterms(x) for x in y.a[1] for k in keys) and ext(y) in ("os.path.basename", "os.path.splitext", "hash", "builtins.hash", "os.path.dirname"):
            return ext(y) + "()"
        if y.k == "call" and y.a[0].k == "attr" and any(k in subterms(y.a[0].a[0]) for k in keys) and y.a[0].a[1] in ("lower", "upper", "replace", "strip", "rstrip", "casefold", "split", "rsplit"):
            return "." + y.a[0].a[1] + "()"
        if y.k == "attr" and y.a[1] in ("name", "stem") and any(k in subterms(y.a[0]) for k in keys):
            return "." + y.a[1]
    return None


def strip_tmp(t):
    """base of base+'.suffix'"""
    if t.k == "bin" and t.a[0] == "Add":
        return strip_tmp(t.a[1])
    if t.k == "fstr":
        parts = [x if isinstance(x, T) else one(x) for x in (t.a[0] if isinstance(t.a[0], tuple) else t.a)]
        if parts and not any(q.k == "const" and "/" in str(q.a[1]) for q in parts[1:]):
            return strip_tmp(parts[0])
    if t.k == "call" and ext(t) in ("os.path.realpath", "os.path.abspath", "os.path.normpath", "os.path.dirname") and t.a[1]:
        return strip_tmp_keep(t)
    return t


def strip_tmp_keep(t):
    inner = t.a[1][0]
    return inner if is_normal(inner) else t


# ------------------------------------------------------------------ roots
def _names(f, a):
    """Names an expression depends on, transitively through local assignments."""
    names = set()
    todo = [x.id for x in ast.walk(a) if isinstance(x, ast.Name)]
    while todo:
        x = todo.pop()
        if x in names:
            continue
        names.add(x)
        for w in ast.walk(f.node):
            tg = w.targets if isinstance(w, ast.Assign) else [w.target] if isinstance(w, (ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) else []
            if any(isinstance(t, ast.Name) and t.id == x for q in tg for t in ast.walk(q)) and w.value is not None:
                todo += [y.id for y in ast.walk(w.value) if isinstance(y, ast.Name)]
    return names


def own_root_rule(p, rep):
    cls = [c for c, uses in fs_backends(p)[1] if uses]
    quals = {c.qual for c in cls}
    ranks = {}
    for n, m, f in all_nodes(p, ast.Call):
        if f is None:
            continue
        r = p.resolve_expr(n.func, m, f)
        if r and r[0] == "class" and r[1].name == "WorkerInfra":
            kw = {k.arg: k.value for k in n.keywords}
            rk = kw.get("rank")
            if isinstance(rk, ast.Name):
                ranks[f.qual] = rk.id
                d = kw.get("root_dir")
                if isinstance(d, ast.Name) or isinstance(d, (ast.BinOp, ast.Call)):
                    rep.check(rk.id in _names(f, d), "own-root", f"{f.qual}: worker directory", where(m, d), "workers of different rank share one working directory")
    for n, m, f in all_nodes(p, ast.Call):
        r = p.resolve_expr(n.func, m, f)
        if f is None or not (r and r[0] == "class" and r[1].qual in quals) or f.qual not in ranks:
            continue
        a = n.args[0] if n.args else next((k.value for k in n.keywords), None)
        if a is None:
            continue
        rep.check(ranks[f.qual] in _names(f, a), "own-root", f"{f.qual}", where(m, n), "workers of different rank share one store directory")
