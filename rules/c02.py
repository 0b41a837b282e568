"""C02: received data can only become registered value kinds, never code."""
from __future__ import annotations

import ast

from sa.engine import C, NONE, Client, Engine, T, V, one, show, split, subterms
from sa.project import AnalysisBroken
from rules import c01
from rules.common import all_nodes, call_graph, dotted_of, enclosing, qualname, reachable, where
from rules.serde_model import callee_ext

ASSUMPTIONS = [
    "json, gzip, base64, numpy.frombuffer, pyarrow IPC, tenseal/SEAL loaders do not execute code named by their input",
    "the file-backed store's own root directory is trusted storage (stated exception)",
    "mplang.cli loads the operator's own job file by design; no other module imports it",
]

SERDE = "mplang.edsl.serde"

# dotted prefixes whose use as a decoder can run code chosen by the bytes
BANNED_ROOTS = {
    "pickle", "_pickle", "cPickle", "cloudpickle", "dill", "marshal", "shelve", "joblib", "jsonpickle", "copyreg", "runpy", "codeop", "code", "imp", "zipimport",
    "torch.load", "numpy.load", "pandas.read_pickle", "pandas.eval", "numexpr", "pyarrow.deserialize", "pyarrow.deserialize_from", "pyarrow.read_serialized",
    "builtins.eval", "builtins.exec", "builtins.compile", "builtins.__import__", "builtins.globals", "builtins.__build_class__",
    "importlib", "pkgutil.resolve_name", "pydoc.locate", "subprocess", "os.system", "os.popen", "os.execv", "os.execve", "os.execvp", "os.spawnv", "pty",
    "yaml.load", "yaml.full_load", "yaml.unsafe_load", "yaml.load_all", "yaml.Loader", "yaml.UnsafeLoader", "yaml.FullLoader", "ruamel",
    "types.FunctionType", "types.CodeType", "jax.experimental.serialize_executable", "multiprocessing.reduction", "sklearn.externals", "ast.unparse_exec",
    "asyncio.create_subprocess_shell", "asyncio.create_subprocess_exec", "cffi", "sys.modules",
}
HARMLESS = {"importlib.util.find_spec", "importlib.metadata", "importlib.resources", "subprocess.CalledProcessError", "subprocess.PIPE", "subprocess.DEVNULL", "subprocess.STDOUT", "subprocess.TimeoutExpired", "subprocess.SubprocessError", "subprocess.CompletedProcess", "pickle.PicklingError", "pickle.PickleError", "pickle.UnpicklingError", "pickle.HIGHEST_PROTOCOL", "pickle.DEFAULT_PROTOCOL", "pickle.dump", "pickle.dumps", "pickle.Pickler", "cloudpickle.dumps"}
HARMLESS_BARE = {"importlib", "importlib.util", "subprocess", "pickle", "cloudpickle", "yaml", "marshal"}


def banned(d):
    if d is None:
        return None
    if d in HARMLESS or d in HARMLESS_BARE or any(d.startswith(h + ".") for h in ("importlib.metadata", "importlib.resources")):
        return None
    if d.startswith("os.exec") or d.startswith("os.spawn"):
        return d
    parts = d.split(".")
    for i in range(1, len(parts) + 1):
        if ".".join(parts[:i]) in BANNED_ROOTS:
            return d
    return None


def run(p, rep, tier):
    rep.rule("ban", "a reference to a decoder/loader that can run code named by its input (pickle, eval/exec, unsafe YAML, dynamic import, subprocess …) occurs only in the shapes that never see received bytes", 2)
    rep.rule("unsafe-option", "no call enables code execution while decoding (allow_pickle, shell, loader=…)", 0)
    rep.rule("dynamic", "in decoders, neither the callee nor an attribute name is taken from the received data: the only data-driven dispatch is the exact lookup in the class registry", 30)
    rep.rule("registry", "the class registry is written only by the registration decorator", 1)
    rep.rule("kind", "a generic reader returns only under a positive test of the received kind; everything else raises", 10)
    rep.rule("truncated", "container reads are bounds-checked", 1)
    rep.rule("no-swallow", "no decoder turns a decoding error into a normal result", 30)
    ban_rule(p, rep)
    decoder_rules(p, rep)
    truncated_rule(p, rep)


# ------------------------------------------------------------------ ban
def ban_rule(p, rep):
    cg = call_graph(p)
    cli_importers = [m.name for m in p.modules.values() for v in m.imports.values() if isinstance(v, str) and (v == "mplang.cli" or v.startswith("mplang.cli."))]
    seen_attr = set()
    for n, m, f in all_nodes(p, (ast.Attribute, ast.Name)):
        if isinstance(n, ast.Attribute):
            seen_attr.add(id(n.value))
        if isinstance(getattr(n, "ctx", None), ast.Store):
            continue
        if id(n) in seen_attr:
            continue  # inner part of a longer dotted chain already looked at
        d = dotted_of(p, n, m, f)
        b = banned(d)
        if b is None and isinstance(n, ast.Attribute):
            # outermost chain unresolved (e.g. importlib.util.x.y): look at prefixes
            x = n.value
            while isinstance(x, ast.Attribute) and b is None:
                b = banned(dotted_of(p, x, m, f))
                x = x.value
        if b is None:
            continue
        ok, why = allowed(p, n, m, f, b, cli_importers)
        rep.check(ok, "ban", f"{b} in {qualname(m, f)}", where(m, n), f"{b} is used here: {why}")
        rep.saw(qualname(m, f))
    # imports that pull single names
    for n, m, f in all_nodes(p, (ast.Import, ast.ImportFrom)):
        for k, v in p.imports_of_stmts(m, n).items():
            for d in (v if isinstance(v, list) else [v]):
                b = banned(d)
                if b and not isinstance(v, list):
                    # uses are judged at their references; the import alone is harmless
                    continue
                if isinstance(v, list) and d.split(".")[0] in BANNED_ROOTS:
                    rep.bad("ban", f"from {d} import * in {qualname(m, f)}", where(m, n), "star import of a code-executing module")
    # unsafe options
    nopt = 0
    for n, m, f in all_nodes(p, ast.Call):
        for kw in n.keywords:
            if kw.arg == "allow_pickle" and not (isinstance(kw.value, ast.Constant) and kw.value.value is False):
                nopt += 1
                rep.bad("unsafe-option", f"allow_pickle in {qualname(m, f)}", where(m, n), "allow_pickle lets the decoded bytes execute code")
            if kw.arg == "shell" and not (isinstance(kw.value, ast.Constant) and kw.value.value is False):
                nopt += 1
                rep.bad("unsafe-option", f"shell= in {qualname(m, f)}", where(m, n), "shell=… passes text to a shell")
            if kw.arg in ("Loader", "loader_cls") and "Safe" not in ast.unparse(kw.value):
                rep.bad("unsafe-option", f"{kw.arg}= in {qualname(m, f)}", where(m, n), "unsafe loader class")
    rep.ok("unsafe-option", "calls scanned")


def _parent_map(f_or_m):
    pm = {}
    for x in ast.walk(f_or_m):
        for c in ast.iter_child_nodes(x):
            pm[id(c)] = x
    return pm


def allowed(p, n, m, f, b, cli_importers):
    tree = m.tree
    pm = _parent_map(tree)
    call = pm.get(id(n))
    call = call if isinstance(call, ast.Call) and call.func is n else None
    if m.name == "mplang.cli":
        if b.startswith("importlib") or b == "sys.modules":
            return (not cli_importers, f"mplang.cli is imported by {cli_importers}")
    if b in ("pickle.load",) and m.name == "mplang.runtime.object_store":
        if call is not None and call.args and _file_like(p, call.args[0], m, f):
            return True, ""
        return False, "pickle.load on something other than a file opened from the store"
    if b == "importlib.import_module":
        if call is not None and call.args and _const_name(p, call.args[0], m, f, 0):
            return True, ""
        return False, "the imported module's name is not a constant of this package"
    if b.startswith("subprocess."):
        if call is not None and call.args and _const_argv(p, call.args[0], m, f) and not any(k.arg == "shell" for k in call.keywords):
            return True, ""
        return False, "subprocess with a non-constant program"
    if b == "builtins.compile" or b == "builtins.globals":
        # shadowed names are resolved by the project index; a real builtin here is a violation
        return False, "code is built at run time"
    if b == "sys.modules":
        # reading an already imported module under a constant name
        par = pm.get(id(n))
        if isinstance(par, ast.Subscript) and isinstance(par.slice, (ast.Constant,)) or (isinstance(par, ast.Subscript) and isinstance(par.slice, ast.Name) and par.slice.id == "__name__"):
            return True, ""
        if isinstance(par, ast.Attribute) and par.attr == "get":
            c = pm.get(id(par))
            if isinstance(c, ast.Call) and c.args and isinstance(c.args[0], ast.Constant):
                return True, ""
        if isinstance(par, ast.Compare) and isinstance(par.left, ast.Constant):
            return True, ""
        return False, "module looked up by a computed name"
    return False, "it can execute code named by the bytes it reads"


def _file_like(p, e, m, f):
    """e is a handle opened with open()."""
    if isinstance(e, ast.Call):
        return dotted_of(p, e.func, m, f) in ("builtins.open", "io.open")
    if isinstance(e, ast.Name) and f is not None:
        for w in ast.walk(f.node):
            if isinstance(w, (ast.With, ast.AsyncWith)):
                for it in w.items:
                    if isinstance(it.optional_vars, ast.Name) and it.optional_vars.id == e.id:
                        return isinstance(it.context_expr, ast.Call) and dotted_of(p, it.context_expr.func, m, f) in ("builtins.open", "io.open")
            if isinstance(w, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in w.targets):
                return isinstance(w.value, ast.Call) and dotted_of(p, w.value.func, m, f) in ("builtins.open", "io.open")
        if e.id in f.allparams:
            # helper taking the handle: judge its callers inside this module
            i = f.params.index(e.id) if e.id in f.params else None
            cs = [(c, g) for c, cm, g in all_nodes(p, ast.Call) if cm is m and _calls(p, c, m, g, f)]
            if i is not None and cs:
                off = 1 if f.cls is not None and not f.is_static else 0
                return all(len(c.args) > i - off and _file_like(p, c.args[i - off], m, g) for c, g in cs)
    return False


def _calls(p, c, m, g, f):
    r = p.resolve_expr(c.func, m, g)
    if r is not None and r[0] == "func":
        return r[1] is f
    return isinstance(c.func, ast.Attribute) and c.func.attr == f.name and f.cls is not None


def _literal_strs(p, e, m, f, depth=0):
    """Every element of a literal collection of constant strings?"""
    if depth > 4:
        return False
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        return all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in e.elts)
    if isinstance(e, ast.Dict):
        return all(isinstance(x, ast.Constant) for x in e.keys)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return _literal_strs(p, e.left, m, f, depth + 1) and _literal_strs(p, e.right, m, f, depth + 1)
    if isinstance(e, ast.Call) and dotted_of(p, e.func, m, f) in ("builtins.list", "builtins.tuple", "builtins.sorted", "builtins.set", "builtins.frozenset", "builtins.reversed") and len(e.args) == 1:
        return _literal_strs(p, e.args[0], m, f, depth + 1)
    if isinstance(e, ast.Name):
        for g in enclosing(f) if f else ():
            vals = [w.value for w in ast.walk(g.node) if isinstance(w, (ast.Assign,)) and any(isinstance(t, ast.Name) and t.id == e.id for t in w.targets)]
            vals += [w.value for w in ast.walk(g.node) if isinstance(w, ast.AnnAssign) and isinstance(w.target, ast.Name) and w.target.id == e.id and w.value is not None]
            if vals:
                return all(_literal_strs(p, v, m, f, depth + 1) for v in vals)
        if e.id in m.assigns and m.assigns[e.id]:
            return all(_literal_strs(p, v, m, None, depth + 1) for v in m.assigns[e.id])
    return False


def _const_name(p, e, m, f, depth):
    if depth > 5:
        return False
    if isinstance(e, ast.Constant):
        return True
    if isinstance(e, ast.JoinedStr):
        return all(isinstance(v, ast.Constant) or _const_name(p, v.value, m, f, depth + 1) for v in e.values)
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return _const_name(p, e.left, m, f, depth + 1) and _const_name(p, e.right, m, f, depth + 1)
    if isinstance(e, ast.Name):
        if e.id == "__name__":
            return True
        for g in enclosing(f) if f else ():
            srcs = []
            for w in ast.walk(g.node):
                if isinstance(w, (ast.For, ast.comprehension)) and isinstance(w.target, ast.Name) and w.target.id == e.id:
                    srcs.append(_literal_strs(p, w.iter, m, g))
                elif isinstance(w, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in w.targets):
                    srcs.append(_const_name(p, w.value, m, g, depth + 1))
            if srcs:
                return all(srcs)
            if e.id in g.allparams:
                i = g.params.index(e.id) if e.id in g.params else None
                if i is None:
                    return False
                ok = True
                for c, cm, cf in all_nodes(p, ast.Call):
                    if _calls(p, c, cm, cf, g):
                        off = 1 if g.cls is not None and not g.is_static else 0
                        a = c.args[i - off] if len(c.args) > i - off else next((k.value for k in c.keywords if k.arg == e.id), None)
                        if a is not None and not _const_name(p, a, cm, cf, depth + 1):
                            ok = False
                return ok
        if m.assigns.get(e.id):
            return all(isinstance(v, ast.Constant) for v in m.assigns[e.id])
    return False


def _const_argv(p, e, m, f):
    if isinstance(e, ast.List):
        return bool(e.elts) and isinstance(e.elts[0], ast.Constant)
    if isinstance(e, ast.BinOp):
        return _const_argv(p, e.left, m, f)
    if isinstance(e, ast.Name) and f is not None:
        for g in enclosing(f):
            vals = [w.value for w in ast.walk(g.node) if isinstance(w, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in w.targets)]
            if vals:
                return all(_const_argv(p, v, m, f) for v in vals)
            if e.id in g.allparams:
                return True if _param_const_argv(p, g, e.id) else False
    if isinstance(e, ast.Call):
        r = p.resolve_expr(e.func, m, f)
        if r is not None and r[0] == "func":
            rets = [w.value for w in ast.walk(r[1].node) if isinstance(w, ast.Return) and w.value is not None]
            return bool(rets) and all(_const_argv(p, v, r[1].module, r[1]) for v in rets)
    return False


def _param_const_argv(p, g, name):
    i = g.params.index(name) if name in g.params else None
    if i is None:
        return False
    cs = [(c, cm, cf) for c, cm, cf in all_nodes(p, ast.Call) if _calls(p, c, cm, cf, g)]
    return bool(cs) and all(len(c.args) > i and _const_argv(p, c.args[i], cm, cf) for c, cm, cf in cs)


# ------------------------------------------------------------------ decoders
def decoder_roots(p):
    m = p.modules[SERDE]
    generic = [m.functions[n] for n in ("from_json", "_from_binary_json") if n in m.functions]
    outer = [m.functions[n] for n in ("loads", "loads_b64", "loads_binary") if n in m.functions]
    meths = []
    for c in p.classes.values():
        for n in ("from_json", "from_binary_json", "from_dict"):
            fi = c.methods.get(n)
            if fi is not None and fi not in meths and "typing.Protocol" not in p.ext_bases(c):
                meths.append(fi)
    tool = p.modules.get("mplang.tool.program")
    if tool and "unpack" in tool.functions:
        outer.append(tool.functions["unpack"])
    return generic, outer, meths


def decoder_rules(p, rep):
    generic, outer, meths = decoder_roots(p)
    gq = {f.qual for f in generic}
    sm = p.modules[SERDE]
    reg_names = registry_names(p, rep)
    for fi in generic + outer + meths:
        rep.saw(fi.qual)
        data_names = [x for x in fi.params if not (fi.cls is not None and x == fi.params[0] and not fi.is_static)]
        roots = {T("param", ("root", fi.qual), x) for x in data_names}
        bad = []

        class D(Client):
            max_states = 24
            assume_nonempty_loops = True

            def should_inline(self, it, g, call):
                if g.qual in gq or g in outer or g in meths:
                    return False
                return g.module is fi.module or g.module is sm

            def tainted(self, st, v):
                return any(y in roots for y in st.deps(v))

            def on_call(self, it, call):
                if call.ext == "builtins.getattr" and len(call.args) >= 2 and self.tainted(call.st, call.args[1]):
                    bad.append((it.where(call.node), f"attribute name {show(one(call.args[1]))} comes from the received data"))
                if call.name in ("__getattribute__", "attrgetter", "methodcaller") and call.args and self.tainted(call.st, call.args[-1]):
                    bad.append((it.where(call.node), "attribute name comes from the received data"))
                c = call.callee
                # callee (or the object whose from_json is called) taken from data
                src = c.a[0] if c.k == "attr" else c
                for y in split(V(src)):
                    if y.k in ("item", "call") and not ok_dispatch(y):
                        if y.k == "item" and any(z.k == "modvar" for z in [y.a[0]]) and self.tainted(call.st, V(y.a[1])):
                            bad.append((it.where(call.node), f"dispatch through {show(y)}: only the class registry may be indexed by received data"))
                        elif y.k == "item" and y.a[0].k == "call" and callee_ext(y.a[0]) in ("builtins.globals", "builtins.locals", "builtins.vars"):
                            bad.append((it.where(call.node), f"dispatch through {show(y)}"))
                return None

            def on_handler(self, it, exc, st, node, frame):
                names = it._handler_names(node) if hasattr(node, "type") else []
                if names and all(str(x).split(".")[-1] in ("ImportError", "ModuleNotFoundError") for x in names):
                    return st
                return st.with_fact(("handled", node.lineno))

            def on_raise(self, it, exc, st, node, frame):
                return st.without(lambda f: f[0] == "handled")

        def ok_dispatch(y):
            if y.k == "item" and y.a[0].k == "modvar" and y.a[0].a[1] in reg_names:
                return True
            return False

        for width in (24, 6, 2):
            # fewer states kept apart where there are too many paths
            cl = D()
            cl.max_states = width
            bad.clear()
            try:
                rets, _ = Engine(p, cl).run(fi)
                break
            except AnalysisBroken:
                if width == 2:
                    raise
        rep.check(not bad, "dynamic", fi.qual, bad[0][0] if bad else fi.where, "; ".join(x[1] for x in bad[:3]))
        sw = [f for _, st in rets for f in st.facts if f[0] == "handled"]
        rep.check(not sw, "no-swallow", fi.qual, fi.where if not sw else f"{fi.where.split(':')[0]}:{sw[0][1]}", "a decoding error is caught here and a value is returned anyway: malformed input is accepted")
        if fi in generic:
            kind_rule(p, rep, fi, rets, gq, reg_names)


def registry_names(p, rep):
    """Module variables of serde that map kinds to classes, and who writes them."""
    sm = p.modules[SERDE]
    names = set()
    for n, vals in sm.assigns.items():
        if any(isinstance(v, ast.Dict) or (isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] in ("dict", "OrderedDict", "WeakValueDictionary")) for v in vals):
            names.add(n)
    writers = []
    for n, m, f in all_nodes(p, (ast.Subscript, ast.Call)):
        tgt = None
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            tgt = n.value
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("update", "setdefault", "pop", "clear", "popitem", "__setitem__"):
            tgt = n.func.value
        if tgt is None:
            continue
        r = p.resolve_expr(tgt, m, f)
        if r and r[0] == "modvar" and r[1] == SERDE and r[2] in names:
            writers.append((r[2], m, f, n))
    reg = set()
    for nm, m, f, n in writers:
        if f is not None and f.module is sm and f.name == "register_class":
            reg.add(nm)
    deco_only = reachable_helpers(p, sm, "register_class")
    for nm, m, f, n in writers:
        if nm in reg or not reg:
            ok = f is not None and f.module is sm and (f.name == "register_class" or f.qual in deco_only)
            rep.check(ok, "registry", f"{nm} written in {qualname(m, f)}", where(m, n), "the class registry is changed outside the registration decorator")
    return reg or names


def reachable_helpers(p, sm, name):
    """Functions of the module called only (transitively) from one function."""
    cg = call_graph(p)
    fq = f"{sm.name}.{name}"
    out = {fq}
    ch = True
    while ch:
        ch = False
        for q, fi in p.functions.items():
            if q in out or fi.module is not sm:
                continue
            callers = {a for a, bs in cg.items() if q in bs}
            if callers and callers <= out:
                out.add(q)
                ch = True
    return out


def kind_rule(p, rep, fi, rets, gq, reg_names):
    data = T("param", ("root", fi.qual), fi.params[0])

    def is_kind(t):
        """exactly the received kind field"""
        if t.k == "item":
            return t.a[0] is data and t.a[1] is C("_kind")
        if t.k == "call" and t.a[0].k == "attr" and t.a[0].a[1] in ("get", "pop", "__getitem__"):
            return t.a[0].a[0] is data and bool(t.a[1]) and t.a[1][0] is C("_kind")
        if t.k == "call" and callee_ext(t) in ("builtins.str", "sys.intern", "typing.cast") and t.a[1]:
            return is_kind(t.a[1][-1])
        return False

    for v, st in rets:
        pos = None
        for t, tr in st.conds.items():
            if tr is True and t.k == "cmp" and t.a[0] in ("==", "is", "in"):
                l, r = t.a[1], t.a[2]
                if t.a[0] == "in":
                    if is_kind(l):
                        pos = (l, r)
                elif (is_kind(l) and r.k == "const") or (is_kind(r) and l.k == "const"):
                    pos = (l, r)
        for x in split(v):
            # delegating to a sibling generic reader keeps the obligation there
            if x.k == "call" and x.a[0].k == "func" and x.a[0].a[0] in gq:
                continue
            # a class found by exact lookup that was tested for presence
            if pos is None:
                for y in subterms(x):
                    if y.k == "item" and y.a[0].k == "modvar" and y.a[0].a[1] in reg_names and is_kind(y.a[1]):
                        pos = (y,)  # the lookup itself raises KeyError when absent
                    if y.k == "call" and y.a[0].k == "attr" and y.a[0].a[1] == "get" and y.a[1] and is_kind(y.a[1][0]):
                        b = y.a[0].a[0]
                        if b.k == "modvar" and b.a[1] in reg_names and (st.conds.get(T("cmp", "is", y, NONE)) is False or st.conds.get(T("cmp", "is", NONE, y)) is False or st.conds.get(y) is True):
                            pos = (y,)
            inst = f"{fi.name}: returns {show(x)[:60]}"
            rep.check(pos is not None, "kind", inst, fi.where, "a value is returned although no kind test matched: unknown kinds are accepted")
        # the data itself must not be handed back undecoded
        if any(x is data for x in split(v)):
            rep.bad("kind", f"{fi.name}: returns its input undecoded", fi.where, "received data is returned as is")


def truncated_rule(p, rep):
    class Sub:
        def __init__(self):
            self.obs = []

        def check(self, cond, rule, inst, w, msg):
            if "bounds" in inst:
                rep.check(cond, "truncated", inst, w, msg)

        def saw(self, *a):
            rep.saw(*a)

    c01.container_rule(p, Sub())
