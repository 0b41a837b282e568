"""C10: every operation a program can contain is executable with what it carries.

The operation model (rules/opmodel.py) gives, per opcode, the creation sites with the attributes and operands they
supply, the abstract evaluation's signature and results, and what each implementation reads, accepts and returns.
The rules compare these; anything the interpreter cannot follow is left undecided and noted.
"""
from __future__ import annotations

import ast
from collections import defaultdict

from rules.common import all_nodes, impl_entries, primitives, where
from rules.opmodel import Abstract, cval, creations, definitions, implementations, loaded_modules, result_count, _prim_of
from sa.engine import Client, Engine, T, one, show, subterms

RULES = {
    "implemented": "every opcode has an implementation in the default backends or in the party-level handler tables",
    "once": "every opcode is defined once and implemented once per interpreter, and implementations name existing opcodes",
    "party-level": "worker and driver handle the same party-level opcodes",
    "attributes": "an attribute an implementation needs is supplied by every creation of the operation",
    "operands": "an implementation accepts exactly as many operands as the operation has, and each of its parameters is an operand",
    "results": "an implementation returns as many results as the operation declares",
}
OPTIONAL = {
    "defaults": "an attribute left to its default has the same default in the abstract evaluation and in the implementation",
    "forwarding": "an operation forwarded to another interpreter keeps its opcode, attributes, regions, operands and results",
}


def run(p, rep, tier):
    for k, v in RULES.items():
        rep.rule(k, v, 1)
    for k, v in OPTIONAL.items():
        rep.rule(k, v, 0)
    implemented(p, rep)
    once(p, rep)
    party(p, rep)
    cs = defaultdict(list)
    for c in creations(p, rep.notes):
        cs[c.opcode].append(c)
        if c.fi is not None:
            rep.saw(c.fi.qual)
    ims = implementations(p, rep.notes)
    for im in ims:
        rep.saw(im.fi.qual)
    impls = {im.opcode for im in ims}
    known = set(opcodes(p))
    for c, ss in sorted(cs.items()):
        if ss[0].kind == "add_op":
            good = c in known or c in impls
            rep.check(good, "once", f"{c}|created", ss[0].where, "opcode of a primitive" if good else "creates a node whose opcode no primitive defines and no backend implements")
    defs = definitions(p)
    abstracts = {c: Abstract(d["abstract"]) for c, d in defs.items() if "abstract" in d}
    attributes(p, rep, cs, ims, abstracts)
    operands(p, rep, cs, ims, abstracts)
    results(p, rep, cs, ims, defs)
    forwarding(p, rep)


def opcodes(p):
    out = {}
    for q, (c, w, m, n) in sorted(primitives(p).items()):
        out.setdefault(c, []).append((q, w))
    return out


def tables(p):
    """Party-level handler tables: name -> {opcode: (FuncInfo, where)}."""
    t = defaultdict(dict)
    for c, f, w, kind in impl_entries(p):
        if kind != "impl":
            t[kind][c] = (f, w)
    for m in p.modules.values():
        for n in m.tree.body:
            if not isinstance(n, (ast.Assign, ast.AnnAssign)) or not isinstance(n.value, ast.DictComp):
                continue
            it = n.value.generators[0].iter
            if isinstance(it, ast.Name):
                it = next((s.value for s in m.tree.body if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == it.id for x in s.targets)), it)
            r = p.resolve_expr(n.value.value, m, None) if isinstance(n.value.value, (ast.Name, ast.Attribute)) else None
            if isinstance(it, (ast.Tuple, ast.List, ast.Set)) and r and r[0] == "func":
                from rules.common import prim_opcode
                tgt = n.targets[0] if isinstance(n, ast.Assign) else n.target
                for e in it.elts:
                    c = prim_opcode(p, e, m)
                    if c and "." in c:
                        t[f"{m.name}.{getattr(tgt, 'id', '?')}"][c] = (r[1], where(m, e))
    return t


def implemented(p, rep):
    roots, loaded = loaded_modules(p)
    if not roots:
        rep.notes.append("the list of default backends was not found; modules of implementations are assumed loaded")
    by = defaultdict(list)
    for c, f, w, kind in impl_entries(p):
        by[c].append((f, w, kind))
    tb = tables(p)
    for c, ds in opcodes(p).items():
        es = by.get(c, [])
        es = es + [(f, w, k) for k, t in tb.items() for cc, (f, w) in t.items() if cc == c]
        if not es:
            rep.bad("implemented", c, ds[0][1], "no backend implements this operation: a program containing it fails when it is executed")
            continue
        live = [e for e in es if e[2] != "impl" or not roots or (e[0] is not None and e[0].module.name in loaded) or e[0] is None]
        rep.check(bool(live), "implemented", c, es[0][1], "implementation loaded" if live else "the implementation is in a module that loading the default backends does not import")
    known = set(opcodes(p))
    for c, es in sorted(by.items()):
        if c not in known:
            rep.bad("once", c, es[0][1], "an implementation is registered for an opcode no primitive defines")


def once(p, rep):
    by = defaultdict(list)
    for c, f, w, kind in impl_entries(p):
        if kind == "impl":
            by[c].append((f, w))
    for c, ds in opcodes(p).items():
        rep.check(len(ds) == 1, "once", c + "|definition", ds[-1][1], "one definition" if len(ds) == 1 else f"also defined at {ds[0][1]}: two different operations share the opcode")
        es = {w: f for f, w in by.get(c, [])}
        if es:
            rep.check(len(es) == 1, "once", c + "|implementation", sorted(es)[-1], "one implementation" if len(es) == 1 else f"implemented at {', '.join(sorted(es))}: which one runs depends on import order")


def party(p, rep):
    tb = {k: t for k, t in tables(p).items() if "simp" in k or any(c.startswith("simp.") for c in t)}
    if len(tb) < 2:
        rep.notes.append(f"fewer than two party-level handler tables were found ({', '.join(tb)}): worker and driver are not compared")
        if tb:
            rep.ok("party-level", next(iter(tb)), "single table")
        else:
            rep.notes.append("no party-level handler table found")
        return
    union = set().union(*(set(t) for t in tb.values()))
    for k, t in sorted(tb.items()):
        for c in sorted(union):
            rep.check(c in t, "party-level", f"{k.rsplit('.', 1)[-1]}|{c}", next(iter(t.values()))[1] if t else k, "handled" if c in t else "handled by another party-level table but not by this one: the program runs in one mode and fails in the other")


def attributes(p, rep, cs, ims, abstracts):
    for im in ims:
        ab = abstracts.get(im.opcode)
        sites = [c for c in cs.get(im.opcode, [])]
        adds = [c for c in sites if c.kind == "add_op"]
        # a traced primitive's nodes are made by add_op; binding it only calls the trace function
        use = adds if adds else sites if ab is not None else []
        for k, w in sorted(im.required.items()):
            inst = f"{im.opcode}|{k}|{im.fi.name}"
            if ab is not None and not adds and not ab.accepts(k):
                rep.bad("attributes", inst, w, f"{im.fi.name} reads attribute {k!r}, which the operation's abstract evaluation does not take: no creation can supply it")
                continue
            if ab is not None and ab.required(k) and not adds:
                rep.ok("attributes", inst, "required when the operation is created")
                continue
            missing = [c for c in use if c.attrs is not None and k not in c.attrs]
            unknown = [c for c in use if c.attrs is None]
            if missing:
                rep.bad("attributes", inst, missing[0].where, f"creates {im.opcode} without attribute {k!r}, which {im.fi.name} ({w}) needs")
            elif unknown or not use:
                rep.notes.append(f"{inst}: creation sites not understood, not decided")
            else:
                rep.ok("attributes", inst, f"supplied at {len(use)} creation(s)")
        for k, reads in sorted(im.optional.items()):
            if ab is None or k in im.required:
                continue
            if not adds and not ab.accepts(k):
                rep.bad("attributes", f"{im.opcode}|{k}|{im.fi.name}", reads[0][1], f"{im.fi.name} reads attribute {k!r}, which no creation can supply: it always has its default")
                continue
            d = ab.default.get(k)
            if d is None:
                continue
            try:
                dv = ast.literal_eval(d)
            except (ValueError, TypeError):
                continue
            lax = [c for c in sites if c.attrs is not None and k not in c.attrs]
            for t, w in reads:
                if t is None or t.k != "const":
                    continue
                same = cval(t) == dv
                if same or not lax:
                    rep.ok("defaults", f"{im.opcode}|{k}|{im.fi.name}", "same default" if same else "always supplied")
                else:
                    rep.bad("defaults", f"{im.opcode}|{k}|{im.fi.name}", w, f"created at {lax[0].where} without {k!r}: the program is typed with {dv!r} but {im.fi.name} uses {cval(t)!r}")


def operands(p, rep, cs, ims, abstracts):
    for im in ims:
        if im.kind != "impl" and im.max is None:
            continue
        ab = abstracts.get(im.opcode)
        counts = {}
        for c in cs.get(im.opcode, []):
            if c.kind == "bind" and ab is None:
                continue
            if c.operands is not None:
                if c.kind == "add_op" and any(d.where == c.where and d.operands is None for d in cs[im.opcode]):
                    continue
                counts.setdefault(c.operands, c.where)
        if ab is not None and not counts and not ab.flat and not ab.var:
            named = set().union(*(c.values for c in cs.get(im.opcode, []))) if cs.get(im.opcode) else set()
            n = len([x for x in ab.pos if x not in ab.default and x not in named])
            counts[n] = ab.fi.where
        bad = None
        for n, w in sorted(counts.items()):
            if n < im.min:
                bad = (w, f"the operation has {n} operand(s) here but {im.fi.name} ({im.fi.where}) requires {im.min}")
            elif im.max is not None and n > im.max:
                bad = (w, f"the operation has {n} operand(s) here but {im.fi.name} ({im.fi.where}) accepts {im.max}")
            elif im.max is not None and n < im.max and max(counts) < im.max:
                dead = [x for x in im.params[max(counts):] if any(isinstance(y, ast.Name) and y.id == x for b in im.fi.node.body for y in ast.walk(b))]
                bad = (im.fi.where, f"parameter {dead[0]!r} of {im.fi.name} is never an operand (operands are positional values, attributes are read from op.attrs): it always has its default") if dead else None
            if bad:
                break
        if im.kwonly_required:
            bad = (im.fi.where, f"{im.fi.name} has required keyword parameters; implementations are called with operands only")
        if counts or bad:
            rep.check(bad is None, "operands", f"{im.opcode}|{im.fi.name}", bad[0] if bad else im.where, bad[1] if bad else f"{sorted(counts)} operand(s)")
        else:
            if im.kind == "impl" and im.max is not None:
                rep.notes.append(f"{im.opcode}: operand count of its creations not known")
        # what the abstract evaluation takes
        if ab is not None and not ab.flat:
            for c in cs.get(im.opcode, []):
                if c.kind != "bind" or c.operands is None:
                    continue
                kw = set(c.values)
                need = [x for x in ab.pos if x not in ab.default and x not in kw]
                room = [x for x in ab.pos if x not in kw]
                good = len(need) <= c.operands and (ab.var or c.operands <= len(room)) and all(ab.accepts(k) for k in kw) and (c.attrs is None or all(k in kw for k in ab.kwonly if k not in ab.default))
                rep.check(good, "operands", f"{c.opcode}|bind|{c.fi.name if c.fi else '?'}", c.where, f"{c.operands} operand(s), attributes {sorted(kw)}" if good else f"binds {c.operands} operand(s) and {sorted(kw)}, but the abstract evaluation {ab.fi.name} takes {ab.pos + ab.kwonly}: creating the operation always fails")


def results(p, rep, cs, ims, defs):
    declared = {}
    for c, d in defs.items():
        if "abstract" in d:
            try:
                rets, _ = Engine(p, Quiet(d["abstract"])).run(d["abstract"])
            except Exception as e:
                rep.notes.append(f"{d['abstract'].qual}: not followed ({e})")
                continue
            r, known = result_count(rets)
            if known and len(r) == 1:
                declared[c] = (1 if r == {"1-tuple"} else next(iter(r)), d["abstract"].where)
            rep.saw(d["abstract"].qual)
    for c, ss in cs.items():
        ns = {x.results for x in ss if x.kind == "add_op"}
        if len(ns) == 1 and None not in ns:
            declared[c] = (next(iter(ns)), next(x.where for x in ss if x.kind == "add_op"))
    for im in ims:
        if im.opcode not in declared:
            continue
        n, w = declared[im.opcode]
        r, known = im.returns
        bad = None
        if im.kind == "impl":
            if n >= 1 and known and r == {0}:
                bad = f"declares {n} result(s) but {im.fi.name} returns nothing: the result is missing when it is used"
            elif n == 1 and "1-tuple" in r:
                bad = f"declares one result but {im.fi.name} returns a sequence of one, which is stored as the result itself"
            elif n >= 2 and any(x != n and x != 0 for x in r if x != "1-tuple") or n >= 2 and "1-tuple" in r:
                bad = f"declares {n} results but {im.fi.name} returns {sorted(map(str, r))}"
            elif n == 1 and any(isinstance(x, int) and x >= 2 for x in r):
                bad = f"declares one result but {im.fi.name} returns {max(x for x in r if isinstance(x, int))}"
        rep.check(bad is None, "results", f"{im.opcode}|{im.fi.name}", im.fi.where, bad or f"{n} result(s)" + ("" if known else " (some returns not understood)"))


class Quiet(Client):
    max_depth = 3

    def __init__(self, root):
        self.root = root

    def should_inline(self, it, fi, call):
        return fi.module is self.root.module and isinstance(fi.node.body, list) and len(fi.node.body) < 20 and fi.cls is None


class Forward(Client):
    max_depth = 4

    def __init__(self, root, out):
        self.root, self.out = root, out

    def should_inline(self, it, fi, call):
        return fi.module is self.root.module and fi.cls is None

    def on_call(self, it, call):
        if call.name == "add_op":
            a = [call.args[i] if len(call.args) > i else call.kwargs.get(n) for i, n in enumerate(("opcode", "inputs", "output_types", "attrs", "regions"))]
            op = one(a[0]) if a[0] else None
            if op is not None and op.k == "attr" and op.a[1] == "opcode":
                self.out.append((op.a[0], a, call.st, it.where(call.node), it.frame.func))
        return None


def forwarding(p, rep):
    roots = {}
    for n, m, f in all_nodes(p, ast.Call):
        if f is not None and isinstance(n.func, ast.Attribute) and n.func.attr == "add_op" and not m.name.startswith("mplang.edsl"):
            roots[f.qual] = f
    for q, f in sorted(roots.items()):
        out = []
        try:
            Engine(p, Forward(f, out)).run(f)
        except Exception as e:
            rep.notes.append(f"{q}: forwarding not followed ({e})")
            continue
        for op, a, st, w, g in out:
            rep.saw(q)
            for i, (name, field) in enumerate((("inputs", "inputs"), ("output_types", "outputs"), ("attrs", "attrs"), ("regions", "regions"))):
                v = a[i + 1]
                want = T("attr", op, field)
                deps = set()
                if v:
                    for t in v:
                        deps |= set(subterms(t))
                    deps |= set(st.deps(v))
                good = bool(v) and any(x == want for x in deps)
                if not good and v and any(t.k in ("new", "call") for t in v) and name in ("inputs", "output_types"):
                    # built by a loop: undecided unless certainly empty
                    good = any(x.k in ("elem", "index", "call", "new") for x in deps if isinstance(x, T))
                rep.check(good, "forwarding", f"{q.removeprefix('mplang.')}|{name}", w, "kept" if good else f"the operation is re-created without its {field}")
