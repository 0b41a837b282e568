"""C22: the protocol libraries send private inputs only in masked form.

Each protocol function is followed symbolically (rules/mpcmodel.py). For every party, the set of values it can compute
from the messages it receives (and from what it made itself) is closed under the decomposition rules of the model; no
other party's input, secret key, blinding scalar or undelivered output may be in it, nor anything that is a function of
another party's inputs alone without a hash or an encryption around it.
"""
from __future__ import annotations

from rules.mpcmodel import LIB, N, Knowledge, follow, protocols, show_n, sub, subres

RULES = {
    "leak": "no party can compute another party's input, secret key, blinding scalar or undelivered output from the messages it receives",
    "masked": "every message derived from its sender's inputs is hashed, encrypted or masked by something its receiver does not know",
    "one-way": "an input is not masked with an invertible expansion of a seed: a known part of it would give away the seed, and with it the rest",
    "route": "every move goes between parties the caller named, from the party that has the value, and local calls run at parties the caller named",
}
HASH = {"crypto.hash_bytes", "crypto.hash_batch", "crypto.hash", "crypto.sym_encrypt", "crypto.hkdf", "crypto.kem_derive", "bfv.encrypt", "phe.encrypt", "crypto.ec_mul"}


# what the sender puts in comes out, in part or permuted, at the receiver: the purpose of these protocols
DELIVER = {LIB + ".ot.base.transfer": ("m0", "m1"), LIB + ".ot.extension.transfer_extension": ("m0", "m1"), LIB + ".analytics.permutation.secure_switch": ("x0", "x1"),
           LIB + ".analytics.permutation.apply_permutation": ("data",)}


class View(Knowledge):
    def atoms(self, n, depth=0):
        """the unknown values a term is made of, a hash or an encryption of unknown values counting as a value of its own; None: not known"""
        if self.known(n):
            return frozenset()
        if n.op in ("?", "rec") or depth > 60:
            return None
        k = self.memo.get(n)
        if k is not None:
            return k[0]
        self.memo[n] = (None,)
        r = self._atoms(n, depth)
        self.memo[n] = (r,)
        return r

    def _atoms(self, n, depth):
        if n.op in ("param", "draw", "key", "subres") or n.op == "item" and subres(n) is not None:
            return frozenset((n,))
        if n.op == "moved":
            return self.atoms(n.args[0], depth + 1)
        if n.op == "item":
            return self.atoms(n.args[0], depth + 1)
        if n.op == "obj":
            return None
        if n.op == "xor":
            xs = list(n.args[0])
            blocks = [self.cipher(x) for x in xs]
            out = frozenset()
            skip = set()
            for i, b in enumerate(blocks):
                if b is None:
                    continue
                a = self.atoms(b, depth + 1)
                for j, x in enumerate(xs):
                    if j != i and a and blocks[j] is None and self.atoms(x, depth + 1) == a:
                        skip |= {i, j}      # a block cipher of x added to x: one-way
                        out |= {n}
            for i, x in enumerate(xs):
                if i not in skip:
                    a = self.atoms(x, depth + 1)
                    if a is None:
                        return None
                    out |= a
            return out
        if n.op == "call" and n.args[0] in HASH:
            return frozenset((n,))
        if n.op in ("struct", "call", "op"):
            if n.args[0] == "default":
                return frozenset()
            xs = n.args[1]
        elif n.op in ("tup", "phi"):
            xs = n.args[0]
        elif n.op == "sum":
            xs = [x for x, _ in n.args[0]]
        else:
            return None
        out = frozenset()
        for x in xs:
            a = self.atoms(x, depth + 1)
            if a is None:
                return None
            out |= a
        return out

    def cipher(self, x):
        while x.op in ("item", "struct"):
            x = x.args[0] if x.op == "item" else x.args[1][0] if x.args[1] else N("?")
        return x.args[1][0] if x.op == "call" and x.args[0] == "field.aes_expand" and x.args[1] else None

    memo: dict


def pieces(n, seen=None, depth=0):
    """what a message consists of, one value at a time"""
    seen = set() if seen is None else seen
    if n in seen or depth > 40:
        return
    seen.add(n)
    if n.op in ("tup", "phi"):
        for x in n.args[0]:
            yield from pieces(x, seen, depth + 1)
    elif n.op == "struct" and n.args[1]:
        yield from pieces(n.args[1][0], seen, depth + 1)
    else:
        yield n


def transparent(x):
    """the value a rearrangement of bits shows"""
    while x.op in ("item", "struct") and (x.op == "item" or x.args[1]):
        x = x.args[0] if x.op == "item" else x.args[1][0]
        if not isinstance(x, N):
            return N("?")
    return x


def bare(n, view, c, party, seen=None):
    """masks of inputs that are the expansion of a seed and nothing else: (xor, expansion, inputs, seeds)"""
    seen = set() if seen is None else seen
    if n in seen or n.op == "call" and n.args[0] in HASH:
        return
    seen.add(n)
    if n.op == "xor":
        plain = [y for y in (transparent(x) for x in n.args[0]) if y.op == "param" and y in c.owner and c.owner[y] is not party and not view.known(y)]
        masks = {x: expansion(transparent(x), view) for x in n.args[0]}
        exps = [y for y in masks.values() if y is not None]
        rest = [x for x in n.args[0] if transparent(x) not in plain and masks[x] is None and not view.known(x)]
        if plain and exps and not rest:
            for e in exps:
                seed = e.args[1][0]
                if not view.known(seed) and not any(transparent(x) is transparent(seed) for x in n.args[0]):
                    yield n, e, plain
                    break
    for x in kids_n(n):
        yield from bare(x, view, c, party, seen)


def expansion(y, view):
    """the expansion of a seed, known values added to it apart"""
    if y.op == "xor":
        un = [transparent(x) for x in y.args[0] if not view.known(x)]
        return expansion(un[0], view) if len(un) == 1 else None
    return y if y.op == "call" and y.args[0] == "field.aes_expand" and y.args[1] else None


def kids_n(n):
    work = list(n.args)
    while work:
        x = work.pop()
        if isinstance(x, N):
            yield x
        elif isinstance(x, (tuple, frozenset)):
            work.extend(x)


def name(n):
    return show_n(n)


def spell(n):
    """a short, stable name of an atom"""
    if n.op == "param":
        return n.args[0]
    if n.op == "draw":
        return n.args[0].split(".")[-1]
    if n.op == "key":
        return "secret-key"
    if n.op == "subres" or subres(n) is not None:
        s = subres(n)
        path = ""
        while n is not s:
            path = f"[{n.args[1]!r}]" + path if n.op == "item" else path
            n = n.args[0] if isinstance(n.args[0], N) else n.args[0][0]
        return s.args[0].split(".")[-1] + path
    return n.op


def ranks(fi):
    import ast
    a = fi.node.args
    return {x.arg for x in [*a.posonlyargs, *a.args, *a.kwonlyargs]}


def rank_kind(n, ps):
    """True: a party of the caller's; False: not; None: not known"""
    if n.op == "param":
        return True
    if n.op == "parties":
        ks = [rank_kind(x, ps) for x in n.args[0]]
        return False if False in ks else None if None in ks else True
    if n.op == "const":
        return False
    if n.op in ("op", "call", "sum", "xor") and not any(x.op in ("?", "rec", "obj") for x in sub(n)):
        return False if not any(x.op == "param" for x in sub(n)) else None
    return None


def run(p, rep, tier):
    for r, t in RULES.items():
        rep.rule(r, t, 0)
    rs = sorted(protocols(p))
    if not rs:
        rep.broken(f"no protocol function found under {LIB}")
        return
    for q in rs:
        fi = p.functions[q]
        short = q[len(LIB) + 1:]
        try:
            c, it, rets = follow(p, fi, 16 if tier == "thorough" else 4)
        except Exception as e:  # the analysis of one function must not take the others down
            rep.notes.append(f"{short}: not followed ({type(e).__name__}: {e})")
            continue
        if getattr(it, "exhausted", False):
            rep.notes.append(f"{short}: step budget used up, some paths not followed")
        rep.saw(q)
        rep.notes.extend(c.notes)
        one_root(rep, c, fi, short, rets)


def one_root(rep, c, fi, short, rets):
    ps = ranks(fi)
    msgs, done = [], set()
    for m in c.msgs:
        if (m[0], m[1], m[2]) not in done:
            done.add((m[0], m[1], m[2]))
            msgs.append(m)
    # routes
    for who, w in dict.fromkeys(c.pcalls):
        k = rank_kind(who, ps)
        if k is False:
            rep.bad("route", f"{short}@{show_n(who)}", w, f"a local call runs at {show_n(who)}, which the caller did not name")
        elif k:
            rep.ok("route", f"{short}@{show_n(who)}", w)
    for d, s, v, w, _ in msgs:
        inst = f"{short}:{show_n(s)}->{show_n(d)}"
        for x in (d, s):
            if rank_kind(x, ps) is False:
                rep.bad("route", inst, w, f"a move uses party {show_n(x)}, which the caller did not name")
                break
        else:
            holders = c.made.get(v) or ({c.owner[v]} if v in c.owner else None)
            if holders and s.op == "param" and all(h.op == "param" for h in holders) and s not in holders:
                rep.bad("route", inst, w, f"the value moved from {show_n(s)} was made at {', '.join(sorted(map(show_n, holders)))}")
            elif rank_kind(d, ps) and rank_kind(s, ps):
                rep.ok("route", inst, w)
    if fi.qual not in DELIVER:
        for q, args, w in c.subcalls:
            s, d = args.get("sender"), args.get("receiver")
            for k in DELIVER.get(q, ()):
                if s is not None and d is not None and k in args:
                    msgs.append((d, s, args[k], w, None))
    parties = {x for d, s, *_ in msgs for x in (d, s) if x.op == "param"} | {w for w, _ in c.pcalls if w.op == "param"}
    data = {n for n in c.owner if n.op in ("param", "subres") or n.op == "item"}
    outs = set()
    for v, st in rets:
        n = c.deep(v, st)
        for x in pieces(n):
            if x.op not in ("const", "moved", "?", "rec") and x in c.made:
                outs.add(x)
    for party in sorted(parties, key=show_n):
        view = View(party, c.owner)
        view.memo = {}
        mine = [(v, f"{w}: {show_n(s)} sends it") for d, s, v, w, _ in msgs if d is party and s is not party]
        for n in c.owner:
            if c.owner[n] is party:
                view.k[n] = "its own"
        view.close(mine)
        pair(view)
        inst0 = f"{short}@{show_n(party)}"
        secret = [(n, "input" if n.op == "param" else "value") for n in data if c.owner[n] is not party and c.owner[n].op == "param"]
        secret += [(n, "blinding scalar") for n in c.owner if n.op == "draw" and n.args[0] in ("crypto.ec_random_scalar", "provider") and c.owner[n] is not party]
        secret += [(x, "secret key") for n in c.owner if n.op == "draw" and n.args[0].endswith("keygen") and c.owner[n] is not party for x in [N("key", n, _sk(n))]]
        for n, what in secret:
            inst = f"{inst0}:{spell(n)}"
            if n in view.k:
                rep.bad("leak", inst, view.k[n].split(": ")[0], f"{show_n(party)} learns the {what} {spell(n)} of {show_n(c.owner.get(n) or c.owner.get(n.args[0]))} ({view.k[n]})")
            else:
                rep.ok("leak", inst, fi.where)
        for n in outs:
            holders = c.made.get(n, set())
            if party in holders or not holders or any(h.op != "param" for h in holders):
                continue
            a = [x for x in sub(n) if x.op in ("draw", "param", "subres") and x in c.owner]
            if not a:
                continue
            if n in view.k or view.known(n):
                rep.bad("leak", f"{inst0}:output", fi.where, f"{show_n(party)} can compute an output that stays at {', '.join(map(show_n, holders))}: {show_n(n)[:200]}")
            else:
                rep.ok("leak", f"{inst0}:output", fi.where)
        for v, how in mine:
            w = how.split(": ")[0]
            inst = f"{inst0}:{fi.name}:{_site(v, c)}"
            for x in pieces(v):
                a = view.atoms0(x) if hasattr(view, "atoms0") else raw_atoms(view, x, mine)
                if a is None:
                    rep.notes.append(f"{w}: part of the message to {show_n(party)} in {short} is not followed")
                    continue
                bad = [y for y in a if y in data and c.owner.get(y) is not party]
                if a and len(bad) == len(a):
                    rep.bad("masked", inst, w, f"what {show_n(party)} receives is a function of {', '.join(sorted(map(spell, bad)))} alone, without a hash, an encryption or a mask it does not know: {show_n(x)[:160]}")
                else:
                    rep.ok("masked", inst, w)
                if any(y.op == "call" and y.args[0] == "field.aes_expand" for y in sub(x)):
                    b = next(bare(x, view, c, party), None)
                    rep.check(b is None, "one-way", inst, w, b and f"{', '.join(sorted(map(spell, b[2])))} is masked with the bare expansion of a seed, which is a public permutation of it: a known block gives away the seed and the rest of the mask")


def _sk(n):
    return 1


def _site(v, c):
    ks = sorted({spell(x) for x in sub(v) if x.op in ("param", "subres") and x in c.owner})
    return "+".join(ks)[:80]


def raw_atoms(view, x, mine):
    """atoms of a received value, its own membership in what is known set aside"""
    got = {}
    for v, _ in mine:
        for y in pieces(v):
            if y in view.k and y.op not in ("param", "draw", "key", "subres"):
                got[y] = view.k.pop(y)
        if v in view.k:
            got[v] = view.k.pop(v)
    if x.op in ("param",) and x in view.k and view.k[x] != "its own":
        got[x] = view.k.pop(x)
    view.memo = {}
    try:
        return view.atoms(x)
    finally:
        view.k.update(got)
        view.memo = {}


def all_atoms(view, xs):
    out = frozenset()
    for x in xs:
        out |= view.atoms(x) or frozenset()
    return out


def pair(view):
    """two values hidden by the same mask give their difference"""
    from rules.mpcmodel import xor
    xs = [n for n in view.k if n.op == "xor"]
    for i, a in enumerate(xs):
        for b in xs[i + 1:]:
            ua = {x for x in a.args[0] if not view.known(x)}
            ub = {x for x in b.args[0] if not view.known(x)}
            if ua & ub and ua != ub:
                if view.k[a].split(", ")[0] == view.k[b].split(", ")[0] and all_atoms(view, ua - ub) == all_atoms(view, ub - ua):
                    continue          # alternatives of one message
                d = xor([*ua, *ub]) if ua ^ ub else None
                if d is None:
                    continue
                un = list(ua ^ ub)
                at = view.atoms(d)
                if len(un) == 1:
                    view.add(un[0], view.k[a] + ", hidden by a mask used twice")
                elif at and all(x.op == "param" for x in at):
                    for x in at:
                        view.add(x, view.k[a] + ", hidden by a mask used twice")
    while view.todo:
        n = view.todo.pop()
        view.split(n, view.k[n])
