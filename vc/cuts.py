"""Loop cut points: invariants proved at every arrival and assumed after the modified state is forgotten."""
from exec import *


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "assert":
        return [t[3]]
    if k == "call":
        return [t[5]] if t[5] is not None else []
    if k == "drop":
        return [t[2]]
    return []


def loops(fn):
    """natural loops of a body: ordered list of (head, blocks, locals written or borrowed inside)"""
    c = fn.get("_loops")
    if c is not None:
        return c
    body = fn["body"]
    n = len(body)
    succ = [succs(b["t"]) for b in body]
    pred = [[] for _ in range(n)]
    reach, work = {0}, [0]
    while work:
        b = work.pop()
        for x in succ[b]:
            pred[x].append(b)
            if x not in reach:
                reach.add(x)
                work.append(x)
    dom = {b: set(reach) for b in reach}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in sorted(reach - {0}):
            ps = [dom[p] for p in pred[b] if p in reach]
            d = set.intersection(*ps) | {b} if ps else {b}
            if d != dom[b]:
                dom[b] = d
                ch = True
    heads = {}
    for b in reach:
        for x in succ[b]:
            if x in dom[b]:
                heads.setdefault(x, set()).add(b)
    out = []
    for h in sorted(heads):
        blocks, work = {h}, list(heads[h])
        while work:
            b = work.pop()
            if b in blocks:
                continue
            blocks.add(b)
            work += [p for p in pred[b] if p in reach]
        mod = set()
        for b in blocks:
            for s in body[b]["s"]:
                if s[0] == "=":
                    if "*" not in s[1][1:]:
                        mod.add(s[1][0])
                    rv = s[2]
                    if (rv[0] == "addr" or rv[0] == "ref" and rv[2]) and "*" not in rv[1][1:]:
                        mod.add(rv[1][0])
                elif s[0] in ("dead",):
                    mod.add(s[1])
                elif s[0] == "sd":
                    mod.add(s[1][0])
            t = body[b]["t"]
            if t[0] == "call" and "*" not in t[4][1:]:
                mod.add(t[4][0])
        out.append((h, blocks, mod))
    fn["_loops"] = out
    return out


def join(fn, loop, k):
    """where the k-th branch after a loop comes together again"""
    body = fn["body"]
    ls = loops(fn)
    if loop >= len(ls):
        raise Unsupported(f"no loop number {loop} in {fn['sname']}")
    head, blocks, _ = ls[loop]
    work, seen, sw = [x for b in sorted(blocks) for x in succs(body[b]["t"]) if x not in blocks], [], []
    # blocks from which the function returns
    n = len(body)
    good = {b for b in range(n) if body[b]["t"][0] == "ret"}
    ch = True
    while ch:
        ch = False
        for b in range(n):
            if b not in good and any(x in good for x in succs(body[b]["t"])):
                good.add(b)
                ch = True
    reach = set()
    while work:
        b = work.pop()
        if b in reach or b in blocks or b not in good:
            continue
        reach.add(b)
        work += succs(body[b]["t"])
    order, seen, stack = [], set(), []

    def visit(b):
        # reverse postorder without recursion
        stack.append((b, iter(sorted((x for x in succs(body[b]["t"]) if x in reach), reverse=True))))
        seen.add(b)
        while stack:
            y, it = stack[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    stack.append((x, iter(sorted((z for z in succs(body[x]["t"]) if z in reach), reverse=True))))
                    break
            else:
                order.append(y)
                stack.pop()
    for b in sorted({x for b in blocks for x in succs(body[b]["t"]) if x in reach}):
        if b not in seen:
            visit(b)
    order.reverse()
    sw = [b for b in order if body[b]["t"][0] == "switch" and len({x for x in succs(body[b]["t"]) if x in reach}) > 1]
    if k >= len(sw):
        raise Unsupported(f"no branch number {k} after loop {loop} in {fn['sname']}")
    # immediate postdominator
    post = {b: set(reach) for b in reach}
    for b in reach:
        if body[b]["t"][0] == "ret":
            post[b] = {b}
    ch = True
    while ch:
        ch = False
        for b in reversed(order):
            ss = [x for x in succs(body[b]["t"]) if x in reach]
            if ss:
                p = set.intersection(*[post[x] for x in ss]) | {b}
                if p != post[b]:
                    post[b] = p
                    ch = True
    cand = post[sw[k]] - {sw[k]}
    for x in cand:
        if all(x == y or y in post[x] for y in cand):
            return x
    raise Unsupported(f"branch number {k} after loop {loop} does not come together")


def varnames(fn):
    """names of a function's variables, the k-th variable of a name as name'k"""
    out, seen = [], {}
    for n, l in fn["vars"]:
        ls = seen.setdefault(n, [])
        if l not in ls:
            ls.append(l)
            out.append(n if len(ls) == 1 else f"{n}'{len(ls)}")
    return out


RECORDED = None


def renamed(rx, fn, name):
    """a variable the invariants know by another name: what stands in its place among the others"""
    global RECORDED
    import difflib
    import json
    import os
    if RECORDED is None:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "names.json")
        RECORDED = json.load(open(p)) if os.path.exists(p) else {}
    old, new = RECORDED.get(rx, []), varnames(fn)
    for tag, i, j, k, l in difflib.SequenceMatcher(None, old, new, autojunk=False).get_opcodes():
        if tag == "replace" and j - i == l - k and name in old[i:j]:
            return new[k + old[i:j].index(name)]
    return None


class Cut:
    """
    fn: regex over function names, idx: which loop head of it (block order)
    inv(s, e, a) -> [(label, formula)], e maps debug names ("y", second binding "y'2") to spec values, a: unit arguments
    defs(s, e, a) -> [(name, poly)] values used instead of fresh variables (equality is an obligation)
    merge: forget everything but the unit's entry facts and the invariant; live: names that survive
    concrete: names whose value is kept as it is and distinguishes the arrivals; carry: the same for symbolic values
    havoc: names the loop leaves alone whose values are forgotten all the same
    lemma(s, e, a) -> [(label, formula)]: consequences of the invariant, proved once it is all that is known
    enter(s, e, a): sets ghost state of the forgotten state, before the invariant is assumed
    idx: a loop number, or (loop, k): where the k-th branch after that loop comes together again
    """

    def __init__(self, fn, idx, inv, defs=None, merge=False, live=(), concrete=(), havoc=(), variant=None, ranges=None, carry=(), enter=None, name=None, lemma=None):
        import re
        self.rx, self.idx, self.inv, self.defs = re.compile(fn), idx, inv, defs
        self.merge, self.live, self.concrete, self.havoc, self.variant = merge, live, concrete, havoc, variant
        self.ranges = ranges or {}
        self.carry, self.enter, self.name, self.lemma = carry, enter, name, lemma


class Env:
    def __init__(self, ex, st, fr, rx=None):
        self.ex, self.st, self.fr, self.rx = ex, st, fr, rx

    def local(self, name):
        n, k = (name.split("'") + ["1"])[:2]
        ls = [l for nm, l in self.fr.fn["vars"] if nm == n]
        ls = list(dict.fromkeys(ls))
        if len(ls) < int(k):
            other = renamed(self.rx, self.fr.fn, name) if self.rx else None
            if other is not None:
                return Env(self.ex, self.st, self.fr).local(other)
            raise Unsupported(f"invariant mentions {name}, which {self.fr.fn['sname']} does not have")
        l = ls[int(k) - 1]
        if self.st.mem.get((self.fr.id, l)) is None:
            # a variable of the same name is the one alive here
            live = [x for x in ls if self.st.mem.get((self.fr.id, x)) is not None]
            if len(live) == 1:
                return live[0]
        return l

    def __getitem__(self, name):
        from deps import argval
        l = self.local(name)
        v = self.st.mem.get((self.fr.id, l))
        if v is None:
            raise Unsupported(f"{name} has no value at the cut point")
        return argval(self.ex, self.st, self.fr.fn["locals"][l], self.ex.rd(self.st, v))

    def has(self, name):
        return self.st.mem.get((self.fr.id, self.local(name))) is not None


def kept(st, frames, more):
    """locals of these frames and every object reachable from them"""
    out = {k: v for k, v in st.mem.items() if k[0] in frames}
    work = list(out.values()) + list(more)
    while work:
        v = work.pop()
        if isinstance(v, Ref):
            if v.obj not in out and v.obj in st.mem:
                out[v.obj] = st.mem[v.obj]
                work.append(st.mem[v.obj])
        elif isinstance(v, (Agg, En)):
            work += [x for x in (v.f or ()) if x is not None]
    return out


def concrete_key(v):
    r = repr(v)
    if "v" in r.replace("view", ""):
        raise Unsupported("cut point key is symbolic: " + r[:80])
    return r


def at_cut(ex, st, fr, cut, head, blocks, mod):
    """called when control reaches a cut point; returns successor states"""
    from deps import SymD
    cx = ex.cx
    e = Env(ex, st, fr, cut.rx.pattern)
    s = SymD(ex, st)
    a = cx.sargs
    nm = f"{cx.name}/{cut.name or 'loop' + str(cut.idx)}"
    ctx = fr.loopctx.get(head)
    kind = "entry" if ctx is None or cut.merge else "preserved"
    if cut.merge:
        kind = "established"
    for lab, f in cut.inv(s, e, a):
        r = st.prove(f)
        cx.obl(f"{nm}/{kind}/{lab}", r[0], r[1] if r[0] == "proved" else "", None, "")
        if r[0] != "proved":
            sa = getattr(cx, "sargs", None)
            env = r[1]
            from unit import concretise
            cx.obls[-1]["args"] = [concretise(x, env) for x in sa] if sa and env else None
            st.assume(f)
    if cut.defs:
        for n, p in cut.defs(s, e, a):
            r = st.prove(eq(e[n], p))
            cx.obl(f"{nm}/{kind}/value of {n}", r[0], r[1] if r[0] == "proved" else "", None, "")
    ck = tuple((n, concrete_key(st.mem[(fr.id, e.local(n))])) for n in cut.concrete)
    ck += tuple((n, repr(st.mem[(fr.id, e.local(n))])) for n in cut.carry)
    if cut.merge and cut.variant is not None and (st.ghost.get("cutvariant") or (None,))[0] == (cut.rx.pattern, cut.idx):
        f = And(lt(cut.variant(s, e, a), st.ghost["cutvariant"][1]), ge(cut.variant(s, e, a), 0))
        r = st.prove(f)
        cx.obl(f"{nm}/decreases", r[0], r[1] if r[0] == "proved" else "", None, "")
    if ctx is not None and cut.variant is not None and not cut.merge:
        old = ctx["variant"].get(fr.looplast.get(head))
        if old is not None:
            new = cut.variant(s, e, a)
            f = And(lt(new, old), ge(old, 0))
            r = st.prove(f)
            cx.obl(f"{nm}/decreases", r[0], r[1] if r[0] == "proved" else "", None, "")
    if cut.merge:
        seen = cx.cutseen.setdefault((cut.idx, cut.rx.pattern, cx.alt), set())
        outer = {}
        if len(st.frames) != 1:
            # the callers' state stays as it is and distinguishes the arrivals
            outer = kept(st, [f.id for f in st.frames[:-1]] , [st.mem.get((fr.id, i)) for i in range(1, fr.fn["argc"] + 1)])
            ck += (tuple((f.fn["sname"], f.bb, f.si) for f in st.frames[:-1]), repr(sorted(outer.items(), key=repr)), repr([st.mem.get((fr.id, i)) for i in range(1, fr.fn["argc"] + 1) if i not in mod]))
        if ck in seen:
            return []
        seen.add(ck)
        n = cx.base.copy()
        n.mem.update(outer)
        nf = fr.copy()
        n.frames = [f.copy() for f in st.frames[:-1]] + [nf]
        n.ghost = {k: v for k, v in st.ghost.items() if k in ("pow2",)}
        n.ghost["merged"] = True
        argc = fr.fn["argc"]
        for i in range(1, argc + 1):
            if i not in mod and (fr.id, i) in st.mem:
                n.mem[(fr.id, i)] = st.mem[(fr.id, i)]
        keep = {e.local(x): x for x in cut.live}
        for x in tuple(cut.concrete) + tuple(cut.carry):
            n.mem[(fr.id, e.local(x))] = st.mem[(fr.id, e.local(x))]
        src, hav = st, keep
    else:
        if ctx is None:
            snap = st.copy()
            sf = snap.frames[-1]
            ctx = {"snap": snap, "seen": set(), "variant": {}}
            sf.loopctx = dict(sf.loopctx)
            sf.loopctx[head] = ctx
            for f in (fr,):
                f.loopctx = dict(f.loopctx)
                f.loopctx[head] = ctx
        else:
            # nothing outside the loop's own variables may have changed
            sm = ctx["snap"].mem
            given = {e.local(n) for n in cut.havoc} | ({e.local(n) for n, _ in cut.defs(s, e, a)} if cut.defs else set())
            for k, v in st.mem.items():
                if k in sm and k[0] != "A" and not (k[0] == fr.id and (k[1] in mod or k[1] in given)) and v is not sm[k] and repr(v) != repr(sm[k]):
                    raise Unsupported(f"loop modifies state outside the function: {k}")
        if ck in ctx["seen"]:
            return []
        ctx["seen"].add(ck)
        n = ctx["snap"].copy()
        nf = n.frames[-1]
        names = {}
        for nme, l in fr.fn["vars"]:
            # what was not initialised on entry is not live at the loop head
            if l in mod and (fr.id, l) in st.mem and st.mem[(fr.id, l)] is not None and ctx["snap"].mem.get((fr.id, l)) is not None:
                k = sum(1 for x in names.values() if x.split("'")[0] == nme)
                names.setdefault(l, nme if not k else f"{nme}'{k + 1}")
        conc = {e.local(x) for x in cut.concrete}
        hav = {l: x for l, x in names.items() if l not in conc}
        hav.update({e.local(x): x for x in cut.havoc})
        for l in mod:
            if l not in hav and l not in conc:
                n.mem.pop((fr.id, l), None)
        for l in conc:
            n.mem[(fr.id, l)] = st.mem[(fr.id, l)]
        src = st
    nf.bb, nf.si, nf.tag = head, 0, ("cut", head)
    nf.visits = {}
    from unit import gen
    ne = Env(ex, n, nf, cut.rx.pattern)
    pw = dict(n.ghost.get("pow2") or {})
    for l, x in hav.items():
        old = src.mem.get((fr.id, l))
        if old is None:
            raise Unsupported(f"{x} has no value at the cut point")
        ni = len(cx.inputs)
        alts = gen(cx, ex, n, fr.fn["locals"][l], x)
        del cx.inputs[ni:]
        if len(alts) != 1:
            raise Unsupported(f"havoc of {x}")
        v = alts[0][1]
        n.mem[(fr.id, l)] = v
        old = ex.rd(st, old)
        if isinstance(old, P) and isinstance(v, P) and old.single_var() in pw:
            t = pw.pop(old.single_var())
            tv = t.single_var()
            pw[v.single_var()] = V(cx.vars.new("pow", cx.vars.lo[tv], cx.vars.hi[tv]))
    if pw:
        n.ghost["pow2"] = pw
    outs, work = [], [n]
    while work:
        x = work.pop()
        keep0 = x.copy()
        try:
            xf = x.frames[-1]
            xe, s2 = Env(ex, x, xf, cut.rx.pattern), SymD(ex, x)
            if cut.enter is not None:
                cut.enter(s2, xe, a)
            if cut.defs:
                for nm2, p in cut.defs(s2, xe, a):
                    l = (xf.id, xe.local(nm2))
                    x.mem[l] = Opq("u256", p) if ex.prog.ty(xf.fn["locals"][l[1]])["k"] == "adt" else p
            for lab, f in cut.inv(s2, xe, a):
                x.assume(f)
            for lab, f in (cut.lemma(s2, xe, a) if cut.lemma and x.feasible(T) else ()):
                r = x.prove(f)
                cx.obl(f"{nm}/lemma/{lab}", r[0], r[1] if r[0] == "proved" else "", None, "")
                x.assume(f)
            if cut.variant is not None and cut.merge:
                x.ghost["cutvariant"] = ((cut.rx.pattern, cut.idx), cut.variant(s2, xe, a))
            if cut.variant is not None and not cut.merge:
                ctx["variant"][ck] = cut.variant(s2, xe, a)
                xf.looplast = dict(xf.looplast)
                xf.looplast[head] = ck
            if x.feasible(T):
                outs.append(x)
        except Fork as fk:
            for c in fk.conds:
                if keep0.feasible(c):
                    y = keep0.copy()
                    y.assume(c)
                    work.append(y)
    return outs
