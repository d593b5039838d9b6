"""Verification of one unit: symbolic arguments, all paths, obligations from the contract."""
import itertools
import time
import traceback

from exec import *


class Arg:
    def __init__(self, name, ty):
        self.name, self.ty = name, ty


def gen(cx, ex, st, ty, name):
    """alternatives for a symbolic value of type ty: list of (label, value); one shared variable per scalar"""
    t = cx.prog.ty(ty)
    k = t["k"]
    it = cx.prog.int_ty(ty)
    if it:
        i = cx.vars.new(name, tmin(*it), tmax(*it))
        cx.inputs.append(i)
        return [("", V(i))]
    if k == "bool":
        return [(f"{name}=0", FF), (f"{name}=1", T)]
    if k == "adt" and t["name"].endswith("fmt::Formatter"):
        return [("", Opq("formatter"))]
    if k in ("tuple", "closure"):
        subs = [gen(cx, ex, st, x, f"{name}.{n}") for n, x in enumerate(t["tys"])]
        return [(",".join(a for a, _ in c if a), Agg([v for _, v in c])) for c in itertools.product(*subs)]
    if k == "array":
        subs = [gen(cx, ex, st, t["ty"], f"{name}.{n}") for n in range(t["len"])]
        return [("", Agg([v for _, v in c])) for c in itertools.product(*subs)]
    if k == "adt" and t["kind"] == "struct":
        subs = [gen(cx, ex, st, x, name if len(t["variants"][0]["tys"]) < 3 else f"{name}.{n}") for n, x in enumerate(t["variants"][0]["tys"])]
        return [(",".join(a for a, _ in c if a), Agg([v for _, v in c])) for c in itertools.product(*subs)]
    if k == "adt" and t["kind"] == "enum":
        out = []
        for n, v in enumerate(t["variants"]):
            subs = [gen(cx, ex, st, x, f"{name}.{n}") for x in v["tys"]]
            for c in itertools.product(*subs):
                out.append((f"{name}={v['name']}", En(n, [x for _, x in c])))
        return out
    if k == "ref" and (cx.prog.ty(t["ty"])["k"] == "str" or cx.prog.ty(t["ty"])["k"] == "slice" and cx.prog.int_ty(cx.prog.ty(t["ty"])["ty"]) == (8, False)):
        from text import newtext
        return [("", newtext(ex, st, name))]
    if k in ("ref", "ptr"):
        return [(a, Ref(ex.newobj(st, v), ())) for a, v in gen(cx, ex, st, t["ty"], name)]
    if t["lay"] and t["lay"]["size"] == 0:
        return [("", ex.zst(ty))]
    if k == "float" and t["lay"]["size"] == 8 and cx.f64bits:
        vs = [cx.vars.new(f"{name}.{x}", 0, (1 << b) - 1) for x, b in (("sign", 1), ("exponent", 11), ("mantissa", 52))]
        cx.inputs += vs
        return [("", Opq("fbits", V(vs[0]) * (1 << 63) + V(vs[1]) * (1 << 52) + V(vs[2]), tuple(vs)))]
    if k == "float" and t["lay"]["size"] == 8:
        return [("", Opq("fsym", name))]
    raise Unsupported(f"symbolic value of type {t['d']}")


def scalars(v):
    """flat list of the scalar leaves of a value"""
    if isinstance(v, (P, F)):
        return [v]
    if isinstance(v, Agg):
        return [x for f in v.f for x in scalars(f)]
    if isinstance(v, En):
        return [v]
    return [v]


def raw(v):
    """the single integer inside a wrapper value"""
    s = scalars(v)
    if len(s) != 1 or not isinstance(s[0], P):
        raise Unsupported(f"single integer expected, got {v!r}")
    return s[0]


class Out:
    """outcome of a path, in spec vocabulary"""

    def __init__(self, kind, val=None, msg="", loc=""):
        self.kind, self.val, self.msg, self.loc = kind, val, msg, loc

    def __repr__(self):
        return f"{self.kind} {self.val!r} {self.msg}"


def view(prog, ty, v):
    """value -> spec vocabulary: int polynomial, formula, ('Ok', x), ('Err', name), ('Some', x), ('None',), tuple, str for enums"""
    t = prog.ty(ty)
    if isinstance(v, (P, F, Opq)):
        return v
    if t["k"] == "adt" and t["kind"] == "enum":
        va = t["variants"][v.v]
        if not va["tys"]:
            return (va["name"],)
        return (va["name"],) + tuple(view(prog, x, y) for x, y in zip(va["tys"], v.f))
    if t["k"] == "tuple":
        return tuple(view(prog, x, y) for x, y in zip(t["tys"], v.f))
    if t["k"] == "adt" and t["kind"] == "struct":
        fs = [view(prog, x, y) for x, y in zip(t["variants"][0]["tys"], v.f) if not zerosized(prog, x)]
        if t["name"].endswith("ConvertError"):
            return ("Convert",)
        return fs[0] if len(fs) == 1 else tuple(fs)
    if isinstance(v, Ref):
        return v
    return v


def zerosized(prog, ty):
    l = prog.ty(ty)["lay"]
    return l is not None and l["size"] == 0


class Spec:
    """
    pre(s, args) -> formula ;  post(s, args, out) -> [(label, formula)]
    split(args) -> list of formulas covering all inputs (case split), optional
    """

    def __init__(self, post, pre=None, split=None, label=""):
        self.post, self.pre, self.split, self.label = post, pre, split, label
        self.prep = None


class SymS:
    """symbolic services for specs"""
    concrete = False

    def __init__(self, ex, st):
        self.ex, self.st = ex, st

    def divrem(self, n, d):
        return self.ex.divrem(self.st, asP(n), asP(d))

    def fork(self, f):
        return self.ex.need(self.st, f)

    def const(self, p):
        p = self.st.norm(asP(p))
        if p.is_const():
            return p.const()
        lo, hi = self.st.range(p)
        return lo if lo == hi else None

    def fresh(self, name, lo, hi):
        return self.ex.newvar(self.st, name, lo, hi)

    def pow2(self, sh):
        """2^sh"""
        c = self.const(sh)
        if c is not None:
            return K(1 << c)
        g = self.st.ghost.get("pow2") or {}
        sh = self.st.norm(asP(sh))
        t = g.get(sh.single_var())
        if t is None:
            lo, hi = self.st.range(sh)
            if hi - lo > 300:
                raise Unsupported("power of two without a name")
            raise Fork([eq(sh, i) for i in range(lo, hi + 1)])
        return t

    def name_pow2(self, sh, t):
        """t stands for 2^sh"""
        g = dict(self.st.ghost.get("pow2") or {})
        g[sh.single_var()] = t
        self.st.ghost["pow2"] = g


class ConS:
    """concrete services for specs (evaluation on actual values)"""
    concrete = True

    def divrem(self, n, d):
        n, d = asP(n).const(), asP(d).const()
        q = abs(n) // abs(d)
        if (n < 0) != (d < 0):
            q = -q
        return K(q), K(n - q * d)

    def fork(self, f):
        return f.is_true()

    def const(self, p):
        return asP(p).const()


def count_parts(prog, key):
    """number of argument alternatives of a root (round modes, booleans, ...)"""
    cx = Cx(prog, "count")
    ex, fn = Ex(cx), prog.fns[key]
    n = 1
    for t in fn["locals"][1:1 + fn["argc"]]:
        n *= len(gen(cx, ex, St(cx), t, "a"))
    return n


def verify(prog, key, spec, contracts=(), name=None, ex_cls=Ex, part=None, **kw):
    """returns dict with obligations and statistics; part selects one argument alternative"""
    t0 = time.time()
    fn = prog.fns[key]
    cx = Cx(prog, name or fn["sname"], contracts, **kw)
    ex = ex_cls(cx)
    cx.unit_contract = getattr(spec, "contract", None)
    st = St(cx)
    res = {"unit": cx.name, "obls": cx.obls, "error": None}
    names = {n: nm for nm, n in fn["vars"]}
    npost = [0]
    nret = [0]
    samples = []
    cx.samples = samples
    try:
        argtys = fn["locals"][1:1 + fn["argc"]]
        alts = [gen(cx, ex, st, t, names.get(i + 1, f"a{i}")) for i, t in enumerate(argtys)]
        rty = fn["locals"][0]
        for pi, combo in enumerate(itertools.product(*alts)):
            if part is not None and pi != part:
                continue
            label = ",".join(a for a, _ in combo if a)
            argv = [v for _, v in combo]
            sargs = argv if getattr(spec, "raw", False) else [view(prog, t, v) for t, v in zip(argtys, argv)]
            cx.sargs = sargs
            feas = 0
            for base, sargs in prepare(ex, st.copy(), spec, sargs):
                cx.sargs = sargs
                cases = spec.split(sargs) if spec.split else [T]
                for ci, case in enumerate(cases):
                    if not base.feasible(case):
                        continue
                    feas += 1
                    s0 = base.copy()
                    s0.assume(case)
                    cx.alt = (label, id(base), ci)
                    cx.base = s0.copy()
                    ex.push(s0, key, argv, None, None)
                    pn = [0]

                    def term(s, t, label=label, ci=ci, sargs=sargs, pn=pn):
                        pn[0] += 1
                        pname = "/".join(x for x in (cx.name, label, f"case{ci}" if len(cases) > 1 else "", f"path{pn[0]}") if x)
                        finish_path(cx, ex, s, t, spec, sargs, rty, pname, nret, label)
                    ex.run(s0, term)
            if feas == 0:
                cx.obl(f"{cx.name}/{label}/precondition-satisfiable", "vacuous")
        if getattr(spec, "relate", None):
            for nm, r, sa in spec.relate(cx, cx.relate):
                cx.obl(f"{cx.name}/{nm}", r[0], r[1] if r[0] == "proved" else "")
                if r[0] != "proved":
                    cx.obls[-1]["args"] = [concretise(x, r[1]) for x in sa] if r[1] else None
    except Unsupported as e:
        res["error"] = str(e) or "unsupported"
        if kw.get("debug"):
            traceback.print_exc()
    except (KeyError, IndexError, AttributeError, TypeError, ValueError, RecursionError, NotImplementedError, ZeroDivisionError) as e:
        res["error"] = f"internal: {type(e).__name__}: {e}"
        res["trace"] = traceback.format_exc()
        if kw.get("debug"):
            traceback.print_exc()
    res.update(paths=cx.npaths, returns=nret[0], asserts=cx.checked_asserts, q=cx.stats.q, t=cx.stats.t, inlined=cx.inlined,
               contracts=cx.used_contracts, wall=time.time() - t0, samples=samples, inputs=[(i, cx.vars.name[i]) for i in cx.inputs])
    return res


def prepare(ex, st, spec, sargs):
    """entry states satisfying the precondition, with the arguments in spec vocabulary"""
    out, work = [], [st]
    while work:
        s = work.pop()
        base = s.copy()
        try:
            sv = SymS(ex, s)
            a = spec.prep(sv, sargs) if spec.prep else sargs
            if spec.pre is not None:
                f = spec.pre(sv, a)
                if not s.feasible(f):
                    continue
                s.assume(f)
            out.append((s, a))
        except Fork as fk:
            for c in fk.conds:
                if base.feasible(c):
                    n = base.copy()
                    n.assume(c)
                    work.append(n)
    return out


def finish_path(cx, ex, s, t, spec, sargs, rty, pname, nret, label):
    cx_vars = cx.vars
    work = [s]
    while work:
        s1 = work.pop()
        base = s1.copy()
        try:
            if t.kind == "ret":
                raw = deep_rd(ex, s1, t.val)
                o = Out("ret", raw if getattr(spec, "raw", False) else view(cx.prog, rty, raw))
                o.raw = raw
                if not getattr(spec, "raw", False) and not s1.ghost.get("merged") and (not nret[0] or len(cx.samples) < 4):
                    r, env = s1.sat([], 3, 1500, "all")
                    if r == "sat":
                        cx.samples.append({"args": [concretise(x, env) for x in sargs], "out": concretise(o.val, env)})
                nret[0] += 1
            else:
                o = Out("panic", None, f"{t.kind}:{t.val}", t.loc)
            posts = spec.post(SymS(ex, s1), sargs, o)
        except Fork as fk:
            # what the contract has named so far stays named
            for c in fk.conds:
                if s1.feasible(c):
                    n = s1.copy()
                    n.assume(c)
                    work.append(n)
            continue
        where = f"@{o.loc}" if o.kind == "panic" else ""
        # infeasible path?
        for lab, f in posts:
            r = s1.prove(f)
            nm = f"{pname}{where}/{lab}"
            if r[0] == "proved":
                cx.obl(nm, "proved", r[1])
            else:
                env = r[1]
                d = {cx_vars.name[i]: v for i, v in env.items()} if env else None
                cx.obl(nm, r[0], "", d, f"outcome {o.kind} {o.msg} {str(o.val)[:200]}")
                cx.obls[-1]["args"] = [concretise(x, env) for x in sargs] if env else None


def deep_rd(ex, st, v):
    v = ex.rd(st, v)
    if isinstance(v, Agg):
        return Agg([deep_rd(ex, st, x) for x in v.f])
    if isinstance(v, En):
        return En(v.v, [deep_rd(ex, st, x) for x in v.f])
    return v


def concretise(v, env):
    if isinstance(v, Ref):
        return "?"
    if isinstance(v, Opq) and v.kind == "fbits":
        n = concretise(v.a[0], env) if isinstance(v.a[0], P) else v.a[0]
        return n if n == "?" else ("%016x" % n,)
    if isinstance(v, P):
        try:
            return eval_poly(v, env)
        except KeyError:
            return "?"
    if isinstance(v, F):
        try:
            return eval_formula(v, env)
        except KeyError:
            return "?"
    if isinstance(v, tuple):
        return tuple(concretise(x, env) for x in v)
    return v
