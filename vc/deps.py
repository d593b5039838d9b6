"""Contracts of functions the public operations rely on: used at call sites and proved as units of their own."""
import re

from exec import *
from cuts import Cut
from unit import Spec, SymS, view, Out, scalars
from text import istext, win, Txt

B64 = 1 << 64
B255, B256 = 1 << 255, 1 << 256


# ------------------------------------------------------------ 256-bit values
def u256val(ex, st, v):
    v = ex.rd(st, v)
    if isinstance(v, Opq) and v.kind == "u256":
        return st.norm(v.a[0])
    if isinstance(v, Agg) and len(v.f) == 1:
        arr = v.f[0]
        return limbs_val([ex.asint(st, x) for x in arr.f])
    raise Unsupported(f"U256 value {v!r}")


def limbs_val(ls):
    t = ZERO
    for i, x in enumerate(ls):
        t = t + asP(x) * (1 << (64 * i))
    return t


def i256val(ex, st, v):
    v = ex.rd(st, v)
    if isinstance(v, Opq) and v.kind == "i256":
        return st.norm(v.a[0])
    if isinstance(v, Agg) and len(v.f) == 1:
        u = u256val(ex, st, v.f[0])
        if ex.need(st, ge(u, B255)):
            return u - B256
        return u
    raise Unsupported(f"I256 value {v!r}")


def tyname(prog, ty):
    t = prog.ty(ty)
    return t.get("name", "") if t["k"] == "adt" else ""


def build(ex, st, ty, w):
    """value of type ty from spec vocabulary"""
    prog = ex.prog
    t = prog.ty(ty)
    n = tyname(prog, ty)
    if n.endswith("i256::I256"):
        return Opq("i256", asP(w))
    if n.endswith("u256::U256"):
        return Opq("u256", asP(w))
    if t["k"] == "int":
        return asP(w)
    if t["k"] == "bool":
        return w if isinstance(w, F) else (eq(w, 1) if isinstance(w, P) else (T if w else FF))
    if t["k"] == "adt" and t["kind"] == "enum":
        for i, v in enumerate(t["variants"]):
            if v["name"] == w[0]:
                return En(i, [build(ex, st, x, y) for x, y in zip(v["tys"], w[1:])])
        raise Unsupported(f"no variant {w} in {t['d']}")
    if t["k"] == "tuple":
        return Agg([build(ex, st, x, y) for x, y in zip(t["tys"], w)])
    if t["k"] == "array":
        return Agg([build(ex, st, t["ty"], y) for y in w])
    if t["k"] == "adt" and t["kind"] == "struct":
        if n.endswith("ConvertError"):
            # the reason is not part of any contract
            return Agg([Opq("reason") for x in t["variants"][0]["tys"]])
        fs = t["variants"][0]["tys"]
        out = []
        for x in fs:
            l = prog.ty(x)["lay"]
            out.append(ex.zst(x) if l and l["size"] == 0 else build(ex, st, x, w))
        return Agg(out)
    raise Unsupported(f"contract result of type {t['d']}")


def argval(ex, st, ty, v):
    """argument -> spec vocabulary, 256-bit numbers as their mathematical value"""
    prog = ex.prog
    t = prog.ty(ty)
    if t["k"] in ("ref", "ptr") and isinstance(v, Ref):
        if istext(st, v):
            return v
        return argval(ex, st, t["ty"], ex.load(st, v.obj, v.path, v.view))
    n = tyname(prog, ty)
    if n.endswith("i256::I256"):
        return i256val(ex, st, v)
    if n.endswith("u256::U256"):
        return u256val(ex, st, v)
    if t["k"] in ("int", "char"):
        return ex.asint(st, v)
    if t["k"] == "bool":
        return ex.asbool(st, v)
    if t["k"] == "tuple":
        return tuple(argval(ex, st, x, y) for x, y in zip(t["tys"], v.f))
    if t["k"] == "array":
        return tuple(argval(ex, st, t["ty"], x) for x in v.f)
    if t["k"] == "adt" and t["kind"] == "enum":
        va = t["variants"][v.v]
        return (va["name"],) + tuple(argval(ex, st, x, y) for x, y in zip(va["tys"], v.f))
    if t["k"] == "adt" and t["kind"] == "struct":
        if n.endswith("ConvertError"):
            return ("Convert",)
        fs = [argval(ex, st, x, y) for x, y in zip(t["variants"][0]["tys"], v.f) if (prog.ty(x)["lay"] or {}).get("size") != 0]
        return fs[0] if len(fs) == 1 else tuple(fs)
    if t["k"] == "float" and isinstance(v, Opq):
        return v
    raise Unsupported(f"contract argument of type {t['d']}")


def same(a, b):
    """equality of two spec values"""
    if isinstance(a, Opq) and isinstance(b, Opq):
        return T if akey(a) == akey(b) else FF
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b) or [x for x in a if isinstance(x, str)] != [x for x in b if isinstance(x, str)]:
            return FF
        return And(*[same(x, y) for x, y in zip(a, b)])
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        return FF
    if isinstance(a, str) or isinstance(b, str):
        return T if a == b else FF
    if isinstance(a, F) or isinstance(b, F):
        fa = a if isinstance(a, F) else (T if a else FF)
        fb = b if isinstance(b, F) else (T if b else FF)
        return Iff(fa, fb)
    return eq(a, b)


class SymD(SymS):
    """services for contracts at a call site"""


def times(s, f, p):
    """what is known multiplied by p (p >= 0 for an inequality)"""
    st = s.st
    if f.op not in ("eq", "ge") or st.prove(f)[0] != "proved" or (f.op == "ge" and st.range(st.norm(p))[0] < 0):
        return
    st.assume(F(f.op, f.a * p))


class Contract:
    """
    name; rx: regex over callee names
    pre(s, a) -> [(label, formula)]                obligations at call sites, assumptions in the unit
    cases(s, a) -> [(formula, view)]               result as a function of the arguments, or
    rel(s, a, r) -> [(label, formula)], fresh(s, a) -> view with fresh variables
    """

    def __init__(self, name, rx, pre=None, cases=None, fun=None, rel=None, fresh=None, split=None, uses=(), loops=(), note="", parts=None, nonlin=False, check=None, kw=None, trusted=None, measure=None, memo=False):
        self.memo = memo
        self.measure = measure
        self.check, self.trusted = check, trusted
        self.name, self.rx = name, re.compile(rx)
        self.pre, self.cases, self.fun, self.rel, self.fresh, self.split = pre, cases, fun, rel, fresh, split
        self.uses, self.loops, self.note, self.parts = uses, loops, note, parts
        self.kw = kw or {}

    # ---- call site
    def handler(self, ex, st, fr, fn, args, tys, dty):
        a = [argval(ex, st, t, v) for t, v in zip(tys, args)]
        s = SymD(ex, st)
        if self.pre:
            for lab, f in self.pre(s, a):
                r = st.prove(f)
                if r[0] != "proved":
                    env = r[1]
                    ex.cx.obl(f"{ex.cx.name}/call {self.name}/requires {lab}", r[0], "", None, f"arguments {a} of {fn['sname']}")
                    sa = getattr(ex.cx, "sargs", None)
                    ex.cx.obls[-1]["args"] = [concretise0(x, env) for x in sa] if sa and env else None
                else:
                    ex.cx.obl(f"{ex.cx.name}/call {self.name}/requires {lab}", "proved", r[1])
                st.assume(f)
        if self.measure and ex.cx.unit_contract is self:
            new, old = self.measure(s, a), self.measure(s, ex.cx.sargs)
            r = st.prove(And(ge(new, 0), lt(new, old)))
            ex.cx.obl(f"{ex.cx.name}/recursion decreases", r[0], r[1] if r[0] == "proved" else "")
        if self.fun:
            return build(ex, st, dty, self.fun(s, a))
        if self.cases:
            return [(c, build(ex, st, dty, w)) for c, w in self.cases(s, a)]
        if self.memo:
            k = (self.name, akey(a))
            g = st.ghost.get("memo") or {}
            if k in g:
                return build(ex, st, dty, g[k])
        w = self.fresh(s, a)
        for lab, f in self.rel(s, a, w):
            st.assume(f)
        if self.memo:
            st.ghost["memo"] = {**(st.ghost.get("memo") or {}), k: w}
        return build(ex, st, dty, w)

    def entry(self):
        return (self.rx, self.handler)

    def entries(self):
        """contracts in force inside this function's own unit"""
        return [CONTRACTS[u].entry() for u in self.uses if u in CONTRACTS] + [FSQRT]

    # ---- unit
    def spec(self, prog, key):
        fn = prog.fns[key]
        tys = fn["locals"][1:1 + fn["argc"]]
        rty = fn["locals"][0]

        def prep(s, raw):
            return [argval(s.ex, s.st, t, v) for t, v in zip(tys, raw)]

        def pre(s, a):
            if self.pre is None:
                return T
            for _, f in self.pre(s, a):
                if not s.st.feasible(f):
                    return FF
                s.st.assume(f)
            return T

        def post(s, a, o):
            if o.kind == "panic":
                return [("no-panic", FF)]
            r = argval(s.ex, s.st, rty, o.raw)
            if self.check:
                return self.check(s, a, r)
            if self.fun:
                return [("result", same(r, self.fun(s, a)))]
            if self.cases:
                return [("result", Or(*[And(c, same(w, r)) for c, w in self.cases(s, a)]))]
            return self.rel(s, a, r)
        sp = Spec(post, pre=pre, split=self.split)
        sp.prep = prep
        sp.raw = True
        sp.contract = self
        return sp


def concretise0(x, env):
    from unit import concretise
    return concretise(x, env)


def contains(lo, hi, *vs):
    return And(*[And(ge(v, lo), le(v, hi)) for v in vs])


I = r"^<fixnum::i256::I256 as "
U = r"^<fixnum::i256::u256::U256 as "
UM = r"^fixnum::i256::u256::U256::"
LO, HI = -B255, B255 - 1

ORD = lambda x, y: [(lt(x, y), ("Less",)), (eq(x, y), ("Equal",)), (gt(x, y), ("Greater",))]
POW = [1 << i for i in range(257)]


def notmin(*xs):
    return [("operand is not MIN", And(*[gt(x, LO) for x in xs]))]


CONTRACTS = {}


def asbit(f, n):
    """boolean f equals n"""
    if isinstance(f, F):
        return f if n else Not(f)
    return eq(f, n)




def add(c):
    CONTRACTS[c.name] = c


add(Contract("I256::from", r"^<fixnum::i256::I256 as std::convert::From<i128>>::from$|^fixnum::i256::I256::from_i128$", fun=lambda s, a: a[0]))
add(Contract("I256::neg", I + r"std::ops::Neg>::neg$", pre=lambda s, a: notmin(a[0]), fun=lambda s, a: -a[0]))
add(Contract("I256::add", I + r"std::ops::Add>::add$", pre=lambda s, a: [("sum fits", contains(LO, HI, a[0] + a[1]))], fun=lambda s, a: a[0] + a[1]))
add(Contract("I256::sub", I + r"std::ops::Sub>::sub$", pre=lambda s, a: [("difference fits", contains(LO, HI, a[0] - a[1]))], fun=lambda s, a: a[0] - a[1]))
add(Contract("I256::mul", I + r"std::ops::Mul>::mul$", pre=lambda s, a: notmin(*a) + [("product fits", contains(LO + 1, HI, a[0] * a[1]))], fun=lambda s, a: a[0] * a[1],
             uses=("I256::neg", "U256::mul")))
add(Contract("I256::div", I + r"std::ops::Div>::div$", pre=lambda s, a: notmin(*a) + [("divisor is not zero", ne(a[1], 0)), ("divisor within 128 bits", contains(1 - (1 << 128), (1 << 128) - 1, a[1]))], fun=lambda s, a: s.divrem(a[0], a[1])[0],
             uses=("I256::neg", "U256::div")))
for _n, _f in (("lt", lt), ("le", le), ("gt", gt), ("ge", ge)):
    add(Contract(f"I256::{_n}", I + rf"std::cmp::PartialOrd>::{_n}$", fun=lambda s, a, f=_f: f(a[0], a[1])))
add(Contract("I256::cmp", I + r"std::cmp::Ord>::cmp$", cases=lambda s, a: ORD(a[0], a[1])))
add(Contract("I256::partial_cmp", I + r"std::cmp::PartialOrd>::partial_cmp$", cases=lambda s, a: [(c, ("Some", w)) for c, w in ORD(a[0], a[1])]))
add(Contract("I256::eq", I + r"std::cmp::PartialEq>::eq$", fun=lambda s, a: eq(a[0], a[1])))
add(Contract("i128::try_from", r"TryFrom<fixnum::i256::I256> for i128>::try_from$",
             cases=lambda s, a: [(contains(-(1 << 127), (1 << 127) - 1, a[0]), ("Ok", a[0])), (Not(contains(-(1 << 127), (1 << 127) - 1, a[0])), ("Err", ("Overflow",)))]))

# ---- U256
add(Contract("U256::overflowing_mul", UM + r"overflowing_mul$",
             cases=None, fresh=lambda s, a: (s.fresh("prodlo", 0, B256 - 1), s.fresh("ovf", 0, 1)),
             rel=lambda s, a, r: [("exact-or-flagged", Or(And(eq(r[0], a[0] * a[1]), asbit(r[1], 0)), And(ge(a[0] * a[1], B256), asbit(r[1], 1))))]))
add(Contract("U256::mul", U + r"std::ops::Mul>::mul$", pre=lambda s, a: [("product fits", le(a[0] * a[1], B256 - 1))], fun=lambda s, a: a[0] * a[1], uses=("U256::overflowing_mul",)))
add(Contract("U256::div", U + r"std::ops::Div>::div$|" + U + r"std::ops::Div<.*>>::div(::<.*>)?$", pre=lambda s, a: [("divisor is not zero", ne(a[1], 0)), ("divisor below 2^128", lt(a[1], 1 << 128))],
             fun=lambda s, a: s.divrem(a[0], a[1])[0], uses=("U256::div_mod",)))

QR = lambda n, d, q: And(ge(n - q * d, 0), lt(n - q * d, d))

def lz_fresh(s, a):
    if s.fork(eq(a[0], 0)):
        return K(64)
    sh, t = s.fresh("lz", 0, 63), s.fresh("pow", 1, 1 << 63)
    s.name_pow2(sh, t)
    return sh


def lz_rel(s, a, r):
    c = s.const(r)
    if c is not None:
        x = K(1 << c)
        if c == 64:
            return [("zero", eq(a[0], 0))]
    else:
        x = s.st.ghost["pow2"][r.single_var()]
    return [("normalised", And(ge(a[0] * x, 1 << 63), le((a[0] + 1) * x, B64))), ("power", Or(And(eq(r, 0), eq(x, 1)), And(ge(r, 1), ge(x, 2))))]


add(Contract("u64::leading_zeros", r"^core::num::<impl u64>::leading_zeros$", fresh=lz_fresh, rel=lz_rel))
TWO32 = 1 << 32


def word_inv(which):
    """Knuth's two-digit division: which = 1 or 2, the quotient digit being corrected"""
    q, d = (("q1", "un32"), ("q0", "un21"))[which - 1]

    def inv(s, e, a):
        Y = a[2] * s.pow2(e["s"])
        u = e[d]
        nxt = e["un1"] if which == 1 else e["un0"]
        out = [("shift", contains(0, 63, e["s"])), ("divisor normalised", contains(1 << 63, B64 - 1, Y)), ("low digit of divisor", contains(0, TWO32 - 1, e["yn0"])),
               ("high digit of divisor", contains(1 << 31, TWO32 - 1, e["yn1"])), ("low digit", contains(0, TWO32 - 1, e["un0"])),
               ("partial remainder", And(ge(u, 0), lt(u, Y))),
               ("remainder estimate", contains(0, TWO32 - 1, e["rhat"])), ("estimate not too small", gt((e[q] + 1) * Y, u * TWO32 + nxt)), ("estimate not too large", contains(0, TWO32 + 1, e[q]))]
        if which == 1:
            out.append(("middle digit", contains(0, TWO32 - 1, e["un1"])))
        else:
            out.append(("first quotient digit", contains(0, TWO32 - 1, e["q1"])))
        return out

    def defs(s, e, a):
        t = s.pow2(e["s"])
        Y = a[2] * t
        N = (a[0] * B64 + a[1]) * t
        out = [("y'2", Y), ("yn0", Y - e["yn1"] * TWO32)]
        if which == 1:
            out.append(("un0", N - e["un32"] * B64 - e["un1"] * TWO32))
        else:
            out.append(("un0", N - e["q1"] * TWO32 * Y - e["un21"] * TWO32))
        out.append(("rhat", e[d] - e[q] * e["yn1"]))
        return out
    live = ["s", "y'2", "yn1", "yn0", "un0", "q1", "rhat"] + (["un32", "un1"] if which == 1 else ["un21", "q0"])
    return Cut(UM + "div_mod_word$", which - 1, inv, defs, merge=True, live=live)


add(Contract("U256::div_mod_word", UM + r"div_mod_word$", pre=lambda s, a: [("hi < y", lt(a[0], a[2]))],
             fresh=lambda s, a: (s.fresh("q", 0, B64 - 1), s.fresh("r", 0, B64 - 1)),
             rel=lambda s, a, r: [("identity", eq(r[0] * a[2] + r[1], a[0] * B64 + a[1])), ("remainder", And(ge(r[1], 0), lt(r[1], a[2])))],
             uses=("u64::leading_zeros",),
             kw=dict(hints=lambda st, a: [a[2] * t for t in (st.ghost.get("pow2") or {}).values()], cuts=(word_inv(1), word_inv(2)))))

add(Contract("U256::div_mod_small", UM + r"div_mod_small$", pre=lambda s, a: [("divisor is not zero", ge(a[1], 1))],
             fresh=lambda s, a: (s.fresh("quo", 0, B256 - 1), s.fresh("rem", 0, B64 - 1)),
             rel=lambda s, a, r: [("identity", eq(r[0] * a[1] + r[1], a[0])), ("remainder", lt(r[1], a[1]))], uses=("U256::div_mod_word",)))


def shl_array(s, a):
    """five words of a product with a word or a power of two"""
    return tuple(s.fresh(f"w{i}", 0, B64 - 1) for i in range(5))


add(Contract("U256::full_mul_u64", UM + r"full_mul_u64$", fresh=shl_array, rel=lambda s, a, r: [("product", eq(limbs_val(r), a[0] * a[1]))]))
add(Contract("U256::full_shl", UM + r"full_shl$", pre=lambda s, a: [("shift", contains(0, 63, a[1]))], fresh=shl_array, rel=lambda s, a, r: [("product", eq(limbs_val(r), a[0] * s.pow2(a[1])))],
             uses=("U256::shr",)))


def shr_pre(s, a):
    yield "shift", contains(0, 63, a[1])
    yield "result fits", lt(limbs_val(a[0]), s.pow2(a[1]) * B256)


add(Contract("U256::full_shr", UM + r"full_shr$", pre=shr_pre,
             fresh=lambda s, a: s.fresh("shifted", 0, B256 - 1), rel=lambda s, a, r: [("quotient", QR(limbs_val(a[0]), s.pow2(a[1]), r))]))


def bits_fresh(s, a):
    v = a[0]
    if s.fork(eq(v, 0)):
        return ZERO
    k = next(i for i in range(1, 5) if i == 4 or s.fork(lt(v, 1 << 64 * i)))
    r, t = s.fresh("bits", 64 * k - 63, 64 * k), s.fresh("pow", 1 << (64 * k - 63), 1 << 64 * k)
    s.name_pow2(r, t)
    return r


def bits_rel(s, a, r):
    """2^(r - 1) <= v < 2^r, and powers of two grow with their exponents"""
    v = a[0]
    c = s.const(r)
    if c is not None:
        return [("bits", And(ge(v * 2, 1 << c), lt(v, 1 << c)) if c else eq(v, 0))]
    g = s.st.ghost["pow2"]
    t = g[r.single_var()]
    out = [("bits", And(ge(v * 2, t), lt(v, t)))]
    for x, u in g.items():
        x = V(x)
        if x != r and s.st.range(u)[1] > 1:
            out.append(("powers", Or(And(lt(r, x), le(t * 2, u)), And(eq(r, x), eq(t, u)), And(gt(r, x), ge(t, u * 2)))))
    return out


def bits_check(s, a, r):
    v = a[0]
    c = s.const(r)
    if c is not None:
        return bits_rel(s, a, r)
    for x, p in (s.st.ghost.get("pow2") or {}).items():
        n = s.const(s.st.norm(r + V(x)))
        if n is not None:
            # 2^r = 2^n / p
            return [("bits", And(ge(v * p * 2, 1 << n), lt(v * p, 1 << n)))]
    return [("bits", FF)]


add(Contract("U256::bits", UM + r"bits$", fresh=bits_fresh, rel=bits_rel, check=bits_check, memo=True, uses=("u64::leading_zeros",)))
def knuth_outer(s, e, a):
    """N * 2^shift = Q * V + U, the quotient digits below the next one still zero"""
    st = s.st
    start, end, done = e["iter"]
    J = -1 if s.fork(done) else s.const(end)
    t = s.pow2(e["shift"])
    V1, V0 = e["v_n_1"], e["v_n_2"]
    u = e["u"]
    q = s.ex.rd(st, st.mem[(e.fr.id, e.local("q"))])
    q = [s.ex.asint(st, x) for x in q.f[0].f] if isinstance(q, Agg) else s.ex.limbs(st, q.a[0])
    U, Q = limbs_val(u), limbs_val(q)
    V = V1 * B64 + V0
    yield "divisor normalised", And(contains(1 << 63, B64 - 1, V1), contains(0, B64 - 1, V0), eq(V, a[1] * t))
    yield "identity", eq(a[0] * t, Q * V + U)
    yield "remainder below the next digit", lt(U, V * (1 << 64 * (J + 1)))
    yield "digits to come", And(*[eq(x, 0) for x in q[:J + 1]])


def knuth_end(s, e, a):
    st = s.st
    if not s.fork(e["iter"][2]):
        return
    t = s.pow2(e["shift"])
    q = [s.ex.asint(st, x) for x in s.ex.rd(st, st.mem[(e.fr.id, e.local("q"))]).f[0].f]
    # (N - Q * v) * 2^shift is the remainder
    V = e["v_n_1"] * B64 + e["v_n_2"]
    for x in q:
        times(s, eq(V, a[1] * t), x)
    d = a[0] - limbs_val(q) * a[1]
    if s.fork(lt(d, 0)):
        times(s, le(d, -1), t)
    elif s.fork(ge(d, a[1])):
        times(s, ge(d, a[1]), t)
    yield "quotient", QR(a[0], a[1], limbs_val(q))


def knuth_inner(s, e, a):
    V1, V0 = e["v_n_1"], e["v_n_2"]
    q, r, j = e["q_hat'2"], e["r_hat"], s.const(e["j"])
    u = e["u"]
    yield "estimate", eq(q * V1 + r, u[j + 2] * B64 + u[j + 1])
    yield "estimate not too small", gt((q + 1) * (V1 * B64 + V0), (u[j + 2] * B64 + u[j + 1]) * B64 + u[j])


KN = UM + "div_mod_knuth$"
add(Contract("U256::div_mod", UM + r"div_mod$", pre=lambda s, a: [("divisor is not zero", ne(a[1], 0)), ("divisor below 2^128", lt(a[1], 1 << 128))],
             fresh=lambda s, a: (s.fresh("quo", 0, B256 - 1), s.fresh("rem", 0, B256 - 1)), rel=lambda s, a, r: [("quotient", QR(a[0], a[1], r[0]))],
             uses=("U256::bits", "U256::div_mod_small", "U256::div_mod_word", "U256::full_shl", "U256::full_shr", "U256::full_mul_u64", "U256::shl", "u64::leading_zeros"),
             kw=dict(cuts=(Cut(KN, 0, knuth_outer, lambda s, e, a: [("v", e["v_n_1"] * B64 + e["v_n_2"])], concrete=["iter"], havoc=["v_n_1", "v_n_2"], lemma=knuth_end, name="quotient digits"), Cut(KN, 1, knuth_inner, variant=lambda s, e, a: e["q_hat'2"], name="digit correction")))))

# ---------------------------------------------------------------- square roots
def fsqrt(ex, st, fr, fn, args, tys, dty):
    """f64::sqrt is correctly rounded, hence monotone"""
    import math
    v = args[0]
    if isinstance(v, Opq) and v.kind == "frange" and v.a[0] >= 0:
        return Opq("frange", math.sqrt(v.a[0]), math.sqrt(v.a[1]))
    raise Unsupported("square root of this float")


FSQRT = (re.compile(r"^std::f64::<impl f64>::sqrt$"), fsqrt)


def sqrt_inv(which, bits, signed):
    top = tmax(bits, signed) // 2

    def inv(s, e, a):
        x, xn, n = e["x"], e["xn"], a[0]
        yield "range", contains(2, top, x)
        q, r = s.divrem(n, x)
        yield "next estimate", contains(0, 1, q + x - xn * 2)
        if which:
            yield "not below the root", gt((x + 1) * (x + 1), n)

    def variant(s, e, a):
        return e["x"] if which else top - e["x"]
    return Cut(r"::sqrt::fixpoint::<", which, inv, variant=variant)


def isroot(n, r):
    return And(ge(r, 0), le(r * r, n), gt((r + 1) * (r + 1), n))


for _t in ("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"):
    _b, _s = int(_t[1:]), _t[0] == "i"
    add(Contract(f"{_t}::sqrt", rf"^<{_t} as fixnum::ops::sqrt::Sqrt>::sqrt$", pre=lambda s, a: [("not negative", ge(a[0], 0))],
                 fresh=lambda s, a, b=_b: ("Ok", s.fresh("root", 0, (1 << (b // 2)) - 1)), rel=lambda s, a, r: [("integer square root", And(T if r[0] == "Ok" else FF, isroot(a[0], r[1])) if r[0] == "Ok" else FF)],
                 kw=dict(cuts=(sqrt_inv(0, _b, _s), sqrt_inv(1, _b, _s)))))

ROOTOK = lambda s, a, r: [("integer square root", isroot(a[0], r[1]) if r[0] == "Ok" else FF)]
for _t in ("i128", "u128"):
    # near i128::MAX the square of the candidate would overflow; fixed-point arguments stay below 2^126
    add(Contract(f"{_t}::sqrt", rf"^<{_t} as fixnum::ops::sqrt::Sqrt>::sqrt$", pre=lambda s, a, t=_t: [("not negative", ge(a[0], 0))] + ([("below 2^126", lt(a[0], 1 << 126))] if t == "i128" else []),
                 fresh=lambda s, a: ("Ok", s.fresh("root", 0, B64 - 1)), rel=ROOTOK, measure=lambda s, a: a[0], uses=("u64::sqrt", f"{_t}::sqrt")))
add(Contract("U256::from_u128", r"^<fixnum::i256::u256::U256 as std::convert::From<u(128|64|32)>>::from$", fun=lambda s, a: a[0]))
add(Contract("u128::try_from_u256", r"TryFrom<fixnum::i256::u256::U256> for u128>::try_from$",
             cases=lambda s, a: [(lt(a[0], 1 << 128), ("Ok", a[0])), (ge(a[0], 1 << 128), ("Err", ("Convert",)))], uses=("u64::leading_zeros",)))


add(Contract("U256::shr", U + r"std::ops::Shr<u32>>::shr$", pre=lambda s, a: [("shift", contains(0, 64, a[1]))], fun=lambda s, a: s.divrem(a[0], s.pow2(a[1]))[0]))
def shl_pre(s, a):
    yield "shift", contains(0, 63, a[1])
    yield "no bits lost", le(a[0] * s.pow2(a[1]), B256 - 1)


add(Contract("U256::shl", U + r"std::ops::Shl<u32>>::shl$", pre=shl_pre,
             fun=lambda s, a: a[0] * s.pow2(a[1])))
for _n, _f in (("lt", lt), ("le", le), ("gt", gt), ("ge", ge)):
    add(Contract(f"U256::{_n}", U + rf"std::cmp::PartialOrd>::{_n}$", fun=lambda s, a, f=_f: f(a[0], a[1])))
add(Contract("U256::cmp", U + r"std::cmp::Ord>::cmp$", cases=lambda s, a: ORD(a[0], a[1])))
add(Contract("U256::partial_cmp", U + r"std::cmp::PartialOrd>::partial_cmp$", cases=lambda s, a: [(c, ("Some", w)) for c, w in ORD(a[0], a[1])]))
add(Contract("U256::set_lowest_bit", U + r"fixnum::ops::sqrt::Sqrt>::sqrt::least_significant_word_or$", pre=lambda s, a: [("bit", eq(a[1], 1))],
             fresh=lambda s, a: s.fresh("half", 0, B255 - 1) * 2 + 1, rel=lambda s, a, r: [("lowest bit set", And(ge(r, a[0]), le(r, a[0] + 1)))],
             check=lambda s, a, r: [("lowest bit set", And(ge(r, a[0]), le(r, a[0] + 1), eq(s.divrem(r, 2)[1], 1)))]))
add(Contract("U256::sqrt", U + r"fixnum::ops::sqrt::Sqrt>::sqrt$", fresh=lambda s, a: ("Ok", s.fresh("root", 0, (1 << 128) - 1)), rel=ROOTOK, measure=lambda s, a: a[0],
             uses=("u128::sqrt", "U256::sqrt", "U256::from_u128", "u128::try_from_u256", "U256::shr", "U256::shl", "U256::set_lowest_bit", "U256::le", "U256::overflowing_mul")))
add(Contract("I256::sqrt", I + r"fixnum::ops::sqrt::Sqrt>::sqrt$", pre=lambda s, a: [("not negative", ge(a[0], 0))], fresh=lambda s, a: ("Ok", s.fresh("root", 0, (1 << 128) - 1)), rel=ROOTOK,
             uses=("U256::sqrt", "I256::ge")))


def closure(names):
    out = []

    def go(n):
        if n in out or n not in CONTRACTS:
            return
        out.append(n)
        for u in CONTRACTS[n].uses:
            go(u)
    for n in names:
        go(n)
    return out


# ---------------------------------------------------------------- operations taken as functions of their arguments
def akey(x, st=None):
    if isinstance(x, Opq):
        return (x.kind,) + tuple(akey(y) for y in x.a)
    if isinstance(x, Ref) and st is not None:
        w = win(st, x)
        return ("text", w.tid, st.norm(w.lo).key(), st.norm(w.hi).key())
    if isinstance(x, P):
        return x.key()
    if isinstance(x, (tuple, list)):
        return tuple(akey(y, st) for y in x)
    return x


def anyfun(errors):
    """contract "some function of the arguments": the same outcome for the same arguments, any outcome of its type"""
    def h(ex, st, fr, fn, args, tys, dty):
        a = [argval(ex, st, t, v) for t, v in zip(tys, args)]
        a = [st.norm(x) if isinstance(x, P) else x for x in a]
        k = (fn["sname"], akey(a, st))
        g = st.ghost.get("anyfun") or {}
        if k in g:
            return g[k]
        prog = ex.prog
        if prog.ty(dty)["k"] == "float":
            v = Opq("fsym", f"result{len(g)}")
            st.ghost["anyfun"] = {**g, k: v}
            return v
        okty = prog.ty(dty)["variants"][0]["tys"][0]

        def fin(w):
            def f(n):
                if w[0] == "Ok":
                    t = okty
                    while prog.ty(t)["k"] == "adt":
                        t = [x for x in prog.ty(t)["variants"][0]["tys"] if (prog.ty(x)["lay"] or {}).get("size") != 0][0]
                    b, sg = prog.int_ty(t)
                    v = build(ex, n, dty, ("Ok", ex.newvar(n, "result", tmin(b, sg), tmax(b, sg))))
                else:
                    v = build(ex, n, dty, w)
                n.ghost["anyfun"] = {**(n.ghost.get("anyfun") or {}), k: v}
                return v
            return f
        return [(T, fin(("Ok",)))] + [(T, fin(("Err", (e,)))) for e in errors]
    return h


FIX = r"^<fixnum::FixedPoint<.*> as fixnum::ops::"
INT = r"^<i(8|16|32|64|128) as fixnum::ops::"
ROUNDING_OPS = ((re.compile(f"({FIX}|{INT})RoundingMul(<.*>)?>::rmul$"), anyfun(("Overflow",))),
                (re.compile(f"({FIX}|{INT})RoundingDiv(<.*>)?>::rdiv$"), anyfun(("Overflow", "DivisionByZero"))))



def conv(trait, meth, of=r"fixnum::FixedPoint<[^()]*>"):
    return re.compile(rf"(^<{of} as {trait}>|<impl {trait} for {of}>)::{meth}$")


TO_FLOAT = (conv(r"std::convert::From<fixnum::FixedPoint<[^()]*>>", "from", "f64"), anyfun(()))
CONVERSIONS = ((conv(r"std::convert::TryFrom<(f64|[iu]\d+)>", "try_from"), anyfun(("Convert",))), (conv(r"std::str::FromStr", "from_str"), anyfun(("Convert",))), TO_FLOAT)
