"""f64 -> fixed point: the exact value, in units of 10^exponent10 * 5^exponent5, follows the computation as a ghost."""
import re
import struct
from fractions import Fraction

from exec import *
from unit import Spec
from cuts import Cut
from deps import contains
from terms import ONE, formula_polys

S = 1 << 200          # ghosts count 2^-200 parts
B128 = 1 << 128
LOSS = 1 << 124       # every lossy step of the loops loses less than bits / LOSS
STEPS = 1100


def fields(a):
    return [V(i) for i in a[0].a[1]]


def anchor(s, a):
    """(exponent2, significand) of the argument"""
    sg, be, fr = fields(a)
    if s.fork(eq(be, 0)):
        return K(-1074), fr
    return be - 1075, fr + (1 << 52)


def ratio(st, p, q):
    """numerator and denominator of q^p, q prime"""
    p = st.norm(p)
    if p.is_const():
        c = p.const()
        return (K(q ** c), ONE) if c >= 0 else (ONE, K(q ** -c))
    for (b, k), t in (st.ghost.get("powers") or {}).items():
        for e, n in ((p, True), (-p, False)):
            if b == q and e.key() == k:
                return (t, ONE) if n else (ONE, t)
    for v, t in (st.ghost.get("pow2") or {}).items() if q == 2 else ():
        if p == V(v):
            return t, ONE
        if p == -V(v):
            return ONE, t
    raise Unsupported(f"power {q}^{p!r} has no name")


def scaled(s, a, e10, e5):
    """floor(S * |x| / (10^e10 * 5^e5))"""
    st = s.st
    sc = st.ghost.get("scale")
    if sc is None:
        e2, m = anchor(s, a)
        sc = (e2, -e2, True, m)
    b10, b5, exact, g = sc
    d10, d5 = st.norm(e10 - b10), st.norm(e5 - b5)
    n2, m2 = ratio(st, -d10, 2)
    n5, m5 = ratio(st, -d10 - d5, 5)
    num, den = n2 * n5, m2 * m5
    if exact:
        ed = st.ghost.get("exactdiv") or {}
        q = ed.get((g.key(), den.key())) or ed.get((st.norm(g).key(), den.key()))
        if q is None and not den.is_const():
            q = s.ex.divide_by_var(st.norm(g), den)
        if q is not None:
            return q * num * S
        g, lo = g * S * num, ZERO
    else:
        g, lo = g * num, num - 1
    if den == ONE:
        if lo == ZERO:
            return g
    if not num.is_const() or not den.is_const():
        raise Unsupported(f"inexact value {g!r} times a symbolic power {num!r}/{den!r} e10 {e10!r} e5 {e5!r} base {b10!r} {b5!r}")
    d = den.const()
    memo = st.ghost.get("scaled") or {}
    k = (g.key(), num.key(), d)
    if k not in memo:
        rl, rh = st.range(g + lo)
        y = s.fresh("exact", max(0, rl // d - 1), rh // d)
        # g <= num * (value) <= g + lo, y = floor(value * num / den)
        st.assume(And(le(y * d, g + lo), ge(y * d, g - d + 1)))
        st.ghost["scaled"] = memo = {**memo, k: y}
    return memo[k]


def rebase(s, e, a):
    """new unknown value at a forgotten state"""
    g = s.fresh("exact", 0, S * B128 * 2)
    s.st.ghost["scale"] = (e["exponent10"], ex5(e), False, g)


def ex5(e):
    return e["exponent5"] if e.has("exponent5") else ZERO


def loss(s, e, a, cnt, e5):
    """relative error of the significand so far"""
    g = scaled(s, a, e["exponent10"], e5)
    b = e["bits"]
    return [("nothing gained", ge(g, b * S)), ("lost at most one part in 2^124 per step", le((g - b * S) * LOSS, cnt * b * S)), ("significand", contains(1, B128 - 1, b))]


def blind(s, e, a):
    """the sign has not been used"""
    sv = a[0].a[1][0]
    ok = s.st.range(V(sv)) == (0, 1)
    for f in s.st.facts:
        vs = set()
        for p in formula_polys(f, []):
            vs |= p.vars()
        if sv in vs:
            ok = False
    for n in ("bits", "exponent10"):
        if sv in s.st.norm(e[n]).vars():
            ok = False
    return [("independent of the sign", T if ok else FF)]


def inv0(s, e, a):
    e5, e10 = e["exponent5"], e["exponent10"]
    return blind(s, e, a) + [("exponents", And(contains(0, 1074, e5), ge(e10, -1074), le(e10 + e5, 0)))] + loss(s, e, a, STEPS - e5, e5)


def inv1(s, e, a):
    e5, e10 = e["exponent5"], e["exponent10"]
    return blind(s, e, a) + [("exponents", And(contains(-971, 0, e5), contains(-1074, 971, e10), Or(eq(e5, 0), ge(e10 + e5, 0))))] + loss(s, e, a, 2 * STEPS + e5, e5)


N0 = 1 << 52


def inv_div(s, e, a):
    d = s.const(e["divisor_exponent_10"])
    b = e["bits"]
    return blind(s, e, a) + [("exponent", contains(-1074, -1, e["exponent10"])), ("digits", contains(N0 * 10 ** (d - 1), N0 * 10 ** d - 1, b))] + loss(s, e, a, 2 * STEPS, ZERO)


def inv_round(s, e, a):
    n, u = e["bits"], e["exponent10"]
    g = scaled(s, a, u, ZERO)
    half = And(le((n * S - g) * 2 * LOSS, S * LOSS + g * 8192), le((g - n * S) * 2 * LOSS, S * LOSS + g * 8192), ge(g * 11, S * N0))
    kept = And(ge(g, n * S), le((g - n * S) * LOSS, n * (2 * STEPS * S)))
    cls = Or(And(half, lt(u, 0), le(g * LOSS, S * N0 * (LOSS + 8192))), And(half, eq(u, 0)), And(kept, Or(ge(u, 0), lt(n, N0))))
    return blind(s, e, a) + [("exponent", contains(-1074, 971, u)), ("significand", And(contains(1, B128 - 1, n), ge(g, S))), ("rounded or kept", cls)]


NAME = r"<impl std::convert::TryFrom<f64> for fixnum::FixedPoint<.*>>::try_from$"
E5 = ["bits", "exponent10", "exponent5"]
CUTS = (Cut(NAME, 0, inv0, merge=True, live=E5, carry=["positive"], enter=rebase, variant=lambda s, e, a: e["exponent5"], name="decimal exponent of small values"),
        Cut(NAME, 1, inv1, merge=True, live=E5, carry=["positive"], enter=rebase, variant=lambda s, e, a: -e["exponent5"], name="decimal exponent of large values"),
        Cut(NAME, (1, 2), inv_div, merge=True, live=["bits", "exponent10"], concrete=["divisor_exponent_10"], carry=["positive"], enter=rebase, name="digits to drop"),
        Cut(NAME, (1, 0), inv_round, merge=True, live=["bits", "exponent10"], carry=["positive"], enter=rebase, name="rounding"))


# ---------------------------------------------------------------- contracts of core
def h_finite(ex, st, fr, fn, args, tys, dty):
    v = args[0]
    if isinstance(v, Opq) and v.kind == "fbits" and len(v.a) == 2:
        return lt(V(v.a[1][1]), 2047)
    raise Unsupported("class of this float")


def h_tz(ex, st, fr, fn, args, tys, dty):
    v = st.norm(ex.asint(st, args[0]))
    bits = ex.prog.int_ty(tys[0])[0]
    if not ex.need(st, ge(v, 1)):
        return K(bits)
    lo, hi = st.range(v)
    n = hi.bit_length() - 1
    x, t = ex.newvar(st, "tz", 0, n), ex.newvar(st, "pow2", 1, 1 << n)
    q = ex.newvar(st, "odd", 1, hi)
    st.assume(eq(v, q * t))
    st.ghost["pow2"] = {**(st.ghost.get("pow2") or {}), x.single_var(): t}
    st.ghost["exactdiv"] = {**(st.ghost.get("exactdiv") or {}), (v.key(), t.key()): q}
    st.ghost["tz"] = {**(st.ghost.get("tz") or {}), v.key(): x}
    return x


def h_lz(ex, st, fr, fn, args, tys, dty):
    v = st.norm(ex.asint(st, args[0]))
    bits = ex.prog.int_ty(tys[0])[0]
    v = ex.wrap(st, v, bits, False)
    lo, hi = st.range(v)
    a, b = bits - hi.bit_length(), bits - lo.bit_length()
    if a == b:
        return K(a)
    raise Fork([contains(1 << (bits - 1 - i) if i < bits else 0, (1 << (bits - i)) - 1, v) for i in range(a, b + 1)])


CORE = ((re.compile(r"<impl f64>::is_finite$"), h_finite), (re.compile(r"^core::num::<impl u\d+>::trailing_zeros$"), h_tz), (re.compile(r"^core::num::<impl [iu]\d+>::leading_zeros$"), h_lz))


# ---------------------------------------------------------------- the property
def decimal(x):
    """(D, q) with |x| the closest f64 to D / 10^q and D of at most 15 digits, or None"""
    r = "%.14e" % x
    if float(r) != x:
        return None
    m, e = r.split("e")
    d, q = int(m.replace(".", "").lstrip("-")), 14 - int(e)
    while q > 0 and d % 10 == 0 and d:
        d, q = d // 10, q - 1
    if q < 0:
        d, q = d * 10 ** -q, 0
    return (d, q) if d < 10 ** 15 else None


def spec_c16(l, p, op):
    n = int(l[1:])
    lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
    C = 10 ** p

    def concrete(a, o):
        if o.kind == "panic":
            return [("no-panic", FF)]
        b = int(a[0][0], 16)
        if o.val[0] in ("Ok", "Err"):
            r, r2 = o.val, None
        else:
            r, r2 = o.val
        x = struct.unpack(">d", struct.pack(">Q", b))[0]
        out = []
        if b >> 52 & 0x7ff == 0x7ff:
            return [("not-finite", T if r[0] == "Err" else FF)]
        v = Fraction(x) * C
        tol = Fraction(5, 9) + abs(v) / 2 ** 49
        if r[0] == "Ok":
            y = r[1].const()
            out.append(("accuracy", T if abs(y - v) <= tol and lo <= y <= hi else FF))
        else:
            out.append(("rejected-only-out-of-range", T if v + tol > hi or v - tol < lo else FF))
        d = decimal(abs(x))
        if d is not None and d[1] <= p:
            w = d[0] * 10 ** (p - d[1]) * (-1 if x < 0 else 1)
            out.append(("15-digits", T if (r[0] == "Ok" and r[1].const() == w if lo <= w <= hi else r[0] == "Err") else FF))
        if r2 is not None:
            if r[0] == "Ok" and r2[0] == "Ok":
                out.append(("symmetry", T if r[1].const() == -r2[1].const() else FF))
            elif r[0] == "Ok" or r2[0] == "Ok":
                out.append(("symmetry", T if (r if r[0] == "Ok" else r2)[1].const() == lo else FF))
        return out

    def post(s, a, o):
        if s.concrete:
            return concrete(a, o)
        if o.kind == "panic":
            return [("no-panic", FF)]
        st = s.st
        sg, be, fr = fields(a)
        r = o.val
        rel = st.cx.relate
        rel.append((st, r, a))
        sc = st.ghost.get("scale")
        if sc is None:
            if s.fork(eq(be, 2047)):
                return [("not-finite", T if r[0] == "Err" else FF)]
            return [("zero", And(eq(be, 0), eq(fr, 0), eq(r[1], 0)) if r[0] == "Ok" else FF)]
        u = s.const(sc[0])
        if u is None:
            # the unit of the last rounding matters relative to the precision only
            u0 = st.norm(sc[0])
            if s.fork(lt(u0, -p - 45)):
                u = None
            else:
                l0, h0 = st.range(u0)
                if h0 > 45 and s.fork(ge(u0, 45)):
                    u = 45
                else:
                    raise Fork([eq(u0, i) for i in range(max(l0, -p - 45), min(h0, 45) + 1)])
        return judge(s, a, r, sg, u, p, lo, hi)
    sp = Spec(post)
    sp.relate = relate(lo)
    return sp


def judge(s, a, r, sg, u, p, lo, hi):
    st = s.st
    g = st.ghost["scale"][3]
    out = []
    if u is None:
        # less than 10^-45 units times 2^128: below any tolerance
        return [("accuracy", eq(r[1], 0) if r[0] == "Ok" else FF)]
    k = u + p
    num, den = (10 ** k, 1) if k >= 0 else (1, 10 ** -k)
    # |x| * C = value * num / den with g <= S * value < g + 1
    pos = s.fork(eq(sg, 0))
    T9 = 9 << 49
    # 5/9 + v / 2^49, scaled by 9 * 2^49 * S * den; the ghost's rounding is covered by g -> g + 1
    if r[0] == "Ok":
        y = r[1] if pos else -r[1]
        d1 = (y * (S * den) - g * num) * T9
        d2 = ((g + 1) * num - y * (S * den)) * T9
        tol = K(5 * S * den << 49) + g * (9 * num)
        out.append(("accuracy", And(le(d1, tol), le(d2, tol))))
        out.append(("layout", contains(lo, hi, r[1])))
    else:
        lim = hi if pos else -lo
        out.append(("rejected-only-out-of-range", gt((g + 1) * num * T9 + K(5 * S * den << 49) + (g + 1) * (9 * num), K(lim * S * den) * T9)))
    # decimals D / 10^q with D < 10^15 and q <= p, |x| within 2^-53 of it; kappa = -(q + u) digits between them
    dv = s.fresh("decimal", 1, 10 ** 15 - 1)
    E53 = 1 << 53

    def close(w, wd):
        """|w / wd - value| <= value * 2^-53, in units of 10^u"""
        x, y = w * (S * E53), g * wd
        return And(le(x, (y + wd) * (E53 + 1)), ge(x, y * (E53 - 1)))

    def result(w, wd):
        """the decimal scaled: w / wd * num / den"""
        v = w * num
        if r[0] == "Ok":
            y = r[1] if pos else -r[1]
            return eq(y * (den * wd), v)
        return gt(v, K((hi if pos else -lo) * den * wd))
    # D * 10^(p - q), or D * 10^(-q - u), as any integer: covers every q with a nonnegative exponent
    if k <= 0:
        lo_q, w, wd, top = p + 1, 10 ** -k, 1, p
    else:
        lo_q, w, wd, top = max(0, -u + 1), 1, 1, -u
    if top >= 0:
        wv = s.fresh("any", 1, 10 ** (15 + top))
        f = Or(Not(close(wv * w, wd)), result(wv * w, wd))
        if st.prove(f)[0] == "proved":
            out.append(("15-digits", f))
        else:
            lo_q = 0
    for q in range(lo_q, p + 1):
        ka = -(q + u)
        w, wd = (dv * 10 ** ka, 1) if ka >= 0 else (dv, 10 ** -ka)
        out.append((f"15-digits-q{q}", Or(Not(close(w, wd)), result(w, wd))))
    return out


def relate(lo):
    def run(cx, outs):
        """the same magnitude with the other sign: pairs of outcomes whose conditions meet"""
        res = []
        for s1, r1, a in outs:
            sg = fields(a)[0]
            v = sg.single_var()
            sk = (((v,), 1),)
            if s1.decide(eq(sg, 1)) is True:
                continue
            for s2, r2, _ in outs:
                if s2.decide(eq(sg, 0)) is True or r1[0] == r2[0] == "Err" or ("scale" in s1.ghost) != ("scale" in s2.ghost):
                    continue
                if any(k in s2.fb and disjoint(b, s2.fb[k]) for k, b in s1.fb.items() if k != sk):
                    continue
                m = cx.base.copy()
                bad = False
                for f in s1.facts + s2.facts:
                    vs = set()
                    for p in formula_polys(f, []):
                        vs |= p.vars()
                    if vs == {v}:
                        continue
                    bad |= v in vs
                    m.assume(f)
                for st in (s1, s2):
                    for k, (x, y) in st.fb.items():
                        if k != sk and k not in cx.base.fb:
                            m.fb[k] = meet(m.fb.get(k), (x, y))
                if r1[0] == "Ok" and r2[0] == "Ok":
                    goal = eq(r1[1], -r2[1])
                elif r1[0] == "Ok":
                    goal = FF
                else:
                    goal = eq(r2[1], lo)
                r = m.prove(goal)
                res.append((f"symmetry/{len(res)}", ("unknown", None) if bad else r, a))
        return res
    return run


def meet(a, b):
    if a is None:
        return b
    return (b[0] if a[0] is None else a[0] if b[0] is None else max(a[0], b[0]), b[1] if a[1] is None else a[1] if b[1] is None else min(a[1], b[1]))


def disjoint(a, b):
    return (a[1] is not None and b[0] is not None and a[1] < b[0]) or (b[1] is not None and a[0] is not None and b[1] < a[0])
