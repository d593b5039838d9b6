"""Contracts of the const functions behind the literal macros (src/const_fn.rs)."""
from deps import *
from deps import add as reg
import text as T_

FX = r"^fixnum::(const_fn|_priv)::"
PARTIAL = "returns only if ..."


def absw(s, a, lo, hi):
    w = win(s.st, a)
    return Txt(w.tid, w.lo + lo, w.lo + hi)


class Partial(Contract):
    """says what holds when the function returns; not returning (panic, endless loop: rejection at compile time) is always allowed"""

    def spec(self, prog, key):
        sp = super().spec(prog, key)
        post = sp.post

        def post2(s, a, o):
            return [("not-returning-is-rejection", T)] if o.kind == "panic" else post(s, a, o)
        sp.post = post2
        return sp

    def entries(self):
        return [CONTRACTS[u].entry() for u in self.uses] + list(T_.TEXT)


def pow10_cases(s, a):
    k = s.const(a[0])
    if k is not None:
        return [(T if 0 <= k <= 38 else FF, K(10 ** k if 0 <= k <= 38 else 0)), (FF if 0 <= k <= 38 else T, None)]
    return [(eq(a[0], i), K(10 ** i)) for i in range(39)] + [(Or(lt(a[0], 0), gt(a[0], 38)), None)]


def pow10_at(s, k):
    """10^k, written as 10 * 10^(k-1) when nothing is known about it yet"""
    ex, st = s.ex, s.st
    k = st.norm(asP(k))
    for j, t in T_.tx(st, "p"):
        if T_.zero(st, j - k):
            return t
    if s.fork(le(k, 0)):
        return K(1)
    t = T_.pow10(ex, st, k - 1) * 10
    T_.add(st, "p", (k, t))
    return t


class Pow10(Partial):
    """10^power when it returns"""

    def handler(self, ex, st, fr, fn, args, tys, dty):
        k = ex.asint(st, args[0])
        b, sg = ex.prog.int_ty(dty)
        n = 38 if b == 128 else 18
        if any(T_.zero(st, j - k - 1) or T_.zero(st, j - k) for j, t in T_.tx(st, "p")):
            # next to a power already spoken of
            return [(And(ge(k, 0), le(k, n)), lambda st: T_.pow10(ex, st, k)), (Or(lt(k, 0), gt(k, n)), Terminal("panic", "power out of range"))]
        return [(eq(k, i), K(10 ** i)) for i in range(n + 1)] + [(Or(lt(k, 0), gt(k, n)), Terminal("panic", "power out of range"))]


reg(Pow10("const_fn::pow10", FX + r"pow10$", check=lambda s, a, r: [("power-of-ten", Or(*[And(eq(a[0], i), eq(r, 10 ** i)) for i in range(39)]))]))


def find_cases(s, a):
    w = win(s.st, a[0])
    f = T_.first(s.ex, s.st, w, a[1])
    return [(lt(f, w.hi), ("Some", f - w.lo)), (eq(f, w.hi), ("None",))]


def find_inv(s, e, a):
    w = win(s.st, a[0])
    f = T_.first(s.ex, s.st, w, a[1])
    return [("before the first match", And(ge(e["i"], 0), le(w.lo + e["i"], f)))]


reg(Partial("const_fn::find", FX + r"find$", cases=find_cases, kw=dict(cuts=(Cut(FX + r"find$", 0, find_inv),))))


def int_pre(s, a):
    w = win(s.st, a[0])
    return [("window", And(ge(a[1], 0), le(a[1], a[2]), le(a[2], w.hi - w.lo), le(w.hi - w.lo, 2 ** 31 - 1)))]


def int_rel(s, a, r):
    w = absw(s, a[0], a[1], a[2])
    return [("digits-only", eq(T_.digits(s.ex, s.st, w), 1)), ("decimal-value", eq(r, T_.val(s.ex, s.st, w)))]


def int_inv(s, e, a):
    i = e["i"]
    w = absw(s, a[0], a[1], i)
    yield "window", And(ge(i, a[1]), le(i, a[2]))
    if T_.zero(s.st, i - a[1]):
        yield "value so far", eq(e["result"], 0)
        return
    yield "digits so far", eq(T_.digits(s.ex, s.st, w), 1)
    v = T_.val(s.ex, s.st, w)
    yield "value so far", eq(e["result"], v * pow10_at(s, a[2] - i))
    yield "value bound", And(ge(v, 0), le(v, e["result"]))


def horner_inv(s, e, a):
    i = e["i"]
    w = absw(s, a[0], a[1], i)
    yield "window", And(ge(i, a[1]), le(i, a[2]))
    yield "digits so far", eq(T_.digits(s.ex, s.st, w), 1)
    v = T_.val(s.ex, s.st, w)
    yield "value so far", eq(e["result"], v)


class ParseInt(Partial):
    def fresh(self, s, a):
        raise NotImplementedError

    def handler(self, ex, st, fr, fn, args, tys, dty):
        a = [argval(ex, st, t, v) for t, v in zip(tys, args)]
        s = SymD(ex, st)
        (lab, f), = int_pre(s, a)
        r = st.prove(f)
        ex.cx.obl(f"{ex.cx.name}/call {self.name}/requires {lab}", r[0], r[1] if r[0] == "proved" else "")
        st.assume(f)
        w = absw(s, a[0], a[1], a[2])
        b, sg = ex.prog.int_ty(dty)
        d, v = T_.digits(ex, st, w), T_.val(ex, st, w)
        ok = And(eq(d, 1), le(v, tmax(b, sg)))
        return [(ok, v), (Not(ok), Terminal("panic", "not a number or too big"))]


reg(ParseInt("const_fn::parse_int", FX + r"parse_int$", pre=int_pre, rel=int_rel, uses=("const_fn::pow10",), kw=dict(cuts=(Cut(FX + r"parse_int$", 0, int_inv),), alts=(dict(cuts=(Cut(FX + r"parse_int$", 0, horner_inv),)),))))
