"""f64 arithmetic: a finite value is an integer multiple of 2^-1074, rounding is monotone, has a relative error of at most 2^-53
above the subnormal range, and is exact where an operand of a sum is zero or an integer fits 53 bits."""
import struct
from fractions import Fraction

from exec import *
from unit import Spec

S = 1 << 1074
MAXF = ((1 << 53) - 1) << 2045  # units of 2^-1074


def unpack(b):
    """bits -> integer number of units, None for infinities and NaN"""
    e, m = b >> 52 & 0x7ff, b & ((1 << 52) - 1)
    if e == 0x7ff:
        return None
    n = m if e == 0 else (m | 1 << 52) << (e - 1)
    return -n if b >> 63 else n


def rnd(num, den):
    """num/den units, rounded; None if it overflows"""
    try:
        x = float(Fraction(num, den * S))
    except OverflowError:
        return None
    return unpack(struct.unpack(">Q", struct.pack(">d", x))[0])


def real(ex, st, v):
    """number of units"""
    if not isinstance(v, Opq):
        return None
    if v.kind == "freal":
        return v.a[0]
    if v.kind == "fbits" and not isinstance(v.a[0], P):
        n = unpack(v.a[0])
        return None if n is None else K(n)
    if v.kind == "frange" and len(v.a) == 3:
        x = st.norm(v.a[2])
        lo, hi = st.range(x)
        if max(-lo, hi) <= 1 << 53:
            return x * S
        return rounded(ex, st, x * S, 1, "float")
    return None


def rounded(ex, st, num, den, name):
    num = st.norm(num)
    if num.is_const():
        r = rnd(num.const(), den)
        if r is None:
            raise Unsupported("float overflow")
        return K(r)
    memo = st.ghost.get("rounded") or {}
    k = (num.key(), den)
    if k in memo:
        return memo[k]
    neg = not ex.need(st, ge(num, 0))
    n = -num if neg else num
    lo, hi = st.range(n)
    a, b = rnd(max(lo, 0), den), rnd(hi, den)
    if b is None:
        raise Unsupported("float overflow")
    r = ex.newvar(st, name, a, b)
    st.assume(near(n, den, r, st.prove(Or(eq(n, 0), ge(n, den << 52)), False)[0] == "proved"))
    r = -r if neg else r
    st.ghost["rounded"] = {**memo, k: r}
    return r


def near(n, den, r, normal):
    d = (r * den - n) * (1 << 53)
    f = And(le(d, n), le(-d, n))
    if normal:
        return f
    e = (r * den - n) * 2
    return Or(f, And(le(e, den), le(-e, den)))


def binop(ex, st, op, a, b):
    x, y = real(ex, st, a), real(ex, st, b)
    if x is None or y is None:
        return None
    x, y = st.norm(x), st.norm(y)
    if op in ("Add", "Sub"):
        if op == "Sub":
            y = -y
        if x.is_const() and x.const() == 0:
            return Opq("freal", y)
        if y.is_const() and y.const() == 0:
            return Opq("freal", x)
        r = rounded(ex, st, x + y, 1, "sum")
        if not r.is_const():
            st.assume(And(Or(ne(x, 0), eq(r, y)), Or(ne(y, 0), eq(r, x))))
        return Opq("freal", r)
    if op == "Mul" and (x.is_const() or y.is_const()):
        return Opq("freal", rounded(ex, st, x * y, S, "product"))
    if op == "Div" and y.is_const() and y.const():
        c = y.const()
        return Opq("freal", rounded(ex, st, x * (S if c > 0 else -S), abs(c), "quotient"))
    return None


def compare(ex, st, op, a, b):
    x, y = real(ex, st, a), real(ex, st, b)
    if x is None or y is None:
        return None
    return ex.CMP[op](x, y)


def neg(ex, st, a):
    x = real(ex, st, a)
    return None if x is None else Opq("freal", -x)


def spec_c17(l, p, op):
    """relative error 2^-51"""
    C = 10 ** p

    def post(s, a, o):
        if o.kind == "panic":
            return [("no-panic", FF)]
        if s.concrete:
            n = unpack(o.val[1])
            n = None if n is None else K(n)
        else:
            n = real(s.ex, s.st, o.val)
        if n is None:
            return [("finite", FF)]
        x = a[0] * S
        d = (n * C - x) * (1 << 51)
        pos = s.fork(ge(a[0], 0))
        m = x if pos else -x
        return [("zero-and-sign", Or(And(eq(a[0], 0), eq(n, 0)), And(ge(a[0], 1), ge(n, 1)), And(le(a[0], -1), le(n, -1)))),
                ("relative-error-2^-51", And(le(d, m), le(-d, m)))]
    return Spec(post)


def h_abs(ex, st, fr, fn, args, tys, dty):
    x = real(ex, st, args[0])
    if x is None:
        raise Unsupported("absolute value of this float")
    return Opq("freal", x if ex.need(st, ge(x, 0)) else -x)


def h_class(r):
    def h(ex, st, fr, fn, args, tys, dty):
        if real(ex, st, args[0]) is None:
            raise Unsupported("class of this float")
        return r
    return h


FLOATS = ((re.compile(r"<impl f64>::abs$"), h_abs), (re.compile(r"<impl f64>::is_finite$"), h_class(T)), (re.compile(r"<impl f64>::(is_nan|is_infinite)$"), h_class(FF)))
