"""Contracts of the public operations, written from the property statements.

A spec is evaluated twice: symbolically (postcondition obligations) and on concrete values (replay).
Arguments arrive as integer polynomials (raw representation), round modes as ('Ceil',) etc.
"""
from terms import *
from unit import Spec, Out

W = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128}


def lim(l):
    b = W[l]
    return -(1 << (b - 1)), (1 << (b - 1)) - 1


def exact_or_overflow(l, val):
    """Ok(val) when representable, Err(Overflow) otherwise"""
    lo, hi = lim(l)

    def post(s, a, o):
        if o.kind == "panic":
            return [("no-panic", FF)]
        v = val(a)
        inr = And(ge(v, lo), le(v, hi))
        r = o.val
        if r[0] == "Ok":
            return [("ok-is-exact", eq(r[1], v))]
        if r == ("Err", ("Overflow",)):
            return [("overflow-only-when-unrepresentable", Not(inr))]
        return [("no-other-error", FF)]
    return Spec(post)


def spec_c01(l, p, op):
    f = {"cadd": lambda a: a[0] + a[1], "csub": lambda a: a[0] - a[1], "cneg": lambda a: -a[0]}
    if op == "abs":
        lo, hi = lim(l)

        def post(s, a, o):
            if o.kind == "panic":
                return [("no-panic", FF)]
            x = a[0]
            if o.val[0] == "Ok":
                r = o.val[1]
                return [("abs-exact", And(ge(r, 0), Or(eq(r, x), eq(r, -x))))]
            if o.val == ("Err", ("Overflow",)):
                return [("overflow-only-at-MIN", eq(x, lo))]
            return [("no-other-error", FF)]
        return Spec(post)
    return exact_or_overflow(l, f[op])


def spec_c02(l, p, op):
    return exact_or_overflow(l, lambda a: a[0] * a[1])


SPECS = {"c01": spec_c01, "c02": spec_c02}


# ---------------------------------------------------------------- correct rounding
def rounded(mode, R, N, D):
    """R is N/D (D > 0) correctly rounded to an integer"""
    RD = asP(R) * asP(D)
    N, D = asP(N), asP(D)
    if mode == "Floor":
        return And(ge(N, RD), lt(N, RD + D))
    if mode == "Ceil":
        return And(le(N, RD), gt(N, RD - D))
    return Or(And(ge(N, 0), ge(N * 2 + D, RD * 2), lt(N * 2 + D, RD * 2 + D * 2)),
              And(lt(N, 0), ge(D - N * 2, RD * -2), lt(D - N * 2, RD * -2 + D * 2)))


def unrepresentable(mode, N, D, lo, hi):
    """the correctly rounded N/D (D > 0) lies outside [lo, hi]"""
    N, D = asP(N), asP(D)
    if mode == "Floor":
        return Or(lt(N, D * lo), ge(N, D * (hi + 1)))
    if mode == "Ceil":
        return Or(le(N, D * (lo - 1)), gt(N, D * hi))
    return Or(And(ge(N, 0), ge(N * 2 + D, D * (2 * (hi + 1)))), And(lt(N, 0), ge(D - N * 2, D * (2 * (1 - lo)))))


def posneg(s, N, D):
    """make the divisor positive"""
    if s.fork(lt(D, 0)):
        return -asP(N), -asP(D)
    return asP(N), asP(D)


def rounded_or_overflow(o, mode, N, D, lo, hi):
    if o.kind == "panic":
        return [("no-panic", FF)]
    if o.val[0] == "Ok":
        return [(f"correctly-rounded-{mode}", rounded(mode, o.val[1], N, D))]
    if o.val == ("Err", ("Overflow",)):
        return [("overflow-only-when-unrepresentable", unrepresentable(mode, N, D, lo, hi))]
    return [("no-other-error", FF)]


def spec_c03(l, p, op):
    lo, hi = lim(l)

    def post(s, a, o):
        if o.kind == "panic":
            return [("no-panic", FF)]
        r = o.val
        if op == "sat_rmul":
            N, D, mode = a[0] * a[1], K(10 ** p), a[2][0]
            ov = unrepresentable(mode, N, D, lo, hi)
            return [("rounded-or-clamped", Or(rounded(mode, r, N, D), And(ov, gt(N, 0), eq(r, hi)), And(ov, lt(N, 0), eq(r, lo))))]
        v = {"add": lambda: a[0] + a[1], "sub": lambda: a[0] - a[1]}.get(op[4:], lambda: a[0] * a[1])()
        return [("exact-or-clamped", Or(And(eq(r, v), ge(v, lo), le(v, hi)), And(gt(v, hi), eq(r, hi)), And(lt(v, lo), eq(r, lo))))]
    return Spec(post)


def spec_rmul(l, p, op):
    lo, hi = lim(l)
    return Spec(lambda s, a, o: rounded_or_overflow(o, a[2][0], a[0] * a[1], K(10 ** p), lo, hi))


def division(s, o, mode, N, D, lo, hi):
    if o.kind != "panic" and o.val == ("Err", ("DivisionByZero",)):
        return [("division-by-zero-only-for-zero", eq(D, 0))]
    if s.fork(eq(D, 0)):
        if o.kind == "panic":
            return [("no-panic", FF)]
        return [("zero-divisor-gives-DivisionByZero", FF)]
    N, D = posneg(s, N, D)
    return rounded_or_overflow(o, mode, N, D, lo, hi)


def spec_rdiv(l, p, op):
    lo, hi = lim(l)
    C = 10 ** p
    if op == "rdiv":
        return Spec(lambda s, a, o: division(s, o, a[2][0], a[0] * C, a[1], lo, hi))
    return Spec(lambda s, a, o: division(s, o, a[1][0], K(C * C), a[0], lo, hi))


def spec_c06(l, p, op):
    lo, hi = lim(l)
    if op in ("rdiv", "rdiv_int"):
        return Spec(lambda s, a, o: division(s, o, a[2][0], a[0], a[1], lo, hi))
    C = 10 ** p

    def post(s, a, o):
        # a plain integer dividend that is not itself representable gives Overflow, also for a zero divisor
        N = a[0] * C
        if s.fork(Or(lt(N, lo), gt(N, hi))):
            if o.kind == "panic":
                return [("no-panic", FF)]
            if o.val == ("Err", ("Overflow",)):
                return [("unrepresentable-dividend", T)]
            return [("unrepresentable-dividend-gives-overflow", And(eq(a[1], 0), T if o.val == ("Err", ("DivisionByZero",)) else FF))]
        return division(s, o, a[2][0], N * C, a[1], lo, hi)
    return Spec(post)


def spec_c07(l, p, op):
    lo, hi = lim(l)
    C = 10 ** p

    def post(s, a, o):
        if op == "integral":
            if o.kind == "panic":
                return [("no-panic", FF)]
            return [(f"integral-{a[1][0]}", rounded(a[1][0], o.val, a[0], C))]
        mode = {"floor": "Floor", "ceil": "Ceil", "round": "Nearest"}[op]
        if o.kind == "panic":
            # allowed only when the rounded integer is not representable as a fixed-point number
            return [("panics-only-when-unrepresentable", unrepresentable(mode, a[0], K(C), -((-lo) // C), hi // C))]
        q, rem = s.divrem(o.val, C)
        return [(f"{op}-is-integral", eq(rem, 0)), (f"{op}-correctly-rounded", rounded(mode, q, a[0], C))]
    return Spec(post)


SPECS.update({"c03": spec_c03, "c04": spec_rmul, "c18": spec_rmul, "c05": spec_rdiv, "c19": spec_rdiv, "c06": spec_c06, "c07": spec_c07})


# ---------------------------------------------------------------- C09 - C13, C24
def no_panic(o):
    return [("no-panic", FF)] if o.kind == "panic" else None


def spec_c09(l, p, op):
    def post(s, a, o):
        b = no_panic(o)
        if b:
            return b
        n, r = a[0] + a[1], o.val
        m = a[2][0]
        if m == "Floor":
            return [("floor-of-mean", And(ge(n, r * 2), le(n, r * 2 + 1)))]
        if m == "Ceil":
            return [("ceil-of-mean", And(le(n, r * 2), ge(n, r * 2 - 1)))]
        return [("closest-to-mean", And(le(n, r * 2 + 1), ge(n, r * 2 - 1)))]
    return Spec(post)


def spec_c10(l, p, op):
    lo, hi = lim(l)
    pows = []
    x = 1
    while x <= hi:
        pows.append(x)
        x *= 10

    def tight(n, r):
        """r is the smallest power of ten >= n, n >= 0"""
        return Or(And(le(n, 1), eq(r, 1)), *[And(eq(r, t), le(n, t), gt(n, t // 10)) for t in pows[1:]])

    def post(s, a, o):
        b = no_panic(o)
        if b:
            return b
        x = a[0]
        if o.val[0] == "Ok":
            r = o.val[1]
            return [("tightest-power", Or(And(ge(x, 0), tight(x, r)), And(lt(x, 0), tight(-x, -r))))]
        if o.val == ("Err", ("Overflow",)):
            return [("overflow-only-beyond-the-last-power", Or(gt(x, pows[-1]), lt(x, -pows[-1])))]
        return [("no-other-error", FF)]
    return Spec(post)


def spec_c11(l, p, op):
    def post(s, a, o):
        b = no_panic(o)
        if b:
            return b
        if s.fork(eq(a[1], 0)):
            return [("zero-step-unchanged", eq(o.val, a[0]))]
        q, r = s.divrem(a[0], a[1])
        return [("truncated-to-multiple", eq(o.val, a[0] - r))]
    return Spec(post)


def spec_c12(l, p, op):
    lo, hi = lim(l)

    def post_from(s, a, o):
        b = no_panic(o)
        if b:
            return b
        m, e = a
        ok = o.val[0] == "Ok"
        if s.fork(Or(lt(e, -p), gt(e, 10))):
            return [("unsupported-exponent-is-an-error", FF if ok else T)]
        k = s.const(e)
        if k is None:
            for c in range(-p, 11):
                if s.fork(eq(e, c)):
                    k = c
                    break
        v = m * 10 ** (k + p)
        if ok:
            return [("exact-value", eq(o.val[1], v))]
        return [("error-only-when-unrepresentable", Or(lt(v, lo), gt(v, hi)))]

    def split_from(a):
        e = a[1]
        r = range(-p - 3, 46)
        return [lt(e, r[0])] + [eq(e, c) for c in r] + [gt(e, r[-1])]

    def pre(s, a):
        return ge(a[1], -p)

    def post_to(s, a, o):
        b = no_panic(o)
        if b:
            return b
        m, e = o.val
        x, mx = a
        if s.fork(eq(x, 0)):
            return [("zero", And(eq(m, 0), Or(And(le(mx, 0), eq(e, mx)), And(gt(mx, 0), eq(e, 0)))))]
        k = s.const(e)
        if k is None:
            for c in range(-p, 60):
                if s.fork(eq(e, c)):
                    k = c
                    break
            else:
                return [("exponent-in-range", FF)]
        if k < -p:
            return [("exponent-in-range", FF)]
        q, rem = s.divrem(m, 10)
        return [("exact-value", eq(m * 10 ** (k + p), x)), ("exponent-in-range", le(k, mx)), ("exponent-maximal", Or(eq(k, mx), ne(rem, 0)))]

    def pre_re(s, a):
        return And(ge(a[1], -p), le(a[1], 10))

    def post_re(s, a, o):
        b = no_panic(o)
        if b:
            return b
        return [("rebuilt-equal", eq(o.val[1], a[0]) if o.val[0] == "Ok" else FF)]
    if op == "from_decimal":
        return Spec(post_from, split=split_from)
    if op == "to_decimal":
        return Spec(post_to, pre=pre)
    return Spec(post_re, pre=pre_re)


def spec_c13(l, p, op):
    lo, hi = lim(l)

    def post(s, a, o):
        b = no_panic(o)
        if b:
            return b
        v = a[0] * 10 ** p
        if o.val[0] == "Ok":
            return [("exact-value", eq(o.val[1], v))]
        return [("error-only-when-unrepresentable", Or(lt(v, lo), gt(v, hi)))]
    return Spec(post)


def asF(x):
    """boolean results are formulas symbolically and 0/1 natively"""
    return x if isinstance(x, F) else ne(x, 0)


def spec_c24(l, p, op):
    lo, hi = lim(l)
    C = 10 ** (p or 0)
    consts = {"zero": 0, "zero_trait": 0, "one": C, "one_trait": C, "epsilon": 1, "min_const": lo, "min_trait": lo, "max_const": hi, "max_trait": hi,
              "precision": p, "default": 0, "int_zero": 0, "int_one": 1, "int_min": lo, "int_max": hi}
    rel = {"lt": lt, "le": le, "gt": gt, "ge": ge, "eq": eq, "ne": ne}

    def post(s, a, o):
        b = no_panic(o)
        if b:
            return b
        r = o.val
        if op in consts:
            return [("constant-value", eq(r, consts[op]))]
        if op in rel:
            return [("agrees-with-value", Iff(asF(r), rel[op](a[0], a[1])))]
        if op in ("cmp", "partial_cmp"):
            if op == "partial_cmp":
                if r[0] != "Some":
                    return [("total-order", FF)]
                r = r[1]
            return [("agrees-with-order", {"Less": lt, "Equal": eq, "Greater": gt}[r[0]](a[0], a[1]))]
        if op == "hash_eq":
            return [("equal-values-hash-equally", Or(ne(a[0], a[1]), asF(r)))]
        if op == "max":
            return [("maximum", And(Or(eq(r, a[0]), eq(r, a[1])), ge(r, a[0]), ge(r, a[1])))]
        if op == "min":
            return [("minimum", And(Or(eq(r, a[0]), eq(r, a[1])), le(r, a[0]), le(r, a[1])))]
        if op == "signum":
            return [("sign", Or(And(gt(a[0], 0), eq(r, 1)), And(eq(a[0], 0), eq(r, 0)), And(lt(a[0], 0), eq(r, -1))))]
        return [("raw-value", eq(r, a[0]))]
    return Spec(post)


SPECS.update({"c09": spec_c09, "c10": spec_c10, "c11": spec_c11, "c12": spec_c12, "c13": spec_c13, "c24": spec_c24})


def spec_sqrt(l, p, op):
    C = 10 ** p

    def post(s, a, o):
        if o.kind == "panic":
            return [("no-panic", FF)]
        x, mode = a[0], a[1][0]
        if o.val == ("Err", ("DomainViolation",)):
            return [("domain-violation-only-when-negative", lt(x, 0))]
        if o.val[0] != "Ok":
            return [("no-other-error", FF)]
        r, N = o.val[1], x * C
        sq = {"Floor": And(le(r * r, N), gt((r + 1) * (r + 1), N)), "Ceil": And(ge(r * r, N), Or(eq(r, 0), lt((r - 1) * (r - 1), N))),
              "Nearest": And(ge(N * 4, (r * 2 - 1) * (r * 2 - 1)), le(N * 4, (r * 2 + 1) * (r * 2 + 1)))}[mode]
        # a zero result is only nearest to the root of zero
        if mode == "Nearest":
            sq = Or(And(eq(r, 0), eq(N, 0)), And(gt(r, 0), sq))
        return [(f"root-rounded-{mode}", And(ge(x, 0), ge(r, 0), sq))]
    return Spec(post)


SPECS.update({"c08": spec_sqrt, "c20": spec_sqrt})


def spec_c25(l, p, op):
    """both components - the wrapper's outcome and the outcome on the wrapped values - are the same"""
    def post(s, a, o):
        if o.kind == "panic":
            return [("no-panic", FF)]
        w, d = o.val
        if isinstance(w, tuple):
            if not isinstance(d, tuple) or w[0] != d[0]:
                return [("same-outcome", FF)]
            if w[0] == "Err":
                return [("same-error", T if w == d else FF)]
            return [("same-value", eq(w[1], d[1]))]
        return [("same-value", eq(w, d))]
    return Spec(post)


SPECS["c25"] = spec_c25


# ---------------------------------------------------------------- text
WHITE = set([9, 10, 11, 12, 13, 32, 0x85, 0xA0, 0x1680, 0x2028, 0x2029, 0x202F, 0x205F, 0x3000] + list(range(0x2000, 0x200B)))


def read_decimal(b):
    """(sign, integer digits, fraction digits or None) of well-formed decimal text, else None"""
    import re
    t = b.decode()
    i, j = 0, len(t)
    while i < j and ord(t[i]) in WHITE:
        i += 1
    while i < j and ord(t[j - 1]) in WHITE:
        j -= 1
    m = re.fullmatch(r"([+-]?)([0-9]+)(?:\.([0-9]+))?", t[i:j])
    return m and (-1 if m[1] == "-" else 1, m[2], m[3])


def parsed(b, p, exact, lo, hi):
    """what reading the text must give: the raw value or None"""
    m = read_decimal(b)
    if m is None:
        return None
    sg, i, f = m
    f = f or ""
    if exact and len(f) > p:
        return None
    n = int(i + f)
    v = n * 10 ** (p - len(f)) if len(f) <= p else (2 * n + 10 ** (len(f) - p)) // (2 * 10 ** (len(f) - p))
    v *= sg
    return v if lo <= v <= hi else None


def spec_c14(l, p, op):
    lo, hi = lim(l)
    exact, C = op == "from_str_exact", 10 ** p

    def post(s, a, o):
        if o.kind == "panic":
            return [("no-panic", FF)]
        r = o.val
        if s.concrete:
            v = parsed(a[0], p, exact, lo, hi)
            if v is None:
                return [("error-expected", T if r[0] == "Err" else FF)]
            return [("parsed-value", eq(r[1], v) if r[0] == "Ok" else FF)]
        from text import Fork, Txt, win, trimmed, first, byte, digits, val
        ex, st = s.ex, s.st
        w = trimmed(ex, st, win(st, a[0]))

        def bad(c):
            return [("ill-formed-text-is-rejected", Not(c) if r[0] == "Ok" else T)]
        if s.fork(eq(w.lo, w.hi)):
            return bad(T)
        F = first(ex, st, w, 46)
        b0 = byte(ex, st, w.tid, w.lo)
        neg = s.fork(eq(b0, 45))
        d = w.lo + (1 if neg or s.fork(eq(b0, 43)) else 0)
        if s.fork(ge(d, F)):
            return bad(T)
        if s.fork(eq(digits(ex, st, Txt(w.tid, d, F)), 0)):
            return bad(T)
        I = val(ex, st, Txt(w.tid, d, F))
        if s.fork(eq(F, w.hi)):
            mag = I * C
        else:
            n = w.hi - F - 1
            if s.fork(eq(n, 0)):
                return bad(T)
            fw = Txt(w.tid, F + 1, w.hi)
            if s.fork(eq(digits(ex, st, fw), 0)):
                return bad(T)
            if s.fork(le(n, p)):
                if s.const(n) is None:
                    raise Fork([eq(n, k) for k in range(1, p + 1)])
                mag = I * C + val(ex, st, fw) * 10 ** (p - s.const(n))
            elif exact:
                return bad(T)
            else:
                mag = I * C + val(ex, st, Txt(w.tid, F + 1, F + 1 + p)) + (1 if s.fork(ge(byte(ex, st, w.tid, F + 1 + p), 53)) else 0)
        v = -mag if neg else mag
        if r[0] == "Ok":
            return [("parsed-value", eq(r[1], v))]
        return [("error-only-when-unrepresentable", Or(lt(v, lo), gt(v, hi)))]
    return Spec(post)


SPECS["c14"] = spec_c14


def spec_c21(l, p, op):
    """literal text of at least one character; a literal that is not accepted is not in question"""
    def pre(s, a):
        if s.concrete:
            return T
        from text import win
        w = win(s.st, a[0])
        return And(ge(w.hi - w.lo, 1), le(w.hi - w.lo, 2 ** 31 - 1))

    def post(s, a, o):
        if s.concrete:
            import re
            m = re.fullmatch(r"([+-]?)([0-9]*)(?:\.([0-9]*))?", a[0].decode())
            f = (m and m[3]) or ""
            if not m or len(f) > p:
                return [("rejected", T if o.kind == "panic" else FF)]
            v = int("0" + m[2] + f) * 10 ** (p - len(f)) * (-1 if m[1] == "-" else 1)
            if o.kind == "panic":
                # literals in the usual form are accepted as long as they fit
                usual = re.fullmatch(r"-?(0|[1-9][0-9]*)(\.[0-9]+)?", a[0].decode()) and abs(v) <= lim(l)[1]
                return [("accepted", FF if usual else T)]
            return [("exact-value", eq(o.val, v))]
        if o.kind == "panic":
            return [("not-accepted", T)]
        from text import Fork, Txt, win, first, byte, digits, val
        ex, st = s.ex, s.st
        w = win(st, a[0])
        F = first(ex, st, w, 46)
        b0 = byte(ex, st, w.tid, w.lo)
        neg = s.fork(eq(b0, 45))
        d = w.lo + (1 if neg or s.fork(eq(b0, 43)) else 0)
        bad = [("ill-formed-literal-is-rejected", FF)]
        if s.fork(gt(d, F)) or s.fork(eq(digits(ex, st, Txt(w.tid, d, F)), 0)):
            return bad
        I = val(ex, st, Txt(w.tid, d, F))
        if s.fork(eq(F, w.hi)):
            mag = I * 10 ** p
        else:
            n = w.hi - F - 1
            if s.fork(gt(n, p)):
                return [("too-many-fractional-digits-are-rejected", FF)]
            if s.const(n) is None:
                raise Fork([eq(n, k) for k in range(0, p + 1)])
            fw = Txt(w.tid, F + 1, w.hi)
            if s.fork(eq(digits(ex, st, fw), 0)):
                return bad
            mag = I * 10 ** p + val(ex, st, fw) * 10 ** (p - s.const(n))
        return [("exact-value", eq(o.val, -mag if neg else mag))]
    return Spec(post, pre=pre)


SPECS["c21"] = spec_c21


def canonical(s, x, toks, p):
    """the pieces denote x with p fractional digits, in the canonical form"""
    from text import Fork, Txt, byte, digits, val, shorter
    ex, st = s.ex, s.st
    C = 10 ** p
    res = []
    toks = list(toks)

    def isb(t, c):
        return t[0] == "b" and s.fork(eq(t[1], c))
    neg = s.fork(lt(x, 0))
    if neg:
        if not toks or not isb(toks[0], 45):
            return res + [("minus-sign", FF)]
        toks = toks[1:]
    k = next((i for i, t in enumerate(toks) if isb(t, 46)), None)
    if k is None:
        return res + [("decimal-point", FF)]

    def number(ts):
        """value, length, first and last byte of digits"""
        v, n, ok, bs = K(0), K(0), T, []
        for t in ts:
            if t[0] == "b":
                v, n = v * 10 + t[1] - 48, n + 1
                ok = And(ok, ge(t[1], 48), le(t[1], 57))
                bs += [t[1], t[1]]
            else:
                w = t[1]
                m = st.norm(asP(w.hi) - asP(w.lo))
                if s.fork(eq(m, 0)):
                    continue
                bs += [byte(ex, st, w.tid, w.lo), byte(ex, st, w.tid, w.hi - 1)]
                ok = And(ok, eq(digits(ex, st, w), 1))
                if not (v.is_const() and v.const() == 0):
                    if s.const(m) is None:
                        raise Fork([eq(m, i) for i in range(st.range(m)[0], st.range(m)[1] + 1)])
                    v = v * 10 ** s.const(m)
                v, n = v + val(ex, st, w), n + m
        return v, st.norm(n), ok, bs
    I, n, ok, bs = number(toks[:k])
    if not bs:
        return res + [("integer-digits", FF)]
    res += [("integer-digits", ok), ("no-leading-zero", Or(eq(n, 1), ne(bs[0], 48)))]
    f, n, ok, bs = number(toks[k + 1:])
    if not bs:
        return res + [("fraction-digits", FF)]
    if s.const(n) is None:
        raise Fork([eq(n, i) for i in range(st.range(n)[0], st.range(n)[1] + 1)])
    n = s.const(n)
    if n > 1 and toks[-1][0] != "b" and st.decide(ne(bs[-1], 48)) is not True:
        shorter(ex, st, toks[-1][1])
    res += [("fraction-digits", ok), ("no-trailing-zero", T if n == 1 else ne(bs[-1], 48))]
    if n > p:
        f, n = (f, p) if n == 1 else (None, 0)
        if f is None:
            return res + [("exact-value", FF)]
        res.append(("exact-value", And(eq(f, 0), eq(I * C, -x if neg else x))))
    else:
        res.append(("exact-value", eq(I * C + f * 10 ** (p - n), -x if neg else x)))
    return res


def spec_c15x(l, p, op):
    """what reaches the writer denotes the number, canonically"""
    def post(s, a, o):
        if o.kind == "panic":
            return [("no-panic", FF)]
        wr = s.st.ghost.get("wr", ())
        x = a[0]
        x = x[0] if isinstance(x, tuple) else x
        return [("one-write", T if len(wr) == 1 else FF), ("writer's-result", eq(wr[0], 0 if o.val[0] == "Ok" else 1) if wr else FF)] + canonical(s, x, s.st.ghost.get("out", ()), p)
    return Spec(post)


def printed(x, p):
    C = 10 ** p
    i, f = divmod(abs(x), C)
    return ("-" if x < 0 else "") + str(i) + "." + ((str(f).zfill(p).rstrip("0") if p else "") or "0")


def spec_c15(l, p, op):
    """on actual values: the text itself"""
    def post(s, a, o):
        if o.kind == "panic":
            return [("no-panic", FF)]
        if op == "reparse":
            return [("reads-back", eq(o.val[1], a[0]) if o.val[0] == "Ok" else FF)]
        return [("canonical-text", T if o.val == printed(asP(a[0]).const(), p).encode() else FF)]
    return Spec(post)


SPECS.update({"c15x": spec_c15x, "c15": spec_c15})


WIRE = {"i8": "I8", "i16": "I16", "i32": "I32", "i64": "I64", "i128": "I128"}


def agree(x, y, f=lambda v: v):
    """same outcome: both fail, or both give the same value"""
    if (x[0] == "Ok") != (y[0] == "Ok"):
        return FF
    return eq(x[1], y[1]) if x[0] == "Ok" and not isinstance(x[1], tuple) else T if x[0] == "Err" else FF


def keyed(s, key):
    """is the map's key the one that stands for a tag's text"""
    if s.concrete:
        return T if key == b"$value" else FF
    import text
    return text.same_text(s.ex, s.st, text.win(s.st, key), b"$value")


def spec_c22(l, p, op):
    lo, hi = lim(l)

    def rec(s, v):
        """(present, kind, payload) of a serialisation result, or None when it failed"""
        if s.concrete:
            if v[0][0] != "Ok":
                return None
            return (v[0][1], v[1][0], v[2] if len(v) > 2 else None)
        if v[0] != "Ok":
            return None
        return (v[1][0],) + tuple(v[1][1]) + ((None,) if len(v[1][1]) == 1 else ())

    def flag(f, want):
        if isinstance(f, P):
            return eq(f, 1 if want else 0)
        return f if want else Not(f)

    def post(s, a, o):
        if o.kind == "panic":
            return [("no-panic", FF)]
        v = o.val
        if op in ("ser_human", "str_ser", "str_opt_ser", "ser_bin", "repr_ser", "repr_opt_ser"):
            r = rec(s, v)
            if r is None:
                return [("written", FF)]
            x = a[0]
            if "opt" in op:
                if x[0] == "None":
                    return [("absent-stays-absent", And(flag(r[0], False), T if r[1] == "Absent" else FF))]
                x = x[1]
            out = [("marked-present", flag(r[0], "opt" in op))]
            if "repr" in op or op == "ser_bin":
                return out + [("raw-integer-token", T if r[1] == WIRE[l] else FF), ("raw-integer", eq(r[2], x) if r[1] == WIRE[l] else FF)]
            if r[1] != "Text":
                return out + [("text-token", FF)]
            if s.concrete:
                return out + [("canonical-text", T if r[2] == printed(asP(x).const(), p).encode() else FF)]
            kept = s.st.ghost.get("kept", ())
            if len(kept) != 1:
                return out + [("one-text", FF)]
            return out + canonical(s, x, kept[0], p)
        if op in ("float_ser", "float_opt_ser"):
            if s.concrete:
                n = len(v) // 2
                return [("the-converted-value", T if v[0][0] == "Ok" and (v[0][1],) + tuple(v[1:n]) == tuple(v[n:]) or repr(((v[0][1],) + tuple(v[1:n]))) == repr(tuple(v[n:])) else FF)]
            from deps import same
            return [("the-converted-value", same(v[0][1], v[1]) if v[0][0] == "Ok" else FF)]
        if op in ("str_opt_none", "float_opt_none"):
            return [("absent-stays-absent", T if v == ("Ok", ("None",)) else FF)]
        if op == "de_map_empty":
            return [("rejected", T if v[0] == "Err" else FF)]
        if op == "de_map" and v[0][0] == "Err":
            # rejected because of the key, or as the conversion does
            return [("as-the-conversion", Or(Not(keyed(s, a[1])), FF if v[1][0] == "Ok" else T))]
        if op == "de_map":
            return [("the-text's-key", keyed(s, a[1])), ("as-the-conversion", agree(*v))]
        if op in ("de_bin", "repr_de"):
            return [("raw-integer", eq(v[1], a[0]) if v[0] == "Ok" else FF)]
        if op == "repr_opt_de":
            if a[0][0] == "None":
                return [("absent-stays-absent", T if v == ("Ok", ("None",)) else FF)]
            return [("raw-integer", eq(v[1][1], a[0][1]) if v[0] == "Ok" and v[1][0] == "Some" else FF)]
        if op in ("repr_de_i64", "repr_de_u64"):
            fits = And(ge(a[0], lo), le(a[0], hi))
            return [("raw-integer", And(fits, eq(v[1], a[0])) if v[0] == "Ok" else Not(fits))]
        x, y = v
        if "opt" in op and x[0] == "Ok":
            if x[1][0] != "Some":
                return [("as-the-conversion", FF)]
            x = ("Ok", x[1][1])
        return [("as-the-conversion", agree(x, y))]
    return Spec(post)


SPECS["c22"] = spec_c22


def spec_c23(l, p, op):
    import scale
    return scale.spec_c23(l, p, op)


SPECS["c23"] = spec_c23


def spec_c17(l, p, op):
    import floats
    return floats.spec_c17(l, p, op)


SPECS["c17"] = spec_c17


def spec_c16(l, p, op):
    import tofix
    return tofix.spec_c16(l, p, op)


SPECS["c16"] = spec_c16
