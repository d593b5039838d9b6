"""Text of unknown length and content: windows, bytes, decimal values, and the contracts assumed of core's string functions."""
import re

from exec import *

CAP = 1 << 200      # decimal values of windows of unknown length are clipped here
MAXLEN = (1 << 63) - 1


class Txt:
    """the bytes lo..hi of a text"""
    __slots__ = ("tid", "lo", "hi")

    def __init__(self, tid, lo, hi):
        self.tid, self.lo, self.hi = tid, lo, hi

    @property
    def len(self):
        return self.hi - self.lo

    def __repr__(self):
        return f"text{self.tid}[{self.lo!r}..{self.hi!r}]"


def newtext(ex, st, name, maxlen=MAXLEN, minlen=0):
    n = ex.newvar(st, name + ".len", minlen, maxlen)
    obj = ex.newobj(st, Opq("text"))
    st.mem[obj] = Opq("text", obj)
    return Ref(obj, (("w", ZERO),), n)


def istext(st, r):
    v = st.mem.get(r.obj) if isinstance(r, Ref) else None
    return isinstance(v, Opq) and v.kind == "text"


def win(st, r):
    if not istext(st, r) or r.meta is None or len(r.path) != 1:
        raise Unsupported(f"text expected, got {r!r}")
    b = st.norm(r.path[0][1])
    return Txt(r.obj, b, st.norm(b + r.meta))


def ref(t):
    return Ref(t.tid, (("w", asP(t.lo)),), asP(t.hi) - asP(t.lo))


def zero(st, d):
    d = st.norm(asP(d))
    if d.is_const():
        return d.const() == 0
    return st.range(d) == (0, 0)


def tx(st, k):
    return st.ghost.get("tx", {}).get(k, ())


def add(st, k, item):
    d = dict(st.ghost.get("tx", {}))
    d[k] = d.get(k, ()) + (item,)
    st.ghost["tx"] = d


def rule(st, f):
    """assume an instance of a definition unless it is already settled"""
    if st.decide(f) is not True:
        st.assume(f)


# ------------------------------------------------------------ definitions over a text
def byte(ex, st, tid, ix):
    ix = st.norm(asP(ix))
    for t, j, b in tx(st, "b"):
        if t == tid and zero(st, ix - j):
            return b
    b = ex.newvar(st, "byte", 0, 255)
    add(st, "b", (tid, ix, b))
    for d in tx(st, "d"):
        digit_rule(st, d, (tid, ix, b))
    for f in tx(st, "f"):
        first_rule(st, f, (tid, ix, b))
    for z in tx(st, "z"):
        zero_rule(st, z, (tid, ix, b))
    for e in tx(st, "num"):
        num_rule(ex, st, e, (tid, ix, b))
    return b


def digit_rule(st, d, b):
    tid, lo, hi, flag = d
    t2, ix, v = b
    if t2 == tid:
        rule(st, Or(eq(flag, 0), lt(ix, lo), ge(ix, hi), And(ge(v, 48), le(v, 57))))


def first_rule(st, f, b):
    tid, lo, hi, pat, pos = f
    t2, ix, v = b
    if t2 == tid:
        rule(st, Or(lt(ix, lo), ge(ix, pos), ne(v, pat)))
        rule(st, Or(ne(ix, pos), eq(pos, hi), eq(v, pat)))


def digits(ex, st, w):
    """1 if the window consists of ASCII digits (also when empty), else 0"""
    lo, hi = st.norm(asP(w.lo)), st.norm(asP(w.hi))
    if zero(st, hi - lo):
        return K(1)
    for t, a, b, f in tx(st, "d"):
        if t == w.tid and zero(st, lo - a) and zero(st, hi - b):
            return f
    # one byte more than a window already spoken of
    for t, a, b, f in tx(st, "d"):
        if t == w.tid and zero(st, lo - a) and zero(st, hi - b - 1):
            v = byte(ex, st, w.tid, b)
            flag = ex.newvar(st, "digits", 0, 1)
            isd = And(ge(v, 48), le(v, 57))
            rule(st, Or(And(eq(flag, 1), eq(f, 1), isd), And(eq(flag, 0), Or(eq(f, 0), Not(isd)))))
            d = (w.tid, lo, hi, flag)
            add(st, "d", d)
            return flag
    if zero(st, hi - lo - 1):
        v = byte(ex, st, w.tid, lo)
        flag = ex.newvar(st, "digits", 0, 1)
        isd = And(ge(v, 48), le(v, 57))
        rule(st, Or(And(eq(flag, 1), isd), And(eq(flag, 0), Not(isd))))
    else:
        flag = ex.newvar(st, "digits", 0, 1)
    d = (w.tid, lo, hi, flag)
    add(st, "d", d)
    for b in tx(st, "b"):
        digit_rule(st, d, b)
    # an all-digit window contains only all-digit windows
    for t, a, b, f in tx(st, "d"):
        if t == w.tid and f is not flag:
            rule(st, Or(eq(flag, 0), eq(f, 1), lt(a, lo), gt(b, hi)))
            rule(st, Or(eq(f, 0), eq(flag, 1), lt(lo, a), gt(hi, b)))
    return flag


def val(ex, st, w):
    """decimal value of an all-digit window (clipped at CAP when its length is unknown); unspecified otherwise"""
    lo, hi = st.norm(asP(w.lo)), st.norm(asP(w.hi))
    if zero(st, hi - lo):
        return K(0)
    for t, a, b, v in tx(st, "v"):
        if t == w.tid and zero(st, lo - a) and zero(st, hi - b):
            return v
    for t, a, b, v in tx(st, "v"):
        if t == w.tid and zero(st, lo - a) and zero(st, hi - b - 1):
            c = byte(ex, st, w.tid, b)
            f = digits(ex, st, Txt(w.tid, lo, b))
            if st.decide(And(ge(c, 48), le(c, 57))) is True and st.decide(eq(f, 1)) is True and st.range(v)[1] * 10 + 9 <= CAP:
                r = v * 10 + c - 48
                add(st, "v", (w.tid, lo, hi, r))
                return r
    a, b = st.range(hi - lo)
    if b == 1 and a == 1:
        c = byte(ex, st, w.tid, lo)
        if st.decide(And(ge(c, 48), le(c, 57))) is True:
            r = c - 48
            add(st, "v", (w.tid, lo, hi, r))
            return r
    v = ex.newvar(st, "val", 0, 10 ** b - 1 if b <= 60 else CAP)
    add(st, "v", (w.tid, lo, hi, v))
    return v


def first(ex, st, w, pat):
    """position of the first byte equal to pat, or the end of the window"""
    lo, hi = st.norm(asP(w.lo)), st.norm(asP(w.hi))
    pat = asP(pat)
    for t, a, b, p, f in tx(st, "f"):
        if t == w.tid and zero(st, p - pat) and zero(st, lo - a) and zero(st, hi - b):
            return f
    f = ex.newvar(st, "first", *rng2(st, lo, hi))
    st.assume(And(ge(f, lo), le(f, hi)))
    d = (w.tid, lo, hi, pat, f)
    add(st, "f", d)
    for b in tx(st, "b"):
        first_rule(st, d, b)
    return f


def rng2(st, lo, hi):
    return st.range(lo)[0], st.range(hi)[1]


def trimmed(ex, st, w):
    """the window without surrounding white space"""
    for t, a, b, c, d in tx(st, "t"):
        if t == w.tid and zero(st, w.lo - a) and zero(st, w.hi - b):
            return Txt(t, c, d)
    r = rng2(st, w.lo, w.hi)
    c, d = ex.newvar(st, "trim", *r), ex.newvar(st, "trimend", *r)
    st.assume(And(ge(c, w.lo), le(c, d), le(d, w.hi)))
    add(st, "t", (w.tid, w.lo, w.hi, c, d))
    return Txt(w.tid, c, d)


def zero_rule(st, z, b):
    tid, lo, hi, e = z
    t2, ix, v = b
    if t2 == tid:
        rule(st, Or(lt(ix, e), ge(ix, hi), eq(v, 48)))
        rule(st, Or(ne(ix + 1, e), eq(e, lo), ne(v, 48)))


def num_rule(ex, st, e, b):
    pass


def pow10(ex, st, k):
    """10^k, k >= 0"""
    k = st.norm(asP(k))
    a, b = st.range(k)
    if a == b:
        return K(10 ** a)
    ps = tx(st, "p")
    for j, t in ps:
        if zero(st, j - k):
            return t
    t = ex.newvar(st, "pow10", 1, CAP)
    for j, u in ps:
        if zero(st, j - k - 1):
            st.assume(eq(t * 10, u))
        elif zero(st, k - j - 1):
            st.assume(eq(u * 10, t))
    rule(st, Or(And(eq(k, 0), eq(t, 1)), And(ge(k, 1), ge(t, 10))))
    add(st, "p", (k, t))
    return t


# ------------------------------------------------------------ contracts of core's functions
def en(ex, dty, name, *fs):
    t = ex.prog.ty(dty)
    for i, v in enumerate(t["variants"]):
        if v["name"] == name:
            return En(i, fs)
    raise Unsupported(f"no variant {name}")


def tconst(st, v):
    v = st.norm(v) if isinstance(v, P) else v
    if not isinstance(v, P) or not v.is_const() or not 0 <= v.const() < 128:
        raise Unsupported("pattern that is not an ASCII character")
    return v.const()


def c_trim(ex, st, fr, fn, args, tys, dty):
    return ref(trimmed(ex, st, win(st, args[0])))


def c_split_once(ex, st, fr, fn, args, tys, dty):
    w = win(st, args[0])
    f = first(ex, st, w, tconst(st, args[1]))
    return [(lt(f, w.hi), en(ex, dty, "Some", Agg((ref(Txt(w.tid, w.lo, f)), ref(Txt(w.tid, f + 1, w.hi)))))), (eq(f, w.hi), en(ex, dty, "None"))]


def c_find(ex, st, fr, fn, args, tys, dty):
    w = win(st, args[0])
    f = first(ex, st, w, tconst(st, args[1]))
    return [(lt(f, w.hi), en(ex, dty, "Some", f - w.lo)), (eq(f, w.hi), en(ex, dty, "None"))]


def c_starts(ex, st, fr, fn, args, tys, dty):
    w = win(st, args[0])
    c = tconst(st, args[1])
    if ex.need(st, eq(w.lo, w.hi)):
        return FF
    return eq(byte(ex, st, w.tid, w.lo), c)


def parse_cases(ex, st, w, lo, hi):
    """(condition, value or None) of parsing a window as a plain integer within [lo, hi]"""
    if ex.need(st, eq(w.lo, w.hi)):
        return [(T, None)]
    b0 = byte(ex, st, w.tid, w.lo)
    out = []
    for sign, d in ((45, -1), (43, 1), (None, 1)):
        c = eq(b0, sign) if sign else And(ne(b0, 45), ne(b0, 43))
        if not st.feasible(c):
            continue
        dw = Txt(w.tid, w.lo + (1 if sign else 0), w.hi)
        if sign == 45 and lo == 0:
            out.append((c, None))
            continue
        f, v = digits(ex, st, dw), val(ex, st, dw)
        ok = And(c, lt(dw.lo, dw.hi), eq(f, 1))
        x = v * d
        fits = And(ge(x, lo), le(x, hi))
        out += [(And(ok, fits), x), (And(ok, Not(fits)), None), (And(c, Or(ge(dw.lo, dw.hi), eq(f, 0))), None)]
    return out


def c_parse(ex, st, fr, fn, args, tys, dty):
    okty, errty = [v["tys"][0] for v in ex.prog.ty(dty)["variants"]]
    b, s = ex.prog.int_ty(okty)
    return [(c, en(ex, dty, "Ok", x) if x is not None else en(ex, dty, "Err", Opq("parse error"))) for c, x in parse_cases(ex, st, win(st, args[0]), tmin(b, s), tmax(b, s))]


def c_chars(ex, st, fr, fn, args, tys, dty):
    return Opq("chars", win(st, args[0]))


def c_bytes(ex, st, fr, fn, args, tys, dty):
    if not istext(st, args[0]):
        return NotImplemented
    return Opq("bytes", win(st, args[0]))


def c_all(ex, st, fr, fn, args, tys, dty, any=False):
    """all characters (bytes) of a text satisfy the closure, where the closure is shown to accept exactly the ASCII digits"""
    it = ex.load(st, args[0].obj, args[0].path, args[0].view) if isinstance(args[0], Ref) else args[0]
    if not isinstance(it, Opq) or it.kind not in ("chars", "bytes"):
        return NotImplemented
    byref = it.kind == "bytes" and "slice::Iter<" in fn["sname"].split(" as ")[0]
    digit_predicate(ex, closure_of(ex.prog, fn), args[1], it.kind, byref, any)
    # the iterator is used up
    if isinstance(args[0], Ref):
        ex.put(st, args[0].obj, args[0].path, Opq("used-up iterator"))
    return eq(digits(ex, st, it.a[0]), 0 if any else 1)


def c_next(ex, st, fr, fn, args, tys, dty):
    """the next byte of a text"""
    r = args[0]
    it = ex.load(st, r.obj, r.path, r.view)
    if not isinstance(it, Opq) or it.kind != "bytes":
        return NotImplemented
    w = it.a[0]

    def some(st):
        ex.put(st, r.obj, r.path, Opq("bytes", Txt(w.tid, st.norm(asP(w.lo + 1)), w.hi)))
        return en(ex, dty, "Some", Ref(w.tid, (("t", w.lo),)) if "slice::Iter<" in fn["sname"] else byte(ex, st, w.tid, w.lo))
    return [(lt(w.lo, w.hi), some), (ge(w.lo, w.hi), en(ex, dty, "None"))]


def c_any(*a):
    return c_all(*a, any=True)


def c_get(ex, st, fr, fn, args, tys, dty):
    if not istext(st, args[0]):
        return NotImplemented
    w = win(st, args[0])
    ix = w.lo + ex.asint(st, args[1])
    return [(lt(ix, w.hi), lambda st: en(ex, dty, "Some", Ref(w.tid, (("t", ix),)))), (ge(ix, w.hi), en(ex, dty, "None"))]


def c_strip(ex, st, fr, fn, args, tys, dty):
    w = win(st, args[0])
    c = tconst(st, args[1])
    if ex.need(st, eq(w.lo, w.hi)):
        return en(ex, dty, "None")
    b = byte(ex, st, w.tid, w.lo)
    return [(eq(b, c), en(ex, dty, "Some", ref(Txt(w.tid, w.lo + 1, w.hi)))), (ne(b, c), en(ex, dty, "None"))]


def c_ends(ex, st, fr, fn, args, tys, dty):
    w = win(st, args[0])
    c = tconst(st, args[1])
    if ex.need(st, eq(w.lo, w.hi)):
        return FF
    return eq(byte(ex, st, w.tid, w.hi - 1), c)


def c_strip_suffix(ex, st, fr, fn, args, tys, dty):
    w = win(st, args[0])
    c = tconst(st, args[1])
    if ex.need(st, eq(w.lo, w.hi)):
        return en(ex, dty, "None")
    b = byte(ex, st, w.tid, w.hi - 1)

    def some(st):
        st.assume(eq(b, c))
        shorter(ex, st, w)
        return en(ex, dty, "Some", ref(Txt(w.tid, w.lo, w.hi - 1)))
    return [(eq(b, c), some), (ne(b, c), en(ex, dty, "None"))]


def shorter(ex, st, w):
    """the value of a number without its last digit"""
    n = st.range(st.norm(asP(w.hi - w.lo)))[1]
    if n > 60 or st.decide(eq(digits(ex, st, w), 1)) is not True:
        return
    lo, hi = st.norm(asP(w.lo)), st.norm(asP(w.hi - 1))
    if zero(st, hi - lo):
        st.assume(eq(val(ex, st, w), byte(ex, st, w.tid, lo) - 48))
        return
    if any(t == w.tid and zero(st, lo - a) and zero(st, hi - b) for t, a, b, v in tx(st, "v")):
        return
    V, b = val(ex, st, w), byte(ex, st, w.tid, hi)
    u = ex.newvar(st, "front", 0, 10 ** (n - 1) - 1)
    add(st, "v", (w.tid, lo, hi, u))
    st.assume(eq(V, u * 10 + b - 48))


def c_splitn(ex, st, fr, fn, args, tys, dty):
    n = st.norm(ex.asint(st, args[1]))
    if not n.is_const() or n.const() != 2:
        raise Unsupported("splitn with a limit other than 2")
    return Opq("splitn", win(st, args[0]), tconst(st, args[2]), 0)


def c_splitn_next(ex, st, fr, fn, args, tys, dty):
    r = args[0]
    it = ex.load(st, r.obj, r.path, r.view)
    if not isinstance(it, Opq) or it.kind != "splitn":
        return NotImplemented
    w, c, k = it.a
    if k == 2:
        return en(ex, dty, "None")
    if k == 1:
        ex.put(st, r.obj, r.path, Opq("splitn", w, c, 2))
        return en(ex, dty, "Some", ref(w))
    f = first(ex, st, w, c)

    def cut(st):
        ex.put(st, r.obj, r.path, Opq("splitn", Txt(w.tid, st.norm(f + 1), w.hi), c, 1))
        return en(ex, dty, "Some", ref(Txt(w.tid, w.lo, f)))

    def whole(st):
        ex.put(st, r.obj, r.path, Opq("splitn", w, c, 2))
        return en(ex, dty, "Some", ref(w))
    return [(lt(f, w.hi), cut), (eq(f, w.hi), whole)]


def c_radix(ex, st, fr, fn, args, tys, dty):
    n = st.norm(ex.asint(st, args[1]))
    if not n.is_const() or n.const() != 10:
        raise Unsupported("radix other than 10")
    return c_parse(ex, st, fr, fn, args, tys, dty)


def c_contains(ex, st, fr, fn, args, tys, dty):
    w = win(st, args[0])
    return lt(first(ex, st, w, tconst(st, args[1])), w.hi)


def c_split_at(ex, st, fr, fn, args, tys, dty):
    if not istext(st, args[0]):
        return NotImplemented
    w = win(st, args[0])
    m = w.lo + ex.asint(st, args[1])
    if not ex.need(st, le(m, w.hi)):
        raise Terminal("panic", "split index out of range", "")
    if "impl str" in fn["sname"] and not ex.need(st, boundary(ex, st, w, m)):
        raise Terminal("panic", "not a character boundary", "")
    return Agg((ref(Txt(w.tid, w.lo, m)), ref(Txt(w.tid, m, w.hi))))


def closure_of(prog, fn):
    """the repository's closure an iterator adaptor was instantiated with"""
    seen, work = set(), [fn]
    while work:
        f = work.pop(0)
        for b in f["body"] or ():
            t = b["t"]
            if t[0] == "call":
                i = prog.ty(t[2]).get("inst")
                if i and i not in seen:
                    seen.add(i)
                    g = prog.fns[i]
                    if re.search(r"<impl (u8|char)>::is_ascii_digit$", g["sname"]):
                        return i
                    if "{closure#" in g["sname"].rsplit("::", 1)[-1] and g["crate"] not in ("core", "std", "alloc"):
                        return i
                    work.append(g)
    raise Unsupported("closure not found")


def digit_predicate(ex, key, env, kind="chars", byref=False, neg=False):
    cx = ex.cx
    done = cx.__dict__.setdefault("digit_preds", {})
    k = key, kind, byref, neg
    if k not in done:
        fn = ex.prog.fns[key]
        s = St(cx)
        c = ex.newvar(s, "char", 0, 0x10FFFF if kind == "chars" else 255)
        o = ex.newobj(s, env)
        want = And(ge(c, 48), le(c, 57))
        if neg:
            want = Not(want)
        res = []

        def term(s1, t):
            if t.kind != "ret":
                res.append(False)
                return
            r = ex.asbool(s1, t.val)
            res.append(s1.prove(Iff(r, want))[0] == "proved")
        item = fn["sname"].endswith("::is_ascii_digit")
        ex.push(s, key, [Ref(ex.newobj(s, c), ())] if item else [Ref(o, ()), Ref(ex.newobj(s, c), ()) if byref else c], None, None)
        n = cx.npaths
        ex.run(s, term)
        cx.npaths = n
        done[k] = bool(res) and all(res)
        cx.obl(f"{cx.name}/predicate {fn['sname']} {'rejects' if neg else 'accepts'} exactly the ASCII digits", "proved" if done[k] else "unknown", "closure")
    if not done[k]:
        raise Unsupported("character predicate other than ASCII digit")


def boundary(ex, st, w, ix):
    """formula: ix (absolute) is a character boundary of the window"""
    if zero(st, ix - w.lo) or zero(st, ix - w.hi):
        return T
    b = byte(ex, st, w.tid, ix)
    # UTF-8: what follows an ASCII byte is the start of a character
    if st.decide(ge(ix - 1, w.lo)) is True:
        p = byte(ex, st, w.tid, ix - 1)
        rule(st, Or(ge(p, 128), lt(b, 128), ge(b, 192)))
    return Or(eq(ix, w.lo), eq(ix, w.hi), lt(b, 128), ge(b, 192))


def same_text(ex, st, w, c):
    """formula: the text is this constant"""
    return And(eq(w.hi - w.lo, len(c)), *[eq(byte(ex, st, w.tid, w.lo + i), x) for i, x in enumerate(c)])


def c_str_eq(ex, st, fr, fn, args, tys, dty):
    vs = list(args)
    while any(isinstance(v, Ref) and not istext(st, v) and v.meta is None for v in vs):
        vs = [ex.load(st, v.obj, v.path, v.view) if isinstance(v, Ref) and v.meta is None else v for v in vs]
    for x, y in (vs, vs[::-1]):
        if istext(st, x):
            w = win(st, x)
            if istext(st, y):
                u = win(st, y)
                if u.tid == w.tid and zero(st, u.lo - w.lo):
                    return eq(u.hi, w.hi)
                return NotImplemented
            n = y.meta.const() if isinstance(y.meta, P) and y.meta.is_const() else None
            if n is None:
                return NotImplemented
            cs = [st.norm(ex.asint(st, ex.load(st, y.obj, ex.index_path(st, y.obj, y.path, y.meta, K(i)), None))) for i in range(n)]
            if not all(c.is_const() for c in cs):
                return NotImplemented
            return same_text(ex, st, w, [c.const() for c in cs])
    return NotImplemented


# owned strings
def c_to_owned(ex, st, fr, fn, args, tys, dty):
    return Opq("String", args[0])


def c_string_deref(ex, st, fr, fn, args, tys, dty):
    v = ex.load(st, args[0].obj, args[0].path, args[0].view)
    if not isinstance(v, Opq) or v.kind != "String":
        return NotImplemented
    return v.a[0]


def range_of(ex, st, name, v, w):
    """absolute bounds of a range value"""
    f = [ex.asint(st, x) for x in v.f if x is not None] if isinstance(v, Agg) else []
    if "RangeFrom<" in name:
        return w.lo + f[0], w.hi
    if "RangeToInclusive<" in name:
        return w.lo, w.lo + f[0] + 1
    if "RangeTo<" in name:
        return w.lo, w.lo + f[0]
    if "RangeFull" in name:
        return w.lo, w.hi
    if "Range<" in name:
        return w.lo + f[0], w.lo + f[1]
    raise Unsupported("range " + name)


def c_index(ex, st, fr, fn, args, tys, dty):
    if not istext(st, args[0]):
        return NotImplemented
    w = win(st, args[0])
    a, b = range_of(ex, st, fn["sname"], args[1], w)
    ok = And(le(a, b), ge(a, w.lo), le(b, w.hi))
    if not ex.need(st, ok):
        raise Terminal("panic", "slice index out of range", "")
    if "for str>" in fn["sname"]:
        for x in (a, b):
            if not ex.need(st, boundary(ex, st, w, x)):
                raise Terminal("panic", "not a character boundary", "")
    return ref(Txt(w.tid, st.norm(a), st.norm(b)))


def c_pow(ex, st, fr, fn, args, tys, dty):
    base, e = st.norm(ex.asint(st, args[0])), st.norm(ex.asint(st, args[1]))
    if e.is_const() or not base.is_const():
        return NotImplemented
    b, s = ex.prog.int_ty(dty)
    out, n = [], 0
    lo, hi = st.range(e)
    if lo == hi:
        if abs(base.const()) ** lo <= tmax(b, s):
            return K(base.const() ** lo)
        raise Terminal("panic", "attempt to multiply with overflow", "")
    while abs(base.const()) ** n <= tmax(b, s) and n <= hi:
        if n >= lo:
            out.append((eq(e, n), K(base.const() ** n)))
        n += 1
        if abs(base.const()) < 2:
            return NotImplemented
    if hi >= n:
        out.append((ge(e, n), Terminal("panic", "attempt to multiply with overflow")))
    return out


S = r"^core::str::<impl str>::"
TEXT = tuple((re.compile(r), f) for r, f in (
    (S + r"trim$", c_trim), (S + r"split_once::<char>$", c_split_once), (S + r"find::<char>$", c_find), (S + r"starts_with::<char>$", c_starts),
    (S + r"parse::<[iu](8|16|32|64|128)>$", c_parse), (S + r"chars$", c_chars), (S + r"bytes$", c_bytes), (r"^core::slice::<impl \[u8\]>::iter$|^core::slice::iter::<impl std::iter::IntoIterator for &\[u8\]>::into_iter$", c_bytes), (r"^<std::(str::Bytes|slice::Iter)<'_.*> as std::iter::Iterator>::next$", c_next), (S + r"strip_prefix::<char>$", c_strip), (S + r"contains::<char>$", c_contains), (S + r"ends_with::<char>$", c_ends), (S + r"strip_suffix::<char>$", c_strip_suffix), (S + r"splitn::<char>$", c_splitn),
    (r"^<std::str::SplitN<'_, char> as std::iter::Iterator>::next$", c_splitn_next), (r"impl std::str::FromStr for [iu](8|16|32|64|128)>::from_str$", c_parse), (r"^core::num::<impl [iu](8|16|32|64|128)>::from_str_radix$", c_radix),
    (r"^(core::str::traits::)?<impl std::cmp::PartialEq for str>::eq$", c_str_eq), (r"^<str as std::borrow::ToOwned>::to_owned$|^<std::string::String as std::convert::From<&str>>::from$|<impl std::borrow::ToOwned for str>::to_owned$|^<str as std::string::ToString>::to_string$", c_to_owned),
    (r"^<std::string::String as std::ops::Deref>::deref$|^std::string::String::as_str$", c_string_deref),
    (r"^<std::(str::Chars|str::Bytes|slice::Iter)<'_.*> as std::iter::Iterator>::all::<", c_all), (r"^<std::(str::Chars|str::Bytes|slice::Iter)<'_.*> as std::iter::Iterator>::any::<", c_any),
    (r"^core::slice::<impl \[u8\]>::get::<usize>$", c_get), (r"^core::(str::<impl str>|slice::<impl \[u8\]>)::split_at$", c_split_at),
    (r"<impl std::ops::Index<std::ops::Range.*> for str>::index$", c_index), (r"<impl std::ops::Index<.*> for \[.*\]>::index$", c_index),
    (r"^core::num::<impl [iu](8|16|32|64|128)>::pow$", c_pow)))
TEXT_TRUST = ("core: str::{trim, split_once, find, starts_with, parse to an integer, chars().all, indexing by ranges} behave as documented (contracts in vc/text.py)",)
