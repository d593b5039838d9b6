"""Printing: contracts of the fixed text buffer (proved), of itoa and core's string functions (assumed)."""
from deps import *
import text as T_

FS = r"^fixnum::string::StrBuf::"


def oblige(ex, st, name, f):
    r = st.prove(f)
    ex.cx.obl(f"{ex.cx.name}/{name}", r[0], r[1] if r[0] == "proved" else "", None, repr(f)[:200])
    if r[0] != "proved":
        sa, env = getattr(ex.cx, "sargs", None), r[1]
        ex.cx.obls[-1]["args"] = [concretise0(x, env) for x in sa if not isinstance(x, Ref)] if sa and env else None
        st.assume(f)


def pieces_len(ps):
    n = ZERO
    for p in ps:
        n = n + (K(1) if p[0] == "b" else asP(p[1].hi) - asP(p[1].lo))
    return n


def str_pieces(ex, st, r):
    """content of a &str"""
    if T_.istext(st, r):
        return (("w", T_.win(st, r)),)
    v = st.mem.get(r.obj)
    if isinstance(v, Opq) and v.kind == "pieces":
        return v.a[0]
    n = st.norm(asP(ex.length(st, r.obj, r.path, r.meta)))
    if not n.is_const():
        raise Unsupported("text of unknown length")
    return tuple(("b", ex.asint(st, ex.load(st, r.obj, ex.index_path(st, r.obj, r.path, r.meta, K(i)), None))) for i in range(n.const()))


def maxlen(prog, fn):
    """size of the buffer array of the receiver"""
    t = prog.ty(fn["locals"][1] if fn.get("locals") else fn["sig"][0])
    return prog.ty(prog.ty(t["ty"])["variants"][0]["tys"][0])["len"]


def buf_of(ex, st, r):
    v = ex.load(st, r.obj, r.path, r.view)
    if not isinstance(v, Opq) or v.kind != "strbuf":
        raise Unsupported("text buffer in an unknown state")
    return v.a[0]


class Handler(Contract):
    """a contract with its own call-site handler and unit"""

    def __init__(self, name, rx, handle, unit=None, uses=(), kw=None, trusted=None):
        super().__init__(name, rx, uses=uses, kw=kw, trusted=trusted)
        self.handle, self.mkspec = handle, unit

    def handler(self, ex, st, fr, fn, args, tys, dty):
        return self.handle(ex, st, fr, fn, args, tys, dty)

    def spec(self, prog, key):
        sp = self.mkspec(prog, key)
        sp.contract = self
        sp.raw = True
        return sp

    def entries(self):
        return list(UNSAFE) + list(T_.TEXT)


# ------------------------------------------------------------ StrBuf, as seen by its users: a sequence of pieces
def h_default(ex, st, fr, fn, args, tys, dty):
    return Opq("strbuf", ())


def h_push(ex, st, fr, fn, args, tys, dty):
    ps, c = buf_of(ex, st, args[0]), ex.asint(st, args[1])
    oblige(ex, st, "StrBuf::push/room left", lt(pieces_len(ps), maxlen(ex.prog, fn)))
    oblige(ex, st, "StrBuf::push/ASCII", And(ge(c, 0), lt(c, 128)))
    ex.put(st, args[0].obj, args[0].path, Opq("strbuf", ps + (("b", c),)))
    return ex.zst(dty)


def h_push_str(ex, st, fr, fn, args, tys, dty):
    ps, t = buf_of(ex, st, args[0]), str_pieces(ex, st, args[1])
    oblige(ex, st, "StrBuf::push_str/room left", le(pieces_len(ps + t), maxlen(ex.prog, fn)))
    ex.put(st, args[0].obj, args[0].path, Opq("strbuf", ps + t))
    return ex.zst(dty)


def h_as_str(ex, st, fr, fn, args, tys, dty):
    ps = buf_of(ex, st, args[0])
    o = ex.newobj(st, Opq("pieces", ps))
    return Ref(o, (("w", ZERO),), st.norm(pieces_len(ps)))


def h_write_str(ex, st, fr, fn, args, tys, dty):
    st.ghost["out"] = st.ghost.get("out", ()) + str_pieces(ex, st, args[1])
    fail = ex.newvar(st, "write fails", 0, 1)
    st.ghost["wr"] = st.ghost.get("wr", ()) + (fail,)
    return [(eq(fail, 0), T_.en(ex, dty, "Ok", ex.zst(ex.prog.ty(dty)["variants"][0]["tys"][0]))), (eq(fail, 1), T_.en(ex, dty, "Err", ex.zst(ex.prog.ty(dty)["variants"][1]["tys"][0])))]


# ------------------------------------------------------------ units of StrBuf
def parts(ex, st, r):
    v = ex.load(st, r.obj, r.path, r.view)
    return [ex.asint(st, x) for x in v.f[0].f], ex.asint(st, v.f[1])


def unit_push(prog, key):
    N = maxlen(prog, prog.fns[key])

    def prep(s, raw):
        b, n = parts(s.ex, s.st, raw[0])
        return [raw[0], b, n, raw[1]]

    def pre(s, a):
        return And(ge(a[2], 0), lt(a[2], N), ge(a[3], 0), lt(a[3], 128))

    def post(s, a, o):
        if o.kind == "panic":
            return [("no-panic", FF)]
        b, n = parts(s.ex, s.st, a[0])
        return [("length", eq(n, a[2] + 1)), ("content", And(*[Or(And(eq(a[2], i), eq(b[i], a[3])), And(ne(a[2], i), eq(b[i], a[1][i]))) for i in range(N)]))]
    sp = Spec(post, pre=pre)
    sp.prep = prep
    return sp


def unit_push_str(prog, key):
    N = maxlen(prog, prog.fns[key])

    def prep(s, raw):
        b, n = parts(s.ex, s.st, raw[0])
        return [raw[0], b, n, raw[1]]

    def pre(s, a):
        m = asP(a[3].meta)
        return And(ge(a[2], 0), ge(m, 0), le(a[2] + m, N))

    def post(s, a, o):
        if o.kind == "panic":
            return [("no-panic", FF)]
        b, n = parts(s.ex, s.st, a[0])
        w = T_.win(s.st, a[3])
        l, m = s.const(a[2]), s.const(w.hi - w.lo)
        if l is None or m is None:
            if s.const(w.hi - w.lo) == 0 or all(x is y or zero_(s, x, y) for x, y in zip(b, a[1])):
                # nothing was written
                return [("length", eq(n, a[2] + (w.hi - w.lo))), ("content", eq(w.hi, w.lo))]
            raise Unsupported("length of the pushed text is open")
        return [("length", eq(n, l + m)), ("content", And(*[eq(b[i], T_.byte(s.ex, s.st, w.tid, w.lo + (i - l)) if l <= i < l + m else a[1][i]) for i in range(N)]))]
    sp = Spec(post, pre=pre)
    sp.prep = prep
    return sp


def zero_(s, x, y):
    return T_.zero(s.st, asP(x) - asP(y))


def unit_as_str(prog, key):
    N = maxlen(prog, prog.fns[key])

    def prep(s, raw):
        b, n = parts(s.ex, s.st, raw[0])
        return [raw[0], b, n]

    def pre(s, a):
        return And(ge(a[2], 0), le(a[2], N))

    def post(s, a, o):
        if o.kind == "panic":
            return [("no-panic", FF)]
        r = o.raw
        base = r.path[-1][1] if r.path and r.path[-1][0] == "w" else ZERO
        inner = r.path[:-1] if r.path and r.path[-1][0] == "w" else r.path
        return [("points-to-the-buffer", T if r.obj == a[0].obj and inner == a[0].path + (("f", 0),) else FF), ("from-the-start", eq(base, 0)), ("length", eq(r.meta, a[2]))]
    sp = Spec(post, pre=pre)
    sp.prep = prep
    return sp


def unit_default(prog, key):
    def post(s, a, o):
        if o.kind == "panic":
            return [("no-panic", FF)]
        return [("empty", eq(o.raw.f[1], 0))]
    return Spec(post)


for _c in (Handler("StrBuf::default", r"^<fixnum::string::StrBuf as std::default::Default>::default$", h_default, unit_default),
           Handler("StrBuf::push", FS + r"push$", h_push, unit_push), Handler("StrBuf::push_str", FS + r"push_str$", h_push_str, unit_push_str),
           Handler("StrBuf::as_str", FS + r"as_str$", h_as_str, unit_as_str)):
    CONTRACTS[_c.name] = _c


# ------------------------------------------------------------ unsafe slice operations: their preconditions become obligations
def u_get(ex, st, fr, fn, args, tys, dty):
    r, ix = args[0], ex.asint(st, args[1])
    n = ex.length(st, r.obj, r.path, r.meta)
    oblige(ex, st, "unsafe get_unchecked/index in bounds", And(ge(ix, 0), lt(ix, n)))
    return Ref(r.obj, ex.index_path(st, r.obj, r.path, r.meta, ix))


def u_range(ex, st, fr, fn, args, tys, dty):
    r = args[0]
    n = ex.length(st, r.obj, r.path, r.meta)
    a, b = T_.range_of(ex, st, fn["sname"] + " Range<" if "::Range<" in fn["sname"] else fn["sname"], args[1], T_.Txt(None, ZERO, asP(n)))
    oblige(ex, st, "unsafe get_unchecked/range in bounds", And(ge(a, 0), le(a, b), le(b, n)))
    return sub_ref(r, a, b)


def s_range(ex, st, fr, fn, args, tys, dty):
    """slice indexing by a range"""
    r = args[0]
    if T_.istext(st, r):
        return T_.c_index(ex, st, fr, fn, args, tys, dty)
    if r.meta is None:
        return NotImplemented
    n = ex.length(st, r.obj, r.path, r.meta)
    a, b = T_.range_of(ex, st, fn["sname"], args[1], T_.Txt(None, ZERO, asP(n)))
    if not ex.need(st, And(ge(a, 0), le(a, b), le(b, n))):
        raise Terminal("panic", "slice index out of range", "")
    return sub_ref(r, a, b)


def sub_ref(r, a, b):
    base, path = ZERO, r.path
    if path and path[-1][0] == "w":
        base, path = asP(path[-1][1]), path[:-1]
    return Ref(r.obj, path + (("w", base + a),), asP(b) - asP(a))


def u_copy(ex, st, fr, fn, args, tys, dty):
    d, s = args
    n, m = asP(ex.length(st, d.obj, d.path, d.meta)), asP(ex.length(st, s.obj, s.path, s.meta))
    if not ex.need(st, eq(n, m)):
        raise Terminal("panic", "copy_from_slice: lengths differ", "")
    lo, hi = st.range(n)
    if lo != hi:
        raise Fork([eq(n, i) for i in range(max(lo, 0), min(hi, 400) + 1)] + ([gt(n, 400)] if hi > 400 else []))
    if lo > 400:
        raise Unsupported("copy of a long slice")
    for j in range(lo):
        v = ex.load(st, s.obj, ex.index_path(st, s.obj, s.path, s.meta, K(j)), None)
        ex.put(st, d.obj, ex.index_path(st, d.obj, d.path, d.meta, K(j)), v)
    return ex.zst(dty)


def u_utf8(ex, st, fr, fn, args, tys, dty):
    return args[0]


UNSAFE = tuple((re.compile(r), f) for r, f in (
    (r"^core::slice::<impl \[.*\]>::get_unchecked(_mut)?::<usize>$", u_get), (r"^core::slice::<impl \[.*\]>::get_unchecked(_mut)?::<std::ops::Range", u_range),
    (r"^core::slice::index::<impl std::ops::Index(Mut)?<std::ops::Range(|To|From|Full|ToInclusive)(<usize>)?> for \[.*\]>::index(_mut)?$", s_range),
    (r"^core::slice::<impl \[.*\]>::copy_from_slice$", u_copy), (r"^std::str::from_utf8_unchecked$", u_utf8)))


# ------------------------------------------------------------ itoa and trimming
def h_format(ex, st, fr, fn, args, tys, dty):
    n = ex.asint(st, args[1])
    neg = not ex.need(st, ge(n, 0))
    m = st.norm(-n if neg else n)
    lo, hi = st.range(m)
    klo, khi = len(str(max(lo, 0))), len(str(hi))
    while khi > klo and st.prove(lt(m, 10 ** (khi - 1)))[0] == "proved":
        khi -= 1
    while klo < khi and st.prove(ge(m, 10 ** klo))[0] == "proved":
        klo += 1
    k = K(klo) if klo == khi else ex.newvar(st, "ndigits", klo, khi)
    obj = ex.newobj(st, Opq("text"))
    st.mem[obj] = Opq("text", obj)
    s = 1 if neg else 0
    end = k + s
    if neg:
        T_.add(st, "b", (obj, ZERO, K(45)))
    T_.add(st, "d", (obj, K(s), end, K(1)))
    T_.add(st, "v", (obj, K(s), end, m))
    b = T_.byte(ex, st, obj, K(s))
    st.assume(And(ge(b, 48), le(b, 57)))
    st.assume(Or(And(eq(k, 1), eq(b, m + 48)), And(gt(k, 1), ne(b, 48))))
    if klo == khi:
        w = 10 ** (klo - 1)
        st.assume(And(ge(m, (b - 48) * w), lt(m, (b - 47) * w)))
        T_.add(st, "v", (obj, K(s + 1), end, st.norm(m - (b - 48) * w)))
    return Ref(obj, (("w", ZERO),), asP(end))


def h_trim_end(ex, st, fr, fn, args, tys, dty):
    w = T_.win(st, args[0])
    if T_.tconst(st, args[1]) != 48:
        raise Unsupported("trimming something other than zeros")
    n = st.norm(w.hi - w.lo)
    lo, hi = st.range(n)
    if lo != hi or hi > 64:
        raise Unsupported("trimming a text of unknown length")
    n = lo
    z = ex.newvar(st, "zeros", 0, n)
    isnum = st.decide(eq(T_.digits(ex, st, w), 1)) is True
    V = T_.val(ex, st, w)

    def case(i):
        def f(st):
            if i < n:
                b = T_.byte(ex, st, w.tid, w.hi - i - 1)
                st.assume(ne(b, 48))
            if isnum:
                if i < n:
                    u = ex.newvar(st, "trimmed", 0, 10 ** (n - i) - 1)
                    T_.add(st, "v", (w.tid, w.lo, w.hi - i, u))
                    st.assume(eq(V, u * 10 ** i))
                else:
                    st.assume(eq(V, 0))
            return T_.ref(T_.Txt(w.tid, w.lo, w.hi - i))
        return f
    return [(eq(z, i), case(i)) for i in range(n + 1)]


ITOA = tuple((re.compile(r), f) for r, f in (
    (r"^itoa::Buffer::new$", lambda ex, st, fr, fn, args, tys, dty: Opq("itoa")), (r"^itoa::Buffer::format::<[iu](8|16|32|64|128)>$", h_format),
    (r"^core::str::<impl str>::trim_end_matches::<char>$", h_trim_end), (r"^std::fmt::Formatter::<'_>::write_str$", h_write_str)))
ITOA_TRUST = ("itoa::Buffer::format writes the canonical decimal digits of its argument (dependency, contract in vc/fmtc.py)", "core: str::trim_end_matches, Formatter::write_str, str::from_utf8_unchecked on ASCII text",
              "core: slice get_unchecked/copy_from_slice by their documented behaviour; their unsafe preconditions are proof obligations")


# ------------------------------------------------------------ serde
def h_keep(ex, st, fr, fn, args, tys, dty):
    """the harness' serializer is handed a text"""
    st.ghost["kept"] = st.ghost.get("kept", ()) + (str_pieces(ex, st, args[0]),)
    return Opq("kept")


SERDE = ((re.compile(r"^fxroots::sd::keep$"), h_keep),)
