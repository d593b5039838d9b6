"""SCALE codec: contracts of byte vectors, of the little-endian forms of integers, and of the dependency's compact form."""
from deps import *
import text as T_
from fmtc import sub_ref


def vec_of(ex, st, r):
    v = ex.load(st, r.obj, r.path, r.view)
    while isinstance(v, Agg) and len(v.f) == 1:  # the harness' sink
        r = Ref(r.obj, r.path + (("f", 0),))
        v = v.f[0]
    if not isinstance(v, Opq) or v.kind != "vec":
        raise Unsupported("byte vector in an unknown state")
    return r, v.a[0]


def bytes_of(ex, st, r):
    """pieces of a &[u8]"""
    v = st.mem.get(r.obj)
    if isinstance(v, Opq) and v.kind == "vec":
        return v.a[0]
    n = st.norm(asP(ex.length(st, r.obj, r.path, r.meta)))
    if not n.is_const():
        raise Unsupported("bytes of unknown number")
    return tuple(("b", ex.asint(st, ex.load(st, r.obj, ex.index_path(st, r.obj, r.path, r.meta, K(i)), None))) for i in range(n.const()))


def h_new(ex, st, fr, fn, args, tys, dty):
    return Opq("vec", ())


def h_write(ex, st, fr, fn, args, tys, dty):
    r, ps = vec_of(ex, st, args[0])
    ex.put(st, r.obj, r.path, Opq("vec", ps + bytes_of(ex, st, args[1])))
    return ex.zst(dty)


def h_pushb(ex, st, fr, fn, args, tys, dty):
    r, ps = vec_of(ex, st, args[0])
    ex.put(st, r.obj, r.path, Opq("vec", ps + (("b", ex.asint(st, args[1])),)))
    return ex.zst(dty)


def h_deref(ex, st, fr, fn, args, tys, dty):
    _, ps = vec_of(ex, st, args[0])
    if all(p[0] == "b" for p in ps):
        return Ref(ex.newobj(st, Agg([p[1] for p in ps])), (), K(len(ps)))
    return Ref(ex.newobj(st, Opq("vec", ps)), (), ex.newvar(st, "length", 0, 64))


def h_keep(ex, st, fr, fn, args, tys, dty):
    return Opq("vec", bytes_of(ex, st, args[0]))


def wrapped(x, n, r):
    """r is x read with the other sign convention, n bits"""
    return Or(eq(r, x), eq(r, x + (1 << n)), eq(r, x - (1 << n)))


def h_tole(ex, st, fr, fn, args, tys, dty):
    n, sg = ex.prog.int_ty(tys[0])
    x = ex.asint(st, args[0])
    if sg:
        x = x + (1 << n) if ex.need(st, lt(x, 0)) else x
    bs = [ex.newvar(st, f"byte{i}", 0, 255) for i in range(n // 8)]
    st.assume(eq(sum((b * (1 << (8 * i)) for i, b in enumerate(bs)), ZERO), x))
    return Agg(bs)


def h_fromle(ex, st, fr, fn, args, tys, dty):
    n, sg = ex.prog.int_ty(dty)
    bs = [ex.asint(st, b) for b in ex.rd(st, args[0]).f]
    x = st.norm(sum((asP(b) * (1 << (8 * i)) for i, b in enumerate(bs)), ZERO))
    if sg and ex.need(st, ge(bs[-1], 128)):
        x = x - (1 << n)
    return x


def be(h):
    def rev(ex, st, fr, fn, args, tys, dty):
        if ex.prog.int_ty(dty) is None:
            return Agg(list(reversed(h(ex, st, fr, fn, args, tys, dty).f)))
        return h(ex, st, fr, fn, [Agg(list(reversed(ex.rd(st, args[0]).f)))], tys, dty)
    return rev


def bits(fn):
    return int(re.search(r"compact::Compact(?:Ref)?<(?:'_, )?u(\d+)>|Compact(?:Ref)?<(?:'_, )?u(\d+)>", fn["sname"]).group(2))


def compact_arg(ex, st, args):
    v = ex.load(st, args[0].obj, args[0].path, args[0].view)
    r = v.f[0]
    if isinstance(r, Ref):
        r = ex.load(st, r.obj, r.path, r.view)
    return st.norm(ex.asint(st, r))


def h_cencode(ex, st, fr, fn, args, tys, dty):
    return Opq("vec", (("c", bits(fn), compact_arg(ex, st, args)),))


def h_cencode_to(ex, st, fr, fn, args, tys, dty):
    r, ps = vec_of(ex, st, args[1])
    ex.put(st, r.obj, r.path, Opq("vec", ps + (("c", bits(fn), compact_arg(ex, st, args)),)))
    return ex.zst(dty)


def h_cdecode(ex, st, fr, fn, args, tys, dty):
    """a function of the input"""
    n = bits(fn)
    r = ex.load(st, args[0].obj, args[0].path, args[0].view)
    w = T_.win(st, r)
    k = ("compact", n, w.tid, st.norm(w.lo).key(), st.norm(w.hi).key())
    g = st.ghost.get("anyfun") or {}

    def leave(ok):
        def f(m):
            gg = m.ghost.get("anyfun") or {}
            if k not in gg:
                lo = ex.newvar(m, "consumed", 0, st.range(st.norm(w.hi - w.lo))[1])
                m.assume(And(le(w.lo + lo, w.hi)))
                gg = {**gg, k: (ok, ex.newvar(m, "compact", 0, (1 << n) - 1), lo)}
                m.ghost["anyfun"] = gg
            _, v, c = gg[k]
            ex.put(m, args[0].obj, args[0].path, T_.ref(T_.Txt(w.tid, w.lo + c, w.hi)))
            if ok:
                return En(0, [Agg([v])])
            t = ex.prog.ty(dty)["variants"][1]["tys"][0]
            return En(1, [Opq("error")])
        return f
    if k in g:
        return [(T, leave(g[k][0]))]
    return [(T, leave(True)), (T, leave(False))]


PSC = r"parity_scale_codec::"
SCALE = tuple((re.compile(r), f) for r, f in (
    (r"^std::vec::Vec::<u8>::(with_capacity|new)$", h_new), (rf"^<(std::vec::Vec<u8>|fxroots::scale::Sink) as {PSC}Output>::write$|^std::vec::Vec::<u8>::extend_from_slice$", h_write),
    (rf"^<(std::vec::Vec<u8>|fxroots::scale::Sink) as {PSC}Output>::push_byte$|^std::vec::Vec::<u8>::push$", h_pushb),
    (r"^<std::vec::Vec<u8> as std::ops::Deref>::deref$|^std::vec::Vec::<u8>::as_slice$|^<std::vec::Vec<u8> as std::convert::AsRef<\[u8\]>>::as_ref$", h_deref), (r"^fxroots::scale::keep$", h_keep),
    (r"^core::num::<impl [iu]\d+>::to_le_bytes$", h_tole), (r"^core::num::<impl [iu]\d+>::from_le_bytes$", h_fromle),
    (r"^core::num::<impl [iu]\d+>::to_be_bytes$", be(h_tole)), (r"^core::num::<impl [iu]\d+>::from_be_bytes$", be(h_fromle)),
    (rf"^<{PSC}CompactRef<'_, u\d+> as {PSC}Encode>::encode$", h_cencode), (rf"^<{PSC}CompactRef<'_, u\d+> as {PSC}Encode>::encode_to::<.*>$", h_cencode_to),
    (rf"^<{PSC}Compact<u\d+> as {PSC}Encode>::encode$", h_cencode), (rf"^<{PSC}Compact<u\d+> as {PSC}Decode>::decode::<&\[u8\]>$", h_cdecode)))
SCALE_TRUST = ("alloc: Vec<u8> (new, with_capacity, extend_from_slice, push, deref) as a sequence of bytes; integer to_le_bytes/from_le_bytes by their documentation",
               "parity-scale-codec: the compact form of unsigned integers is a function of the integer, its decoding a function of the input (the fixed-width form is executed as written)")


def val_le(bs):
    return sum((asP(b) * (1 << (8 * i)) for i, b in enumerate(bs)), ZERO)


def spec_c23(l, p, op):
    n = int(l[1:])

    def pieces(s, v):
        if s.concrete:
            return [("b", K(x)) for x in v] if isinstance(v, bytes) else None
        return list(v.a[0]) if isinstance(v, Opq) and v.kind == "vec" else None

    def post(s, a, o):
        if o.kind == "panic":
            return [("no-panic", FF)]
        v = o.val
        if op in ("encode", "encode_to", "using_encoded"):
            ps = pieces(s, v)
            if ps is None or len(ps) != n // 8 or any(x[0] != "b" for x in ps):
                return [("fixed-width", FF)]
            r = val_le([x[1] for x in ps])
            return [("little-endian-two's-complement", And(wrapped(a[0], n, r), *[And(ge(x[1], 0), le(x[1], 255)) for x in ps]))]
        if op == "encode_as":
            return [("same-bits", And(ge(v, 0), wrapped(a[0], n, v)))]
        if op == "decode_from":
            return [("same-bits", And(ge(v[1], -(1 << (n - 1))), lt(v[1], 1 << (n - 1)), wrapped(a[0], n, v[1])) if v[0] == "Some" else FF)]
        if op == "compact":
            x, y = pieces(s, v[0]), pieces(s, v[1])
            if x is None or y is None or [t[:-1] for t in x] != [t[:-1] for t in y]:
                return [("compact-form-of-the-same-bits", FF)]
            return [("compact-form-of-the-same-bits", And(*[eq(t[-1], u[-1]) for t, u in zip(x, y)]))]
        if op == "decode":
            if s.concrete:
                bs = [K(x) for x in a[0]]
                ln = K(len(bs))
            else:
                w = T_.win(s.st, a[0])
                ln = w.hi - w.lo
            if s.fork(lt(ln, n // 8)):
                return [("too-short-is-an-error", T if v[0][0] == "None" else FF)]
            if v[0][0] != "Some":
                return [("decodes", FF)]
            if not s.concrete:
                bs = [T_.byte(s.ex, s.st, w.tid, w.lo + i) for i in range(n // 8)]
            return [("value", wrapped(v[0][1], n, val_le(bs[:n // 8]))), ("consumed", eq(v[1], ln - n // 8))]
        if op == "decode_compact":
            x, y, i, j = v
            if (x[0] == "Some") != (y[0] == "Some"):
                return [("decodes-like-the-unsigned", FF)]
            return [("decodes-like-the-unsigned", T if x[0] == "None" else And(wrapped(x[1], n, y[1]), eq(i, j)))]
    return Spec(post)
