"""Symbolic execution of dumped MIR into verification conditions."""
import json
import re
import time

from terms import *
from state import *


class Agg:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = tuple(f)

    def __repr__(self):
        return "{" + ", ".join(map(repr, self.f)) + "}"


class En:
    __slots__ = ("v", "f")

    def __init__(self, v, f=()):
        self.v = v
        self.f = tuple(f)

    def __repr__(self):
        return f"#{self.v}" + repr(list(self.f))


class Ref:
    __slots__ = ("obj", "path", "meta", "view")

    def __init__(self, obj, path=(), meta=None, view=None):
        self.obj = obj
        self.path = path
        self.meta = meta
        self.view = view

    def __repr__(self):
        return f"&{self.obj}{list(self.path)}" + (f"[len {self.meta!r}]" if self.meta is not None else "")


class Fn:
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key


class Opq:
    """opaque value with a python payload (model objects of trusted contracts)"""
    __slots__ = ("kind", "a")

    def __init__(self, kind, *a):
        self.kind = kind
        self.a = a

    def __repr__(self):
        return f"<{self.kind} {self.a}>"


class WrapV:
    """value of a wrapping operation, resolved when read"""
    __slots__ = ("p", "bits", "signed")

    def __init__(self, p, bits, signed):
        self.p = p
        self.bits = bits
        self.signed = signed


UNIT = Agg(())


class Frame:
    __slots__ = ("id", "fn", "bb", "si", "dest", "ret", "visits", "tag", "loopctx", "looplast")

    def __init__(self, id, fn):
        self.id = id
        self.fn = fn
        self.bb = 0
        self.si = 0
        self.dest = None
        self.ret = None
        self.visits = {}
        self.tag = None
        self.loopctx = {}
        self.looplast = {}

    def copy(self):
        f = Frame(self.id, self.fn)
        f.bb, f.si, f.dest, f.ret, f.tag = self.bb, self.si, self.dest, self.ret, self.tag
        f.visits = dict(self.visits)
        f.loopctx, f.looplast = self.loopctx, self.looplast
        return f


_TN = re.compile(r"typenum::(?:UInt|UTerm|B0|B1)")


def short_name(n):
    """replace typenum integers in a rendered path by U<n>"""
    def parse(s, i):
        if s.startswith("typenum::UTerm", i):
            return 0, i + len("typenum::UTerm")
        pre = "typenum::UInt<"
        if s.startswith(pre, i):
            v, i = parse(s, i + len(pre))
            i += 2
            b = 1 if s.startswith("typenum::B1", i) else 0
            i += len("typenum::B1")
            return 2 * v + b, i + 1
        raise ValueError
    out = []
    i = 0
    while True:
        j = n.find("typenum::U", i)
        if j < 0:
            out.append(n[i:])
            break
        out.append(n[i:j])
        try:
            v, i = parse(n, j)
            out.append(f"U{v}")
        except ValueError:
            out.append(n[j:j + 10])
            i = j + 10
    return "".join(out)


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.roots = d["roots"]
        self.fns = d["fns"]
        self.allocs = d["allocs"]
        self.types = {int(k): v for k, v in d["types"].items()}
        for f in self.fns.values():
            f["sname"] = short_name(f["name"])

    def ty(self, t):
        return self.types[t]

    def int_ty(self, t):
        """(bits, signed) of an integer-like type or None"""
        k = self.types[t]
        if k["k"] == "int":
            return k["bits"], k["signed"]
        if k["k"] == "char":
            return 32, False
        if k["k"] == "pat":
            return self.int_ty(k["ty"])
        return None


def tmin(bits, signed):
    return -(1 << (bits - 1)) if signed else 0


def tmax(bits, signed):
    return (1 << (bits - 1)) - 1 if signed else (1 << bits) - 1


class Cx:
    """one verification unit (a root or a contract body)"""

    def __init__(self, prog, name, contracts=(), **kw):
        self.prog = prog
        self.name = name
        self.vars = Vars()
        self.stats = Stats()
        self.inputs = []
        self.fid = 0
        self.oid = 0
        self.t1, self.t2, self.t3 = kw.get("t1", 4000), kw.get("t2", 8000), kw.get("t3", 15000)
        self.feas_timeout = kw.get("feas_timeout", 1500)
        self.max_visits = kw.get("max_visits", 300)
        self.deadline = kw.get("deadline")
        self.contracts = contracts
        self.used_contracts = {}
        self.inlined = {}
        self.obls = []
        self.npaths = 0
        self.hints = kw.get("hints")
        self.cuts = kw.get("cuts", ())
        self.geo = kw.get("geo", False)
        self.f64bits = kw.get("f64bits", False)
        self.relate = []
        self.cutmap = {}
        self.cutseen = {}
        self.alt = None
        self.base = None
        self.checked_asserts = 0

    def obl(self, name, status, method="", env=None, detail=""):
        self.obls.append({"name": name, "status": status, "method": method, "env": env, "detail": detail})


class Terminal(Exception):
    def __init__(self, kind, val=None, loc=""):
        self.kind = kind
        self.val = val
        self.loc = loc


def strip_generics(n):
    out, d = [], 0
    for i, c in enumerate(n):
        if c == "<":
            d += 1
        elif c == ">" and n[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
    return "".join(out)


class Ex:
    def __init__(self, cx):
        self.cx = cx
        self.prog = cx.prog

    # ---------- values
    def newvar(self, st, name, lo, hi):
        if lo == hi:
            return K(lo)
        return V(self.cx.vars.new(name, lo, hi))

    def newobj(self, st, val):
        self.cx.oid += 1
        o = ("H", self.cx.oid)
        st.mem[o] = val
        return o

    def wrap(self, st, p, bits, signed):
        p = st.norm(p)
        lo, hi = st.range(p)
        tl, th = tmin(bits, signed), tmax(bits, signed)
        if lo >= tl and hi <= th:
            return p
        w = 1 << bits
        kl, kh = (lo - tl) // w, (hi - tl) // w
        if kl == kh:
            return p - K(kl * w)
        key = (p.key(), bits, signed)
        c = st.wraps.get(key)
        if c is not None:
            return st.norm(c)
        if kh - kl <= 4 and kl <= 0 <= kh and st.entails(And(ge(p, tl), le(p, th))):
            st.assume(And(ge(p, tl), le(p, th)))
            return p
        # remove the part that vanishes modulo 2^bits from the coefficients
        k = self.newvar(st, "wrap", kl, kh)
        r = p - k * w
        st.assume(ge(r, tl))
        st.assume(le(r, th))
        st.wraps[key] = r
        return r

    def rd(self, st, v):
        """resolve lazy values"""
        if isinstance(v, WrapV):
            return self.wrap(st, v.p, v.bits, v.signed)
        if isinstance(v, P):
            return st.norm(v)
        return v

    def boolint(self, st, f):
        """0/1 polynomial of a formula"""
        d = st.decide(f)
        if d is None and f.op == "ge":
            fl = st.flags.get(f.a.key())
            if fl is not None:
                kind, p, bits, signed = fl
                r = self.wrap(st, p, bits, signed)
                k = p - r  # = k*2^bits
                w = 1 << bits
                q = P({m: c // w for m, c in k.d.items()})
                return q if kind == "add" else -q
        if d is None and f.op == "or" and all(x.op == "ge" and x.a.key() in st.flags for x in f.a):
            # exclusive carries: the disjunction is their sum
            ks = [self.boolint(st, x) for x in f.a]
            tot = sum(ks[1:], ks[0])
            if st.range(tot)[1] <= 1 or st.entails(le(tot, 1)):
                st.assume(le(tot, 1))
                return tot
        if d is None:
            raise Fork([f, Not(f)])
        return K(1) if d else K(0)

    def asint(self, st, v):
        v = self.rd(st, v)
        if isinstance(v, F):
            return self.boolint(st, v)
        if not isinstance(v, P):
            raise Unsupported(f"integer expected, got {v!r}")
        return v

    def asbool(self, st, v):
        v = self.rd(st, v)
        if isinstance(v, P):
            return ne(v, 0)
        if not isinstance(v, F):
            raise Unsupported(f"bool expected, got {v!r}")
        d = st.decide(v)
        return v if d is None else (T if d else FF)

    def need(self, st, f):
        """decide f on this path, forking when it is open"""
        d = st.decide(f)
        if d is None:
            raise Fork([f, Not(f)])
        return d

    # ---------- division with remainder (truncated), cached per (n, d)
    def divrem(self, st, n, d):
        n, d = st.norm(n), st.norm(d)
        if n.is_const() and d.is_const():
            a, b = n.const(), d.const()
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            return K(q), K(a - q * b)
        if d.is_const():
            dc = d.const()
            if dc == 1:
                return n, ZERO
            if dc == -1:
                return -n, ZERO
        key = (n.key(), d.key())
        c = st.divs.get(key)
        if c is not None:
            q = st.norm(c)
            return q, n - q * d
        nl, nh = st.range(n)
        if d.is_const():
            if dc < 0:
                q, r = self.divrem(st, n, K(-dc))
                return -q, r
            # n non-negative: exact multiples split off
            q = None
            if nl >= 0:
                d1, d2 = {}, {}
                for m, cf in n.d.items():
                    if cf % dc == 0:
                        d1[m] = cf // dc
                    else:
                        a = cf // dc
                        if a:
                            d1[m] = a
                        d2[m] = cf - a * dc
                rest = P(d2)
                if d1:
                    rl, rh = st.range(rest)
                    if 0 <= rl and rh < dc:
                        q = P(d1)
                        st.divs[key] = q
                        return q, rest
                    # only the exactly divisible part is split off
                    d1 = {m: cf // dc for m, cf in n.d.items() if cf % dc == 0}
                    d2 = {m: cf for m, cf in n.d.items() if cf % dc != 0}
                    rest = P(d2)
                    rl, rh = st.range(rest)
                    if d1 and d2 and rl >= 0:
                        q2, r2 = self.divrem(st, rest, d)
                        q = P(d1) + q2
                        st.divs[key] = q
                        return q, r2
            ql = -((-nl) // dc) if nl < 0 else nl // dc
            qh = nh // dc if nh >= 0 else -((-nh) // dc)
            q = self.newvar(st, "quot", ql, qh)
            r = n - q * dc
            if nl >= 0:
                st.assume(And(ge(r, 0), le(r, dc - 1)))
            elif nh <= 0:
                st.assume(And(le(r, 0), ge(r, 1 - dc)))
            else:
                st.assume(And(le(r, dc - 1), ge(r, 1 - dc)))
                st.assume(Or(And(ge(n, 0), ge(r, 0), ge(q, 0)), And(lt(n, 0), le(r, 0), le(q, 0))))
            st.divs[key] = q
            return q, r
        # symbolic divisor: decide the signs first
        if not self.need(st, ge(d, 1)):
            if not self.need(st, le(d, -1)):
                raise Unsupported("division by possibly zero value")
            q, r = self.divrem(st, n, -d)
            return -q, r
        if not self.need(st, ge(n, 0)):
            q, r = self.divrem(st, -n, d)
            return -q, -r
        nl, nh = st.range(n)
        dl, dh = st.range(d)
        q = self.newvar(st, "quot", max(0, nl // dh), nh // max(dl, 1))
        r = n - q * d
        st.assume(And(ge(r, 0), lt(r, d)))
        if not r.is_const():
            st._learn_ge(K(dh - 1) - r)
        st.assume(And(ge(q * d, 0), le(q * d, n), le(q, n)))
        st.divs[key] = q
        return q, r

    def floordiv_const(self, st, n, c):
        """floor(n / c), c > 0"""
        n = st.norm(n)
        lo, hi = st.range(n)
        if lo >= 0:
            return self.divrem(st, n, K(c))[0]
        if n.is_const():
            return K(n.const() // c)
        if all(cf % c == 0 for cf in n.d.values()):
            return P({m: cf // c for m, cf in n.d.items()})
        key = (n.key(), ("floor", c))
        q = st.divs.get(key)
        if q is not None:
            return st.norm(q)
        q = self.newvar(st, "fquot", lo // c, hi // c)
        st.assume(And(ge(n - q * c, 0), le(n - q * c, c - 1)))
        st.divs[key] = q
        return q

    # ---------- memory
    def get(self, st, obj, path):
        v = st.mem.get(obj)
        if v is None and obj not in st.mem:
            raise Unsupported(f"read of unknown object {obj}")
        for e in path:
            v = self.sub(st, v, e)
        return v

    def sub(self, st, v, e):
        if v is None:
            return None
        k = e[0]
        if k == "geo":
            return e[1]
        if isinstance(v, Opq):
            if e == ("f", 0) and v.kind == "i256":
                return Opq("u256", self.wrap(st, v.a[0], 256, False))
            if e == ("f", 0) and v.kind == "u256":
                return self.limbs(st, v.a[0])
            if v.kind == "text" and k in ("t", "i"):
                from text import byte
                return byte(self, st, v.a[0], asP(e[1]))
            raise Unsupported(f"projection {e} of opaque {v!r}")
        if k == "f" or k == "i":
            return v.f[e[1]]
        if k == "d":
            if not isinstance(v, En):
                raise Unsupported(f"downcast of {v!r}")
            if v.v != e[1]:
                raise Unsupported("downcast to inactive variant")
            return v
        raise Unsupported(f"projection {e}")

    def limbs(self, st, p):
        """four 64-bit words of a 256-bit value"""
        out = []
        for i in range(3):
            q, r = self.divrem(st, p, K(1 << 64))
            out.append(r)
            p = q
        return Agg(out + [p])

    def put(self, st, obj, path, val, tyinfo=None):
        if not path:
            st.mem[obj] = val
            return
        st.mem[obj] = self._upd(st, st.mem.get(obj), path, 0, val)

    def _upd(self, st, v, path, i, val):
        if i == len(path):
            return val
        e = path[i]
        if e[0] == "d":
            if v is None or not isinstance(v, En) or v.v != e[1]:
                v = En(e[1], ())
            n = self._upd_fields(st, v.f, path, i + 1, val)
            return En(v.v, n)
        if v is None:
            v = Agg(())
        if isinstance(v, (Agg, En)):
            fs = list(v.f)
            ix = e[1]
            while len(fs) <= ix:
                fs.append(None)
            fs[ix] = self._upd(st, fs[ix], path, i + 1, val)
            return Agg(fs) if isinstance(v, Agg) else En(v.v, fs)
        raise Unsupported(f"write through {v!r}")

    def _upd_fields(self, st, fs, path, i, val):
        if i == len(path):
            raise Unsupported("write of a whole downcast")
        e = path[i]
        fs = list(fs)
        while len(fs) <= e[1]:
            fs.append(None)
        fs[e[1]] = self._upd(st, fs[e[1]], path, i + 1, val)
        return fs

    # ---------- constants
    def const(self, st, k, ty):
        t = self.prog.ty(ty)
        if k == "zst":
            return self.zst(ty)
        if isinstance(k, str):
            raise Unsupported(f"constant {k}")
        return self.decode(st, ty, k["b"], {o: a for o, a in k["p"]}, 0)

    def zst(self, ty):
        t = self.prog.ty(ty)
        if t["k"] == "fndef":
            return Fn(t["inst"])
        if t["k"] in ("tuple", "closure"):
            return Agg([self.zst(x) for x in t["tys"]])
        if t["k"] == "adt" and t["kind"] == "struct":
            return Agg([self.zst(x) for x in t["variants"][0]["tys"]])
        if t["k"] == "adt" and t["kind"] == "enum" and len(t["variants"]) == 1:
            return En(0, [self.zst(x) for x in t["variants"][0]["tys"]])
        if t["k"] == "adt" and t["kind"] == "enum" and isinstance((t["lay"] or {}).get("variants"), dict) and "single" in t["lay"]["variants"]:
            i = t["lay"]["variants"]["single"]
            return En(i, [self.zst(x) for x in t["variants"][i]["tys"]])
        return Agg(())

    def rawint(self, b, off, n, signed=False):
        h = b[2 * off:2 * (off + n)]
        if "_" in h:
            return None
        return int.from_bytes(bytes.fromhex(h), "little", signed=signed)

    def decode(self, st, ty, b, ptrs, off):
        t = self.prog.ty(ty)
        k = t["k"]
        lay = t["lay"]
        if k == "int":
            v = self.rawint(b, off, t["bits"] // 8, t["signed"])
            return None if v is None else K(v)
        if k == "char":
            v = self.rawint(b, off, 4)
            return None if v is None else K(v)
        if k == "bool":
            v = self.rawint(b, off, 1)
            return None if v is None else (T if v else FF)
        if k == "pat":
            return self.decode(st, t["ty"], b, ptrs, off)
        if k == "float":
            v = self.rawint(b, off, lay["size"])
            return Opq("fbits", v)
        if k in ("ref", "ptr"):
            a = ptrs.get(off)
            if a is None:
                raise Unsupported("pointer constant without provenance")
            o = self.rawint(b, off, 8)
            pt = self.prog.ty(t["ty"])
            meta = None
            if pt["k"] in ("slice", "str"):
                meta = K(self.rawint(b, off + 8, 8))
            return self.allocref(st, a, t["ty"], o, meta)
        if k == "tuple":
            return Agg([self.decode(st, x, b, ptrs, off + o) for x, o in zip(t["tys"], lay["fields"])])
        if k == "closure":
            return Agg([self.decode(st, x, b, ptrs, off + o) for x, o in zip(t["tys"], lay["fields"])])
        if k == "array":
            es = self.prog.ty(t["ty"])["lay"]["size"]
            return Agg([self.decode(st, t["ty"], b, ptrs, off + i * es) for i in range(t["len"])])
        if k == "fndef":
            return Fn(t["inst"])
        if k == "adt":
            if t["kind"] == "struct":
                return Agg([self.decode(st, x, b, ptrs, off + o) for x, o in zip(t["variants"][0]["tys"], lay["fields"])])
            if t["kind"] == "enum":
                vs = lay["variants"]
                if vs is None:
                    raise Unsupported("constant of an empty enum")
                if "single" in vs:
                    i = vs["single"]
                    offs = lay["fields"]
                else:
                    tag = self.rawint(b, off + vs["tag_off"], vs["tag_bytes"])
                    enc = vs["enc"]
                    if enc == "direct":
                        i = None
                        m = (1 << (8 * vs["tag_bytes"])) - 1
                        for n, v in enumerate(t["variants"]):
                            if int(v["discr"]) & m == tag:
                                i = n
                    else:
                        if tag is None or (off + vs["tag_off"]) in ptrs:
                            i = enc["untagged"]
                        else:
                            m = (1 << (8 * vs["tag_bytes"])) - 1
                            rel = (tag - int(enc["start"])) & m
                            i = enc["lo"] + rel if rel <= enc["hi"] - enc["lo"] else enc["untagged"]
                    offs = vs["variants"][i]
                return En(i, [self.decode(st, x, b, ptrs, off + o) for x, o in zip(t["variants"][i]["tys"], offs)])
            if t["kind"] == "union":
                return Opq("unionbytes", b[2 * off:2 * (off + lay["size"])])
        if lay and lay["size"] == 0:
            return Agg(())
        raise Unsupported(f"constant of type {t['d']}")

    def allocref(self, st, aid, pointee, off, meta):
        a = self.prog.allocs[str(aid)]
        if a["k"] == "fn":
            return Fn(a["inst"])
        if a["k"] not in ("mem", "static") or a.get("a") is None:
            raise Unsupported(f"pointer to {a['k']}")
        al = a["a"]
        pt = self.prog.ty(pointee)
        obj = ("A", aid, pointee, off)
        if obj not in st.mem:
            ptrs = {o: x for o, x in al["p"]}
            if pt["k"] in ("slice", "str"):
                n = meta.const()
                if pt["k"] == "str":
                    v = Agg([K(self.rawint(al["b"], off + i, 1)) for i in range(n)])
                else:
                    es = self.prog.ty(pt["ty"])["lay"]["size"]
                    v = Agg([self.decode(st, pt["ty"], al["b"], ptrs, off + i * es) for i in range(n)])
            else:
                v = self.decode(st, pointee, al["b"], ptrs, off)
            st.mem[obj] = v
        return Ref(obj, (), meta)

    # ---------- places
    def place_ty(self, fr, pl):
        """static type of a place"""
        t = fr.fn["locals"][pl[0]]
        var = None
        for e in pl[1:]:
            ty = self.prog.ty(t)
            if e == "*":
                if ty["k"] == "adt":  # Box
                    t = ty["args"][0]
                else:
                    t = ty["ty"]
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "c"):
                t = ty["ty"]
            elif e[0] in ("s", "d", "o"):
                pass
        return t

    def place(self, st, fr, pl):
        """-> (obj, path, meta, view)"""
        obj, path, meta, view = (fr.id, pl[0]), (), None, None
        for e in pl[1:]:
            if e == "*":
                r = self.rd(st, self.load(st, obj, path, view))
                if isinstance(r, Opq) and r.kind == "ptr":
                    raise Unsupported("deref of opaque pointer")
                if isinstance(r, Opq):
                    obj, path, meta, view = self.newobj(st, r), (), None, None
                    continue
                if not isinstance(r, Ref):
                    raise Unsupported(f"deref of {r!r}")
                obj, path, meta, view = r.obj, r.path, r.meta, r.view
            elif e[0] == "f":
                if view is not None:
                    raise Unsupported("field of a reinterpreted place")
                path = path + (("f", e[1]),)
            elif e[0] == "d":
                path = path + (("d", e[1]),)
            elif e[0] == "i":
                if view is not None:
                    raise Unsupported("index of a reinterpreted place")
                ix = self.asint(st, st.mem[(fr.id, e[1])])
                path = self.index_path(st, obj, path, meta, ix)
                meta = None
            elif e[0] == "c":
                off = e[1]
                if e[3]:
                    n = self.length(st, obj, path, meta)
                    ix = n - off
                else:
                    ix = K(off)
                path = self.index_path(st, obj, path, meta, ix)
                meta = None
            elif e[0] == "o":
                pass
            else:
                raise Unsupported(f"projection {e}")
        return obj, path, meta, view

    def index_path(self, st, obj, path, meta, ix):
        base = ZERO
        if path and path[-1][0] == "w":  # window into an array (slice reference)
            base = path[-1][1]
            path = path[:-1]
        ix = st.norm(base + ix)
        if ix.is_const():
            return path + (("i", ix.const()),)
        v = self.get(st, obj, path)
        if isinstance(v, Opq) and v.kind == "text":
            return path + (("t", ix),)
        if isinstance(v, Opq):
            raise Unsupported("index into opaque")
        lo, hi = st.range(ix)
        lo, hi = max(lo, 0), min(hi, len(v.f) - 1)
        if self.cx.geo and hi - lo > 2:
            t = self.geometric(st, v.f, lo, hi, ix)
            if t is not None:
                return path + (("geo", t),)
        if hi - lo > 300:
            raise Unsupported("symbolic index range too large")
        raise Fork([eq(ix, i) for i in range(lo, hi + 1)])

    def geometric(self, st, vs, lo, hi, ix):
        """an entry of a table of powers, under a name of its own"""
        if not all(isinstance(x, P) and x.is_const() for x in vs[lo:hi + 1]):
            return None
        c = [x.const() for x in vs[lo:hi + 1]]
        q = vs[1].const() if isinstance(vs[1], P) and vs[1].is_const() else 0
        if q < 2 or any(x != q ** (lo + i) for i, x in enumerate(c)):
            return None
        g = st.ghost.get("powers") or {}
        k = (q, ix.key())
        if k not in g:
            t = self.newvar(st, f"pow{q}", c[0], c[-1])
            st.ghost["powers"] = g = {**g, k: t}
        return g[k]

    def length(self, st, obj, path, meta):
        if meta is not None:
            return meta
        v = self.get(st, obj, path)
        if isinstance(v, Agg):
            return K(len(v.f))
        raise Unsupported("length of " + repr(v))

    def load(self, st, obj, path, view):
        v = self.get(st, obj, path)
        if view is not None:
            v = self.reinterpret(st, v, view[0], view[1])
        return v

    def reinterpret(self, st, v, fty, tty):
        if fty == tty or isinstance(v, Ref):
            return v
        a, b = self.prog.int_ty(fty), self.prog.int_ty(tty)
        if a and b and a[0] == b[0]:
            return self.wrap(st, self.asint(st, v), b[0], b[1])
        # transparent single-field structures
        tt = self.prog.ty(tty)
        ft = self.prog.ty(fty)
        if ft["k"] == "adt" and ft["kind"] == "struct":
            nz = [i for i, x in enumerate(ft["variants"][0]["tys"]) if (self.prog.ty(x)["lay"] or {}).get("size") != 0]
            if len(nz) == 1 and ft["lay"]["fields"][nz[0]] == 0:
                return self.reinterpret(st, v.f[nz[0]], ft["variants"][0]["tys"][nz[0]], tty)
        if tt["k"] == "adt" and tt["kind"] == "struct":
            tys = tt["variants"][0]["tys"]
            nz = [i for i, x in enumerate(tys) if (self.prog.ty(x)["lay"] or {}).get("size") != 0]
            if len(nz) == 1:
                fs = [self.zst(x) if i != nz[0] else self.reinterpret(st, v, fty, x) for i, x in enumerate(tys)]
                return Agg(fs)
        if ft["k"] == "array" and tt["k"] == "array":
            ea, eb = self.prog.int_ty(ft["ty"]), self.prog.int_ty(tt["ty"])
            if ea and eb and ea[0] == eb[0] and ft["len"] == tt["len"]:
                return Agg([self.wrap(st, self.asint(st, x), *eb) for x in v.f])
        # through little-endian words
        w = self.to_le_words(st, v, fty)
        if w is not None:
            r = self.from_le_words(st, w, tty)
            if r is not None:
                return r
        raise Unsupported(f"reinterpretation {ft['d']} -> {tt['d']}")

    def to_le_words(self, st, v, ty):
        """list of (poly unsigned, bits)"""
        t = self.prog.ty(ty)
        if t["k"] == "int":
            return [(self.wrap(st, self.asint(st, v), t["bits"], False), t["bits"])]
        if t["k"] == "array":
            out = []
            for x in v.f:
                w = self.to_le_words(st, x, t["ty"])
                if w is None:
                    return None
                out += w
            return out
        if t["k"] == "float" and isinstance(v, Opq) and v.kind == "fbits" and not isinstance(v.a[0], P):
            return [(K(v.a[0]), t["lay"]["size"] * 8)]
        if t["k"] == "float" and isinstance(v, Opq) and v.kind == "fbits":
            return [(v.a[0], 64)]
        return None

    def from_le_words(self, st, ws, ty):
        t = self.prog.ty(ty)
        if t["k"] == "int":
            tot, sh = ZERO, 0
            for p, b in ws:
                tot = tot + p * (1 << sh)
                sh += b
            if sh != t["bits"]:
                return None
            return self.wrap(st, tot, t["bits"], t["signed"])
        if t["k"] == "float":
            tot, sh = ZERO, 0
            for p, b in ws:
                tot = tot + p * (1 << sh)
                sh += b
            return Opq("fbits", tot.const() if tot.is_const() else tot)
        if t["k"] == "array":
            eb = self.prog.int_ty(t["ty"])
            n = t["len"]
            if not eb:
                es = self.prog.ty(t["ty"])["lay"]["size"] * 8
                out, items = [], list(ws)
                for _ in range(n):
                    take, sh = [], 0
                    while sh < es and items:
                        take.append(items.pop(0))
                        sh += take[-1][1]
                    if sh != es:
                        return None
                    r = self.from_le_words(st, take, t["ty"])
                    if r is None:
                        return None
                    out.append(r)
                return Agg(out) if not items else None
            out = []
            # split or join
            items = list(ws)
            for _ in range(n):
                need = eb[0]
                acc, sh = ZERO, 0
                while sh < need:
                    if not items:
                        return None
                    p, b = items.pop(0)
                    if b <= need - sh:
                        acc = acc + p * (1 << sh)
                        sh += b
                    else:
                        take = need - sh
                        q, r = self.divrem(st, p, K(1 << take))
                        acc = acc + r * (1 << sh)
                        sh += take
                        items.insert(0, (q, b - take))
                out.append(self.wrap(st, acc, eb[0], eb[1]))
            if items:
                return None
            return Agg(out)
        return None

    # ---------- operands / rvalues
    def operand(self, st, fr, o):
        if "k" in o:
            return self.const(st, o["k"], o["t"])
        if "rc" in o:
            return T if o["rc"] in ("UbChecks", "OverflowChecks", "ContractChecks") and o["rc"] == "OverflowChecks" else FF
        pl = o.get("c") or o.get("m")
        obj, path, meta, view = self.place(st, fr, pl)
        v = self.rd(st, self.load(st, obj, path, view))
        if v is None:
            t = self.prog.ty(self.place_ty(fr, pl))
            if t["lay"] and t["lay"]["size"] == 0:
                return self.zst(self.place_ty(fr, pl))
        return v

    def operand_ty(self, fr, o):
        if "k" in o:
            return o["t"]
        if "rc" in o:
            return None
        return self.place_ty(fr, o.get("c") or o.get("m"))

    CMP = {"Eq": eq, "Ne": ne, "Lt": lt, "Le": le, "Gt": gt, "Ge": ge}

    def binop(self, st, op, a, b, ta, tb):
        it = self.prog.int_ty(ta) if ta is not None else None
        if op in self.CMP:
            if isinstance(a, F) or isinstance(b, F):
                a, b = self.asbool(st, a), self.asbool(st, b)
                if op == "Eq":
                    return Iff(a, b)
                if op == "Ne":
                    return Not(Iff(a, b))
                a, b = self.boolint(st, a), self.boolint(st, b)
            if isinstance(a, P) and isinstance(b, P):
                f = self.CMP[op](a, b)
                d = st.decide(f)
                return f if d is None else (T if d else FF)
            if isinstance(a, Ref) and isinstance(b, Ref) and op in ("Eq", "Ne"):
                if a.obj == b.obj and a.path == b.path:
                    return T if op == "Eq" else FF
            if isinstance(a, Ref) and isinstance(b, Ref):
                d = self.ptr_diff(a, b)
                if d is not None:
                    return self.CMP[op](K(d), K(0))
            if isinstance(a, Ref) and isinstance(b, P) and b.is_const() and b.const() == 0 and op in ("Eq", "Ne"):
                return FF if op == "Eq" else T
            h = self.float_cmp(st, op, a, b)
            if h is not None:
                return h
            raise Unsupported(f"comparison of {a!r} and {b!r}")
        if op == "Cmp":
            a, b = self.asint(st, a), self.asint(st, b)
            if self.need(st, lt(a, b)):
                return En(0)
            if self.need(st, eq(a, b)):
                return En(1)
            return En(2)
        if isinstance(a, Opq) or isinstance(b, Opq):
            r = self.opq_binop(st, op, a, b, ta, tb)
            if r is not None:
                return r
            raise Unsupported(f"{op} on opaque values {a!r} {b!r}")
        if op in ("BitAnd", "BitOr", "BitXor") and (isinstance(a, F) or isinstance(b, F)):
            a, b = self.asbool(st, a), self.asbool(st, b)
            if op == "BitAnd":
                return And(a, b)
            if op == "BitOr":
                return Or(a, b)
            return Not(Iff(a, b))
        if isinstance(a, Ref) or isinstance(b, Ref):
            r = self.ref_binop(st, op, a, b)
            if r is not None:
                return r
            raise Unsupported(f"{op} on pointers {a!r} {b!r}")
        a = self.asint(st, a)
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            b = self.asint(st, b)
            return self.shift(st, op.replace("Unchecked", ""), a, b, *it)
        b = self.asint(st, b)
        if it is None:
            raise Unsupported(f"{op} on non-integers")
        bits, signed = it
        if op in ("Add", "AddUnchecked", "Sub", "SubUnchecked", "Mul", "MulUnchecked"):
            return self.wrapping(st, op[:3], a, b, bits, signed)
        if op == "Div":
            return self.wrap(st, self.divrem(st, a, b)[0], bits, signed)
        if op == "Rem":
            return self.divrem(st, a, b)[1]
        if op == "BitAnd":
            return self.bitand(st, a, b, bits, signed)
        if op == "BitOr":
            return self.bitor(st, a, b, bits, signed)
        if op == "BitXor":
            return self.bitxor(st, a, b, bits, signed)
        raise Unsupported(f"operator {op}")

    def ref_binop(self, st, op, a, b):
        """compiler-inserted alignment and null checks: references are aligned and not null"""
        if op == "BitAnd" and isinstance(b, P) and b.is_const() and b.const() in (0, 1, 3, 7, 15):
            return ZERO
        return None

    def opq_binop(self, st, op, a, b, ta, tb):
        import floats
        return floats.binop(self, st, op, a, b)

    def float_cmp(self, st, op, a, b):
        import floats
        return floats.compare(self, st, op, a, b)

    def shift(self, st, op, a, b, bits, signed):
        b = st.norm(b)
        if not b.is_const():
            lo, hi = st.range(b)
            if a.is_const() and a.const() == 0:
                return ZERO
            r = self.shift_exact(st, op, a, b) or self.shift_pow2(st, op, a, b, bits, signed)
            if r is not None:
                return r
            if hi - lo > 300:
                raise Unsupported("symbolic shift amount")
            raise Fork([eq(b, i) for i in range(lo, hi + 1)])
        n = b.const() % bits
        if n == 0:
            return a
        if op == "Shl":
            return self.shl(st, a, n, bits, signed)
        return self.shift_exact(st, op, a, K(n)) or self.floordiv_const(st, a, 1 << n)

    def shift_exact(self, st, op, a, b):
        """shift right by at most the number of trailing zeros"""
        tz = (st.ghost.get("tz") or {}).get(st.norm(a).key()) if op == "Shr" else None
        if tz is None or not st.entails(le(b, tz)):
            return None
        a = st.norm(a)
        t = K(1 << b.const()) if b.is_const() else (st.ghost.get("pow2") or {}).get(b.single_var())
        if t is None:
            return None
        g = st.ghost.get("exactdiv") or {}
        k = (a.key(), t.key())
        if k not in g:
            q = self.newvar(st, "shifted", 0, st.range(a)[1])
            st.assume(eq(a, q * t))
            st.ghost["exactdiv"] = g = {**g, k: q}
        return g[k]

    def pow2_of(self, st, b, bits):
        """(t, 1) if b = s with 2^s = t named, (t, -1) if b = bits - s"""
        g = st.ghost.get("pow2")
        if not g:
            return None
        for v, t in g.items():
            if b == V(v):
                return t, 1
            if b == K(bits) - V(v):
                return t, -1
        return None

    def shift_pow2(self, st, op, a, b, bits, signed):
        """shifts by an amount whose power of two has a name"""
        g = self.pow2_of(st, b, bits)
        if g is None or signed or not (st.range(a)[0] >= 0 or st.entails(ge(a, 0), 2)):
            return None
        t, sg = g
        if op == "Shl" and sg > 0:
            p = a * t
            fits = le(p, tmax(bits, signed))
            # known linear facts about the shifted value, multiplied by the positive power
            vs = a.vars()
            for f in list(st.facts):
                for x in f.a if f.op == "and" else (f,):
                    if x.op == "ge" and len(x.a.d) <= 4 and x.a.vars() & vs and all(len(m) < 2 for m in x.a.d):
                        st.assume(ge0(x.a * t))
            if st.decide(fits) or st.prove(fits, False)[0] == "proved":
                st.assume(fits)
                return p
            return self.divrem(st, p, K(1 << bits))[1]
        if op == "Shr" and sg < 0:
            return self.divrem(st, a * t, K(1 << bits))[0]
        if op == "Shr":
            r = self.divide_by_var(a, t)
            return r if r is not None else self.divrem(st, a, t)[0]
        return None

    def divide_by_var(self, p, t):
        v = t.single_var()
        if v is None or not all(v in m for m in p.d):
            return None
        d = {}
        for m, c in p.d.items():
            m = list(m)
            m.remove(v)
            d[tuple(m)] = c
        return P(d)

    def shl(self, st, a, n, bits, signed):
        """(a << n) mod 2^bits: only the low bits-n bits of a survive"""
        p = a * (1 << n)
        lo, hi = st.range(p)
        if lo >= tmin(bits, signed) and hi <= tmax(bits, signed):
            return p
        if not signed:
            fits = le(p, tmax(bits, signed))
            if lo >= 0 and st.entails(fits):
                st.assume(fits)
                return p
            q, r = self.divrem(st, a, K(1 << (bits - n)))
            return r * (1 << n)
        return self.wrap(st, p, bits, signed)

    def bitand(self, st, a, b, bits, signed):
        if a.is_const():
            a, b = b, a
        if b.is_const():
            m = b.const()
            if a.is_const():
                w = (1 << bits) - 1
                return self.tosigned(K((a.const() & w) & (m & w)), bits, signed)
            if m == 0:
                return ZERO
            mu = m & ((1 << bits) - 1)
            if mu == (1 << bits) - 1:
                return a
            # contiguous run of ones
            s = (mu & -mu).bit_length() - 1
            run = mu >> s
            if run & (run + 1) == 0:
                n = run.bit_length()
                au = self.wrap(st, a, bits, False)
                hi = self.divrem(st, au, K(1 << s))[0] if s else au
                if s + n < bits:
                    hi = self.divrem(st, hi, K(1 << n))[1]
                return self.wrap(st, hi * (1 << s), bits, signed)
            out = ZERO
            au = self.wrap(st, a, bits, False)
            i = 0
            while i < bits:
                if mu >> i & 1:
                    j = i
                    while j < bits and mu >> j & 1:
                        j += 1
                    part = self.divrem(st, self.divrem(st, au, K(1 << i))[0], K(1 << (j - i)))[1]
                    out = out + part * (1 << i)
                    i = j
                else:
                    i += 1
            return self.wrap(st, out, bits, signed)
        la, ha = st.range(a)
        lb, hb = st.range(b)
        if a == b:
            return a
        if (la, ha) == (0, 1) and lb >= 0 and hb <= 1:
            return ZERO if not self.need(st, eq(a, 1)) else b
        raise Unsupported("bitwise and of two symbolic values")

    def tosigned(self, p, bits, signed):
        c = p.const() & ((1 << bits) - 1)
        if signed and c >> (bits - 1):
            c -= 1 << bits
        return K(c)

    def trailing(self, p):
        """largest k such that 2^k divides every coefficient"""
        k = 10 ** 9
        for c in p.d.values():
            k = min(k, (c & -c).bit_length() - 1)
        return k

    def bitor(self, st, a, b, bits, signed):
        if a.is_const() and a.const() == 0:
            return b
        if b.is_const() and b.const() == 0:
            return a
        if a == b:
            return a
        if a.is_const() and b.is_const():
            w = (1 << bits) - 1
            return self.tosigned(K((a.const() & w) | (b.const() & w)), bits, signed)
        for x, y in ((a, b), (b, a)):
            k = self.trailing(x)
            lo, hi = st.range(y)
            if lo >= 0 and hi < (1 << min(k, 300)):
                return x + y
        la, ha = st.range(a)
        lb, hb = st.range(b)
        if la >= 0 and lb >= 0 and ha <= 1 and hb <= 1:
            if st.entails(le(a + b, 1)):
                st.assume(le(a + b, 1))
                return a + b
            if self.need(st, eq(a, 1)):
                return K(1)
            return b
        for x, y in ((a, b), (b, a)):
            if x.is_const():
                m = x.const() & ((1 << bits) - 1)
                yu = self.wrap(st, y, bits, False)
                rest = self.bitand(st, yu, K(((1 << bits) - 1) ^ m), bits, False)
                return self.wrap(st, rest + K(m), bits, signed)
        for t in (st.ghost.get("pow2") or {}).values():
            for x, y in ((a, b), (b, a)):
                f = And(ge(y, 0), lt(y, t))
                if self.divide_by_var(x, t) is not None and st.prove(f, False)[0] == "proved":
                    st.assume(f)
                    return x + y
        raise Unsupported("bitwise or of overlapping symbolic values")

    def bitxor(self, st, a, b, bits, signed):
        if a.is_const() and a.const() == 0:
            return b
        if b.is_const() and b.const() == 0:
            return a
        if a == b:
            return ZERO
        if a.is_const() and b.is_const():
            w = (1 << bits) - 1
            return self.tosigned(K((a.const() & w) ^ (b.const() & w)), bits, signed)
        for x, y in ((a, b), (b, a)):
            if x.is_const():
                if x.const() & ((1 << bits) - 1) == (1 << bits) - 1:
                    return self.bitnot(y, bits, signed)
                m = x.const() & ((1 << bits) - 1)
                yu = self.wrap(st, y, bits, False)
                andp = self.bitand(st, yu, K(m), bits, False)
                return self.wrap(st, yu + K(m) - andp * 2, bits, signed)
        # x ^ y with y all zeros or all ones (sign masks)
        for x, y in ((a, b), (b, a)):
            lo, hi = st.range(y)
            ones = -1 if signed else (1 << bits) - 1
            if (signed and lo >= -1 and hi <= 0) or (not signed and all(c % ones == 0 for c in y.d.values())):
                if self.need(st, eq(y, 0)):
                    return x
                if self.need(st, eq(y, ones)):
                    return self.bitnot(x, bits, signed)
        raise Unsupported("bitwise xor of two symbolic values")

    def bitnot(self, a, bits, signed):
        return -a - 1 if signed else K((1 << bits) - 1) - a

    def arith(self, st, op, a, b):
        """a op b, remembering the interval that follows from those of the operands"""
        p = a + b if op == "Add" else (a - b if op == "Sub" else a * b)
        if len(p.d) > 1:
            la, ha = st.range(a)
            lb, hb = st.range(b)
            if op == "Add":
                lo, hi = la + lb, ha + hb
            elif op == "Sub":
                lo, hi = la - hb, ha - lb
            else:
                c = (la * lb, la * hb, ha * lb, ha * hb)
                lo, hi = min(c), max(c)
            l0, h0 = st.range(p)
            if lo > l0 or hi < h0:
                if not p.is_const():
                    st._learn_ge(p - lo)
                    st._learn_ge(K(hi) - p)
        return p

    def hint(self, st, x):
        """try the bounds the contract names as useful; they are assumed only when proved"""
        h = self.cx.hints
        if h is None:
            return
        for b in h(st, self.cx.sargs):
            f = lt(x, b)
            if st.decide(f) is None and st.prove(f, False)[0] == "proved":
                st.assume(f)

    def wrapping(self, st, op, a, b, bits, signed):
        """a op b modulo 2^bits; chains of wrapping operations are compared without the intermediate reductions"""
        p = st.norm(self.arith(st, op, a, b))
        lo, hi = st.range(p)
        tl, th = tmin(bits, signed), tmax(bits, signed)
        exact = lo >= tl and hi <= th
        un = st.ghost.get("unred")
        x = p
        if un is not None:
            a2, b2 = un.get((a.key(), bits), a), un.get((b.key(), bits), b)
            if a2 is not a or b2 is not b:
                x = st.norm(self.arith(st, op, a2, b2))
                inside = And(ge(x, tl), le(x, th))
                if st.decide(inside) or st.entails(inside, 2 if op == "Sub" else 1):
                    st.assume(inside)
                    self.hint(st, x)
                    return x
                if op == "Sub" and st.refute_lp(T):
                    raise Fork([])
        r = p if exact else self.wrap(st, p, bits, signed)
        if r != x:
            un = dict(un or {})
            un[(r.key(), bits)] = x
            st.ghost["unred"] = un
        return r

    def checked(self, st, op, a, b, ta):
        bits, signed = self.prog.int_ty(ta)
        a, b = self.asint(st, a), self.asint(st, b)
        op = op.replace("WithOverflow", "").replace("Unchecked", "")
        return self.ovf(st, self.arith(st, op, a, b), bits, signed)

    def ovf(self, st, p, bits, signed):
        """(wrapped value, overflow flag)"""
        tl, th = tmin(bits, signed), tmax(bits, signed)
        p = st.norm(p)
        lo, hi = st.range(p)
        if lo >= tl and hi <= th:
            return p, FF
        if lo > th or hi < tl:
            return WrapV(p, bits, signed), T
        over, under = gt(p, th), lt(p, tl)
        if lo >= tl:
            if hi - tl < (2 << bits):
                st.flags[over.a.key()] = ("add", p, bits, signed)
            return WrapV(p, bits, signed), over
        if hi <= th:
            if lo - tl >= -(1 << bits):
                st.flags[under.a.key()] = ("sub", p, bits, signed)
            return WrapV(p, bits, signed), under
        return WrapV(p, bits, signed), Or(over, under)

    def discr(self, st, v, ty):
        t = self.prog.ty(ty)
        if not isinstance(v, En):
            raise Unsupported(f"discriminant of {v!r}")
        d = int(t["variants"][v.v]["discr"])
        return d

    def norm_int(self, d, it):
        bits, signed = it
        d &= (1 << bits) - 1
        if signed and d >> (bits - 1):
            d -= 1 << bits
        return K(d)

    def rvalue(self, st, fr, rv, dest_ty):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k in ("ref", "addr"):
            obj, path, meta, view = self.place(st, fr, rv[1])
            return Ref(obj, path, meta, view)
        if k == "bin":
            if rv[1] == "Offset":
                return self.offset(st, self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]))
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            return self.binop(st, rv[1], a, b, self.operand_ty(fr, rv[2]), self.operand_ty(fr, rv[3]))
        if k == "cbin":
            a, b = self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3])
            r, f = self.checked(st, rv[1], a, b, self.operand_ty(fr, rv[2]))
            return Agg((r, f))
        if k == "un":
            a = self.operand(st, fr, rv[2])
            t = self.operand_ty(fr, rv[2])
            if rv[1] == "Not":
                if isinstance(a, F):
                    return Not(a)
                return self.bitnot(self.asint(st, a), *self.prog.int_ty(t))
            if rv[1] == "Neg":
                if isinstance(a, Opq):
                    return self.float_neg(st, a)
                return self.wrap(st, -self.asint(st, a), *self.prog.int_ty(t))
            if rv[1] == "PtrMetadata":
                if isinstance(a, Ref):
                    if a.meta is not None:
                        return a.meta
                    return UNIT
            raise Unsupported(f"unary {rv[1]} on {a!r}")
        if k == "cast":
            return self.cast(st, rv[1], self.operand(st, fr, rv[2]), rv[3], rv[4], rv[5])
        if k == "discr":
            obj, path, meta, view = self.place(st, fr, rv[1])
            v = self.rd(st, self.load(st, obj, path, view))
            d = self.discr(st, v, self.place_ty(fr, rv[1]))
            return self.norm_int(d, self.prog.int_ty(dest_ty))
        if k == "len":
            obj, path, meta, view = self.place(st, fr, rv[1])
            return self.length(st, obj, path, meta)
        if k == "agg":
            ks = rv[1]
            vs = [self.operand(st, fr, o) for o in rv[2]]
            if ks[0] in ("array", "tuple", "closure"):
                return Agg(vs)
            if ks[0] == "adt":
                t = self.prog.ty(ks[1])
                if ks[3] is not None:
                    return Opq("union", ks[3], vs[0])
                if t["kind"] == "enum":
                    return En(ks[2], vs)
                return Agg(vs)
            if ks[0] == "rawptr":
                r, meta = vs
                if isinstance(r, Ref):
                    return self.fat(r, meta)
            raise Unsupported(f"aggregate {ks}")
        if k == "repeat":
            v = self.operand(st, fr, rv[1])
            return Agg([v] * rv[2])
        raise Unsupported(f"rvalue {k} {rv[1] if len(rv) > 1 else ''}")

    def offset(self, st, r, n):
        if not isinstance(r, Ref):
            raise Unsupported("pointer offset")
        return self.ptr_add(st, r, self.asint(st, n))

    def ptr_add(self, st, r, n):
        n = st.norm(n)
        if n.is_const() and n.const() == 0:
            return r
        if r.path and r.path[-1][0] == "i" and n.is_const():
            return Ref(r.obj, r.path[:-1] + (("i", r.path[-1][1] + n.const()),), None, r.view)
        raise Unsupported("pointer arithmetic")

    def elem(self, r, i):
        """(obj, path, view) of the i-th element behind a thin pointer"""
        if i == 0:
            return r.obj, r.path, r.view
        if r.path and r.path[-1][0] == "i":
            return r.obj, r.path[:-1] + (("i", r.path[-1][1] + i),), r.view
        raise Unsupported("copy through a pointer to a single object")

    def fat(self, r, meta):
        """pointer with metadata from a thin pointer; element pointers become windows"""
        if not isinstance(meta, P):
            return Ref(r.obj, r.path, None, r.view)
        path = r.path
        if path and path[-1][0] == "i":
            path = path[:-1] + (("w", K(path[-1][1])),)
        return Ref(r.obj, path, meta, r.view)

    def ptr_diff(self, a, b):
        """distance in elements of two pointers into the same array, None if unrelated"""
        if a.obj != b.obj:
            return None
        if a.path == b.path:
            return 0
        if a.path and b.path and a.path[:-1] == b.path[:-1] and a.path[-1][0] == b.path[-1][0] == "i":
            return a.path[-1][1] - b.path[-1][1]
        return None

    def words_eq(self, st, a, b):
        a, b = self.rd(st, a), self.rd(st, b)
        if isinstance(a, Opq) and a.kind == "u256":
            a = self.limbs(st, a.a[0])
        if isinstance(b, Opq) and b.kind == "u256":
            b = self.limbs(st, b.a[0])
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f):
            return And(*[self.words_eq(st, x, y) for x, y in zip(a.f, b.f)])
        return eq(self.asint(st, a), self.asint(st, b))

    def float_neg(self, st, a):
        raise Unsupported("float negation")

    def cast(self, st, kind, v, tty, fty, inst):
        it = self.prog.int_ty(tty)
        if kind == "IntToInt":
            if isinstance(v, F):
                v = self.boolint(st, v)
            if isinstance(v, En):
                v = self.norm_int(self.discr(st, v, fty), (64, True))
            return self.wrap(st, self.asint(st, v), *it)
        if kind == "Transmute":
            if fty == tty:
                return v
            if isinstance(v, Ref):
                return v
            if isinstance(v, F) and it:
                return self.boolint(st, v)
            t2 = self.prog.ty(tty)
            if t2["k"] == "adt" and t2["kind"] == "enum" and isinstance(v, P):
                return self.int_to_enum(st, v, tty)
            return self.reinterpret(st, v, fty, tty)
        if kind in ("PtrToPtr",):
            if not isinstance(v, Ref):
                return v
            pf, pt = self.prog.ty(fty).get("ty"), self.prog.ty(tty).get("ty")
            if pf == pt or pf is None or pt is None:
                return v
            tf, tt = self.prog.ty(pf), self.prog.ty(pt)
            base = v.view[0] if v.view else pf
            if base == pt:
                return Ref(v.obj, v.path, v.meta, None)
            if tf["k"] in ("slice", "str") and tt["k"] not in ("slice", "str"):
                # thin pointer to the first element
                return Ref(v.obj, self.first_elem(st, v), None, None)
            if tf["k"] in ("slice", "str") and tt["k"] in ("slice", "str"):
                return v
            if tf["k"] == "array" and tf["ty"] == pt:
                return Ref(v.obj, v.path + (("i", 0),), None, None)
            return Ref(v.obj, v.path, v.meta, (base, pt))
        if kind.startswith("PointerCoercion(Unsize"):
            pf = self.prog.ty(self.pointee(fty))
            if pf["k"] == "array" and isinstance(v, Ref):
                return Ref(v.obj, v.path, K(pf["len"]), v.view)
            return v
        if kind.startswith("PointerCoercion"):
            if inst is not None:
                return Fn(inst)
            if "ArrayToPointer" in kind and isinstance(v, Ref):
                return Ref(v.obj, v.path + (("i", 0),), None, v.view)
            return v
        r = self.float_cast(st, kind, v, tty, fty)
        if r is not None:
            return r
        raise Unsupported(f"cast {kind}")

    def first_elem(self, st, v):
        if v.path and v.path[-1][0] == "w":
            b = st.norm(v.path[-1][1])
            if b.is_const():
                return v.path[:-1] + (("i", b.const()),)
            raise Unsupported("pointer into symbolic window")
        return v.path + (("i", 0),)

    def pointee(self, t):
        k = self.prog.ty(t)
        if k["k"] in ("ref", "ptr"):
            return k["ty"]
        if k["k"] == "adt":
            for x in k["variants"][0]["tys"]:
                if self.prog.ty(x)["k"] in ("ref", "ptr", "adt", "pat"):
                    return self.pointee(x)
        raise Unsupported("pointee")

    def float_cast(self, st, kind, v, tty, fty):
        if kind == "IntToFloat" and self.prog.ty(tty)["lay"]["size"] == 8:
            # rounding to nearest is monotone: the result lies between the roundings of the bounds
            lo, hi = st.range(self.asint(st, v))
            return Opq("frange", float(lo), float(hi), self.asint(st, v))
        if kind == "FloatToInt" and isinstance(v, Opq) and v.kind == "frange":
            b = self.prog.int_ty(tty)
            cl = [max(tmin(*b), min(tmax(*b), int(x))) for x in v.a]
            return self.newvar(st, "fcast", *cl)
        return None

    def int_to_enum(self, st, v, ty):
        t = self.prog.ty(ty)
        sz = t["lay"]["size"] * 8
        if v.is_const():
            for i, x in enumerate(t["variants"]):
                if (int(x["discr"]) - v.const()) % (1 << sz) == 0:
                    return En(i)
            raise Unsupported("transmute to invalid enum value")
        raise Fork([eq(v, self.norm_int(int(x["discr"]), (sz, st.range(v)[0] < 0))) for x in t["variants"]])

    # ---------- running
    def new_frame(self, key, args):
        fn = self.prog.fns[key]
        if fn["body"] is None:
            raise Unsupported(f"no body for {fn['sname']}")
        self.cx.fid += 1
        fr = Frame(self.cx.fid, fn)
        self.cx.inlined[fn["sname"]] = self.cx.inlined.get(fn["sname"], 0) + 1
        return fr, args

    def push(self, st, key, args, dest, ret):
        fn = self.prog.fns[key]
        fr, args = self.new_frame(key, args)
        n = fn["argc"]
        if fn["spread"] is None and fn["sname"].endswith("}") and "{closure#" in fn["sname"].rsplit("::", 1)[-1] and len(args) == 2 and len(args[1].f if isinstance(args[1], Agg) else ()) == n - 1:
            args = [args[0]] + list(args[1].f)  # rust-call ABI
        elif len(args) != n:
            # rust-call ABI: last argument is a tuple to be spread (or the callee wants one)
            if fn["spread"] is None and len(args) >= 1 and isinstance(args[-1], Agg) and len(args) - 1 + len(args[-1].f) == n:
                args = list(args[:-1]) + list(args[-1].f)
            elif len(args) - 1 == n:
                args = args[1:]
            else:
                raise Unsupported(f"arity of {fn['sname']}: {len(args)} vs {n}")
        if fn["spread"] is not None:
            s = fn["spread"]
            if len(args) != n:
                raise Unsupported("spread")
        for i, a in enumerate(args):
            st.mem[(fr.id, i + 1)] = a
        fr.dest, fr.ret = dest, ret
        if len(st.frames) > 60:
            raise Unsupported("call depth")
        st.frames.append(fr)

    def run(self, st, on_terminal):
        """depth-first exploration from st"""
        work = [st]
        cx = self.cx
        while work:
            s = work.pop()
            if cx.deadline and time.time() > cx.deadline:
                raise Unsupported("time budget of the unit exhausted")
            try:
                while True:
                    r = self.step(s)
                    if r is not None:
                        # list of successor states
                        work.extend(reversed(r))
                        break
            except Terminal as t:
                cx.npaths += 1
                on_terminal(s, t)
            except Fork as fk:
                out = []
                for c in fk.conds:
                    if s.feasible(c):
                        n = s.copy()
                        n.assume(c)
                        out.append(n)
                work.extend(reversed(out))
                cx.forks = getattr(cx, "forks", 0) + 1
                if cx.forks > 60000:
                    raise Unsupported("too many paths")

    def step(self, st):
        pn = st.ghost.get("__panic")
        if pn is not None:
            raise Terminal("panic", *pn)
        fr = st.frames[-1]
        body = fr.fn["body"]
        if fr.si == 0 and self.cx.cuts and fr.tag != ("cut", fr.bb):
            c = self.cut_at(fr.fn, fr.bb)
            if c is not None:
                from cuts import at_cut
                return at_cut(self, st, fr, *c)
        blk = body[fr.bb]
        ss = blk["s"]
        while fr.si < len(ss):
            self.stmt(st, fr, ss[fr.si])
            fr.si += 1
        return self.term(st, fr, blk["t"])

    def stmt(self, st, fr, s):
        k = s[0]
        if k == "=":
            dty = self.place_ty(fr, s[1])
            v = self.rvalue(st, fr, s[2], dty)
            self.assign(st, fr, s[1], v)
        elif k == "dead":
            st.mem.pop((fr.id, s[1]), None)
        elif k == "sd":
            obj, path, meta, view = self.place(st, fr, s[1])
            v = self.get(st, obj, path)
            self.put(st, obj, path, En(s[2], v.f if isinstance(v, (En, Agg)) else ()))
        elif k == "assume":
            pass
        elif k == "cpy":
            src, dst = self.operand(st, fr, s[1]), self.operand(st, fr, s[2])
            n = st.norm(self.asint(st, self.operand(st, fr, s[3])))
            if not n.is_const() or not isinstance(src, Ref) or not isinstance(dst, Ref):
                raise Unsupported("copy of symbolic length")
            vals = [self.load(st, *self.elem(src, i)) for i in range(n.const())]
            for i, v in enumerate(vals):
                obj, path, view = self.elem(dst, i)
                if view is not None:
                    raise Unsupported("copy into a reinterpreted place")
                self.put(st, obj, path, v)
        else:
            raise Unsupported(f"statement {k}")

    def assign(self, st, fr, pl, v):
        obj, path, meta, view = self.place(st, fr, pl)
        if view is not None:
            v = self.reinterpret(st, v, view[1], view[0])
        self.put(st, obj, path, v)

    def goto(self, fr, b):
        fr.bb = b
        fr.si = 0
        fr.tag = None
        n = fr.visits.get(b, 0) + 1
        fr.visits[b] = n
        if n > self.cx.max_visits:
            raise Unsupported(f"loop bound exceeded in {fr.fn['sname']}")

    def branch(self, st, fr, f, b1, b0):
        """fork on formula f"""
        d = st.decide(f)
        if d is not None:
            self.goto(fr, b1 if d else b0)
            return None
        out = []
        for c, b in ((f, b1), (Not(f), b0)):
            if st.feasible(c):
                out.append((c, b))
        if len(out) == 1:
            st.assume(out[0][0])
            self.goto(fr, out[0][1])
            return None
        res = []
        for c, b in out:
            n = st.copy()
            n.assume(c)
            self.goto(n.frames[-1], b)
            res.append(n)
        return res

    def term(self, st, fr, t):
        k = t[0]
        if k == "goto":
            if t[1] == fr.bb and not fr.fn["body"][fr.bb]["s"]:
                raise Terminal("panic", "never returns", "")
            self.goto(fr, t[1])
            return None
        if k == "switch":
            v = self.operand(st, fr, t[1])
            ty = t[4]
            if isinstance(v, F) or self.prog.ty(ty)["k"] == "bool":
                f = self.asbool(st, v)
                # branches list: value 0 -> target
                tgt = {int(x): b for x, b in t[2]}
                b0 = tgt.get(0, t[3])
                b1 = tgt.get(1, t[3])
                return self.branch(st, fr, f, b1, b0)
            v = self.asint(st, v)
            it = self.prog.int_ty(ty)
            vals = [(self.norm_int(int(x), it).const(), b) for x, b in t[2]]
            if v.is_const():
                c = v.const()
                for x, b in vals:
                    if x == c:
                        self.goto(fr, b)
                        return None
                self.goto(fr, t[3])
                return None
            out = []
            rest = []
            for x, b in vals:
                c = eq(v, x)
                rest.append(Not(c))
                if st.feasible(c):
                    out.append((c, b))
            c = And(*rest)
            if st.feasible(c):
                out.append((c, t[3]))
            res = []
            for c, b in out:
                n = st.copy()
                n.assume(c)
                self.goto(n.frames[-1], b)
                res.append(n)
            return res
        if k == "assert":
            f = self.asbool(st, self.operand(st, fr, t[1]))
            if not t[2]:
                f = Not(f)
            d = st.decide(f)
            if d is True:
                self.cx.checked_asserts += 1
                self.goto(fr, t[3])
                return None
            if d is False:
                raise Terminal("panic", t[4], t[5])
            neg = st.feasible(Not(f), 2)
            if not neg:
                self.cx.checked_asserts += 1
                st.assume(f)
                self.goto(fr, t[3])
                return None
            out = []
            bad = st.copy()
            bad.assume(Not(f))
            if st.feasible(f):
                st.assume(f)
                self.goto(fr, t[3])
                return [self.mark_panic(bad, t[4], t[5]), st]
            return [self.mark_panic(bad, t[4], t[5])]
        if k == "call":
            return self.call(st, fr, t)
        if k == "ret":
            v = st.mem.get((fr.id, 0))
            v = self.rd(st, v)
            st.frames.pop()
            # locals die
            for key in [x for x in st.mem if x[0] == fr.id]:
                del st.mem[key]
            if fr.dest is None:
                raise Terminal("ret", v)
            if v is None:
                v = UNIT
            up = st.frames[-1]
            self.assign(st, up, fr.dest, v)
            if fr.ret is None:
                raise Unsupported("return into diverging call")
            self.goto(up, fr.ret)
            return None
        if k == "drop":
            self.goto(fr, t[2])
            return None
        if k == "unreach":
            raise Terminal("unreachable", None, t[1])
        raise Unsupported(f"terminator {k}")

    def mark_panic(self, st, msg, loc):
        st.ghost["__panic"] = (msg, loc)
        return st

    def cut_at(self, fn, bb):
        from cuts import loops
        m = self.cx.cutmap.get(fn["sname"])
        if m is None:
            m = {}
            cs = [c for c in self.cx.cuts if c.rx.search(fn["sname"])]
            if not cs and "fixnum" in fn["sname"] and loops(fn):
                # loops that moved to another function
                orphans = [c for c in self.cx.cuts if isinstance(c.idx, int) and not any(c.rx.search(f["sname"]) and f["body"] is not None and len(loops(f)) > c.idx for f in self.prog.fns.values())]
                if len(orphans) == len(loops(fn)):
                    cs = orphans
            if cs:
                ls = loops(fn)
                for c in cs:
                    if isinstance(c.idx, tuple):
                        from cuts import join
                        m[join(fn, *c.idx)] = (c, join(fn, *c.idx), set(), set(range(1, len(fn["locals"]))))
                        continue
                    if c.idx >= len(ls):
                        continue
                    h, blocks, mod = ls[c.idx]
                    m[h] = (c, h, blocks, mod)
            self.cx.cutmap[fn["sname"]] = m
        return m.get(bb)

    def call(self, st, fr, t):
        _, fo, fty, argo, dest, target, loc, dty, _uw = t
        f = self.operand(st, fr, fo)
        if not isinstance(f, Fn):
            raise Unsupported(f"call through {f!r}")
        key = f.key
        if key is None:
            raise Unsupported("unresolved callee " + str(self.prog.ty(fty).get("d")))
        fn = self.prog.fns[key]
        args = [self.operand(st, fr, o) for o in argo]
        h = self.find_contract(fn)
        if h is not None:
            self.cx.used_contracts[fn["sname"]] = self.cx.used_contracts.get(fn["sname"], 0) + 1
            r = h(self, st, fr, fn, args, [self.operand_ty(fr, o) for o in argo], dty)
            if r is not NotImplemented:
                return self.finish(st, fr, dest, target, r, fn, loc)
        if fn["intr"] is not None:
            v = self.intrinsic(st, fr, fn, fn["intr"], args, [self.operand_ty(fr, o) for o in argo], dty)
            if v is not NotImplemented:
                return self.finish(st, fr, dest, target, v, fn, loc)
        if target is None:
            raise Terminal("panic", fn["sname"], loc)
        if fn["body"] is None:
            v = self.ctor(fn, args, dty)
            if v is None and fn["sname"].startswith(("std::fmt::", "core::fmt::", "<std::fmt::")):
                v = Opq("fmt")  # panic messages
            if v is not None:
                return self.finish(st, fr, dest, target, v, fn, loc)
            raise Unsupported(f"external function {fn['sname']}")
        self.push(st, key, args, dest, target)
        return None

    def ctor(self, fn, args, dty):
        """tuple-like constructors used as functions"""
        t = self.prog.ty(dty)
        last = strip_generics(fn["name"]).rstrip(":").rsplit("::", 1)[-1]
        if t["k"] == "adt" and t["kind"] == "enum":
            for i, v in enumerate(t["variants"]):
                if v["name"] == last and len(v["tys"]) == len(args):
                    return En(i, args)
        if t["k"] == "adt" and t["kind"] == "struct" and t["name"].rsplit("::", 1)[-1] == last and len(t["variants"][0]["tys"]) == len(args):
            return Agg(args)
        return None

    def finish(self, st, fr, dest, target, r, fn, loc):
        """r: value | list of (formula, value)"""
        if isinstance(r, list):
            outs = []
            for c, v in r:
                if not st.feasible(c):
                    continue
                n = st.copy()
                n.assume(c)
                if isinstance(v, Terminal):
                    outs.append(self.mark_panic(n, v.val, loc))
                    continue
                f2 = n.frames[-1]
                if callable(v):
                    v = v(n)
                self.assign(n, f2, dest, v)
                self.goto(f2, target)
                outs.append(n)
            return outs
        if target is None:
            raise Terminal("panic", fn["sname"], loc)
        self.assign(st, fr, dest, r)
        self.goto(fr, target)
        return None

    def find_contract(self, fn):
        n = fn["sname"]
        c = self.cx.ccache.get(n, 0) if hasattr(self.cx, "ccache") else 0
        if c != 0:
            return c
        if not hasattr(self.cx, "ccache"):
            self.cx.ccache = {}
        r = None
        for rx, h in self.cx.contracts:
            if rx.search(n):
                r = h
                break
        self.cx.ccache[n] = r
        return r

    # ---------- intrinsics
    def intrinsic(self, st, fr, fn, name, args, tys, dty):
        I = self.prog.int_ty
        if name in ("add_with_overflow", "sub_with_overflow", "mul_with_overflow"):
            r, f = self.checked(st, name[:3].capitalize(), args[0], args[1], tys[0])
            return Agg((r, f))
        if name in ("wrapping_add", "wrapping_sub", "wrapping_mul", "unchecked_add", "unchecked_sub", "unchecked_mul"):
            a, b = self.asint(st, args[0]), self.asint(st, args[1])
            return self.wrapping(st, name.split("_")[1].capitalize(), a, b, *I(tys[0]))
        if name in ("saturating_add", "saturating_sub"):
            a, b = self.asint(st, args[0]), self.asint(st, args[1])
            bits, signed = I(tys[0])
            p = a + b if name.endswith("add") else a - b
            tl, th = tmin(bits, signed), tmax(bits, signed)
            if self.need(st, gt(p, th)):
                return K(th)
            if self.need(st, lt(p, tl)):
                return K(tl)
            return p
        if name in ("unchecked_div", "exact_div"):
            return self.binop(st, "Div", args[0], args[1], tys[0], tys[1])
        if name == "unchecked_rem":
            return self.binop(st, "Rem", args[0], args[1], tys[0], tys[1])
        if name in ("unchecked_shl", "unchecked_shr"):
            return self.binop(st, "Shl" if name.endswith("l") else "Shr", args[0], args[1], tys[0], tys[1])
        if name in ("three_way_compare",):
            return self.binop(st, "Cmp", args[0], args[1], tys[0], tys[1])
        if name in ("ctlz", "ctlz_nonzero"):
            return self.ctlz(st, args[0], tys[0])
        if name in ("cttz", "cttz_nonzero"):
            return self.cttz(st, args[0], tys[0])
        if name in ("likely", "unlikely", "black_box"):
            return args[0]
        if name == "cold_path":
            return UNIT
        if name in ("is_val_statically_known",):
            return FF
        if name in ("assume", "assert_inhabited", "assert_zero_valid", "assert_mem_uninitialized_valid"):
            return UNIT
        if name == "discriminant_value":
            r = args[0]
            v = self.rd(st, self.load(st, r.obj, r.path, r.view))
            ty = self.prog.ty(tys[0])["ty"]
            d = self.discr(st, v, ty) if self.prog.ty(ty)["k"] == "adt" else 0
            return self.norm_int(d, I(dty))
        if name == "size_of":
            t = self.prog.ty(fn["args"][0])
            return K(t["lay"]["size"])
        if name in ("select_unpredictable",):
            return args[1] if self.need(st, self.asbool(st, args[0])) else args[2]
        if name in ("rotate_left", "rotate_right", "bswap", "bitreverse"):
            raise Unsupported(name)
        if name in ("ptr_metadata",):
            return args[0].meta if args[0].meta is not None else UNIT
        if name in ("aggregate_raw_ptr",):
            return self.fat(args[0], args[1])
        if name in ("offset", "arith_offset"):
            return self.offset(st, args[0], args[1])
        if name == "read_via_copy":
            r = args[0]
            return self.rd(st, self.load(st, r.obj, r.path, r.view))
        if name == "write_via_move":
            r = args[0]
            self.put(st, r.obj, r.path, args[1])
            return UNIT
        if name == "raw_eq":
            a, b = [self.rd(st, self.load(st, r.obj, r.path, r.view)) for r in args]
            return self.words_eq(st, a, b)
        if name in ("ptr_offset_from_unsigned", "ptr_offset_from"):
            d = self.ptr_diff(args[0], args[1])
            if d is None:
                raise Unsupported("distance of unrelated pointers")
            return K(d)
        if name == "transmute":
            return self.cast(st, "Transmute", args[0], dty, tys[0], None)
        if name == "const_eval_select":
            # (args tuple, const fn, runtime fn)
            f = args[2]
            self.cx.sel = True
            return NotImplemented
        return NotImplemented

    def ctlz(self, st, v, ty):
        bits, signed = self.prog.int_ty(ty)
        v = self.wrap(st, self.asint(st, v), bits, False)
        if v.is_const():
            return K(bits - v.const().bit_length())
        lo, hi = st.range(v)
        a, b = max(lo, 0).bit_length(), hi.bit_length()
        if a == b:
            return K(bits - a)
        conds = []
        for n in range(a, b + 1):
            conds.append(eq(v, 0) if n == 0 else And(ge(v, 1 << (n - 1)), le(v, (1 << n) - 1)))
        raise Fork(conds)

    def cttz(self, st, v, ty):
        bits, signed = self.prog.int_ty(ty)
        v = self.wrap(st, self.asint(st, v), bits, False)
        if v.is_const():
            c = v.const()
            return K(bits if c == 0 else (c & -c).bit_length() - 1)
        raise Unsupported("cttz")
