"""Per-property configuration: what is extracted, which contract each unit has, how it runs natively."""
import re
import struct
from math import isqrt

from exec import *
from native import gen_args, MODES
from specs import SPECS, lim
import build as B
from deps import CONTRACTS, ROUNDING_OPS, CONVERSIONS, closure
from text import TEXT, TEXT_TRUST
import consts
import fmtc


class Config:
    """one harness group of the crate fxroots, one dump, one runner"""
    level = "proof"
    split_parts = True
    unit_limit = 240
    native_n = 60
    kind = None
    features = "std," + B.LAYOUTS

    def __init__(self, pid, group, tier, contracts=(), contract_units=None, kw=None, weights=None, **opts):
        self.pid, self.group, self.tier = pid, group, tier
        self.contracts = contracts
        self.kw = kw or {}
        self.specs = {}
        self.natcache = {}
        self.runner_path = None
        self.weights = weights or {}
        for k, v in opts.items():
            setattr(self, k, v)
        if tier == "thorough":
            self.native_n *= 60
            self.unit_limit *= 3

    def build(self, b, progs, parallel):
        def dumps():
            d = b.driver()
            return b.dump(d, "harness", "fxroots", self.group, f"{self.features},{self.group}")

        def run():
            return b.runner("harness", f"{self.features},{self.group}")
        d, r = parallel([dumps, run])
        progs["main"] = self.prog = Prog(d)
        self.runner_path = r

    layouts = None

    def roots(self, pk, prog):
        return [r for r in prog.roots if self.layouts is None or self.parse(r)[1] in self.layouts]

    def parse(self, root):
        m = root.split("::")
        i = m.index(self.group)
        mod, op = m[i - 1], "::".join(m[i + 1:])
        if mod.startswith("int_"):
            return mod, mod[4:], None, op
        l, p = mod.split("_")
        return mod, l, int(p), op

    def unit_name(self, pk, root):
        mod, l, p, op = self.parse(root)
        return f"{mod}::{op}"

    def spec(self, root):
        s = self.specs.get(root)
        if s is None:
            mod, l, p, op = self.parse(root)
            s = self.specs[root] = SPECS[self.group](l, p, op)
        return s

    def unit(self, pk, prog, root):
        return self.spec(root), dict(self.kw, contracts=self.contracts)

    def weight(self, pk, root):
        mod, l, p, op = self.parse(root)
        return self.weights.get(l, 0) or {"i8": 1, "i16": 1, "i32": 3, "i64": 2, "i128": 2}[l]

    def native(self, pk, root):
        if root in self.natcache:
            return self.natcache[root]
        r = self.natcache[root] = self._native(pk, root)
        return r

    def arg_types(self, root):
        fn = self.prog.fns[self.prog.roots[root]]
        tys = []
        for t in fn["locals"][1:1 + fn["argc"]]:
            tys.append(self.arg_ty(t))
        return tys

    def arg_ty(self, t):
        it = self.prog.int_ty(t)
        if it:
            return tmin(*it), tmax(*it)
        k = self.prog.ty(t)
        if k["k"] == "bool":
            return [False, True]
        if k["k"] == "adt" and k["kind"] == "enum" and k["name"].endswith("RoundMode"):
            return list(MODES)
        if k["k"] == "adt" and k["kind"] == "struct":
            nz = [x for x in k["variants"][0]["tys"] if (self.prog.ty(x)["lay"] or {}).get("size") != 0]
            if len(nz) == 1:
                return self.arg_ty(nz[0])
        return None

    def _native(self, pk, root):
        mod, l, p, op = self.parse(root)
        tys = self.arg_types(root)
        if any(t is None for t in tys):
            return None
        C = 10 ** (p or 0)
        mk = self.mkargs(root, tys, C)
        return self.runner_path, f"{self.group} {mod} {op}", self.spec(root), mk, self.kind

    def mkargs(self, root, tys, C):
        def mk(rng, n):
            a = gen_args(tys, C, rng, n)
            extra = self.more_args(root, rng, n)
            return a + extra
        return mk

    def more_args(self, root, rng, n):
        return []

    def comparable(self, out):
        def bad(x):
            return x == "?" or isinstance(x, Opq) or (isinstance(x, tuple) and any(bad(y) for y in x))
        return not bad(out)

    def may_never_return(self, root):
        return False

    def extra(self, b):
        return [], {}

    def trusted(self):
        return TRUSTED + list(self.more_trusted)
    more_trusted = ()

    def assumptions(self):
        return list(ASSUMPTIONS) + list(self.more_assumptions)
    more_assumptions = ()


TRUSTED = [
    "rustc nightly front end: the MIR it emits (debug profile, overflow checks on) is what the crate means; code generation is not verified",
    "driver/src/main.rs: serialisation of that MIR",
    "vc/exec.py: operational semantics of MIR statements and integer intrinsics over mathematical integers with explicit wrap-around",
    "z3 (unsat answers)",
]
ASSUMPTIONS = [
    "the bodies of core/alloc functions reached are executed as written in the toolchain's MIR; their unsafe preconditions are taken as satisfied",
    "drop glue is a no-op for the values involved (no type in these paths has a Drop impl with observable effects)",
]


def config(pid, tier):
    g = pid.lower()
    f = CONFIGS.get(pid)
    if f is None:
        raise SystemExit(f"no check for {pid}")
    return f(pid, g, tier)


SMALL = ("i16", "i32", "i64")
CONFIGS = {}
for _p in ("C01", "C02", "C07", "C09", "C10", "C11", "C12", "C13", "C24"):
    CONFIGS[_p] = lambda pid, g, tier: Config(pid, g, tier)
for _p in ("C04", "C05"):
    CONFIGS[_p] = lambda pid, g, tier: Config(pid, g, tier, layouts=SMALL)


class Deps(Config):
    """public operations over contracts of internal functions, each of which is a unit of its own"""
    uses = ()

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.cns = closure(self.uses)
        self.contracts = tuple(CONTRACTS[c].entry() for c in self.uses)
        self.keys, self.names = {}, {}

    def roots(self, pk, prog):
        out = super().roots(pk, prog)
        self.base_roots = set(out)
        for c in self.cns:
            con = CONTRACTS[c]
            if con.trusted:
                continue
            for k, f in prog.fns.items():
                if con.rx.search(f["sname"]) and f["body"] is not None:
                    self.keys[k], self.names[k] = con, f["sname"]
                    out.append(k)
        return out

    def unit_name(self, pk, root):
        if root in self.keys:
            return "fn:" + self.names[root]
        return super().unit_name(pk, root)

    def unit(self, pk, prog, root):
        con = self.keys.get(root)
        if con is None:
            return super().unit(pk, prog, root)
        return con.spec(prog, root), dict(con.kw, contracts=con.entries())

    def weight(self, pk, root):
        return 100 if root in self.keys else super().weight(pk, root)

    def native(self, pk, root):
        return None if root in self.keys else super().native(pk, root)

    def may_never_return(self, root):
        return root in self.keys and self.keys[root].kw.get("never", False)

    def assumptions(self):
        return super().assumptions() + [f"contract of {c} assumed: {CONTRACTS[c].trusted}" for c in self.cns if CONTRACTS[c].trusted]


I256S = ("I256::from", "I256::neg", "I256::add", "I256::sub", "I256::mul", "I256::div", "I256::lt", "I256::le", "I256::gt", "I256::ge", "I256::cmp", "I256::partial_cmp", "I256::eq", "i128::try_from")
for _p in ("C18", "C19"):
    CONFIGS[_p] = lambda pid, g, tier: Deps(pid, g, tier, layouts=("i128",))
Deps.uses = I256S
for _p in ("C03", "C06"):
    CONFIGS[_p] = lambda pid, g, tier: Deps(pid, g, tier)


class Sqrt(Deps):
    """square roots: a second extraction without the standard library (integer starting guess)"""
    uses = I256S + ("I256::sqrt", "i32::sqrt", "i64::sqrt", "i128::sqrt")

    def build(self, b, progs, parallel):
        def dumps():
            d = b.driver()
            return [b.dump(d, "harness", "fxroots", self.group, f"{B.LAYOUTS},{self.group}" + f, tag=t) for f, t in ((",std", "std"), ("", "nostd"))]

        def run():
            return b.runner("harness", f"{self.features},{self.group}")

        def run2():
            return b.runner("harness", f"{B.LAYOUTS},{self.group}", name="nostd")
        d, r, r2 = parallel([dumps, run, run2])
        progs["main"] = self.prog = Prog(d[0])
        progs["nostd"] = Prog(d[1])
        self.runners = {"main": r, "nostd": r2}

    def unit_name(self, pk, root):
        return ("" if pk == "main" else "no_std:") + super().unit_name(pk, root)

    def native(self, pk, root):
        if root in self.keys:
            return None
        mod, l, p, op = self.parse(root)
        k = (pk, root)
        if k not in self.natcache:
            n = super()._native(pk, root)
            self.natcache[k] = (self.runners[pk],) + tuple(n[1:])
        return self.natcache[k]

    def more_args(self, root, rng, n):
        """arguments next to perfect squares"""
        mod, l, p, op = self.parse(root)
        lo, hi = lim(l)
        C = 10 ** p
        out = []
        top = isqrt(hi * C)
        for _ in range(n):
            r = rng.choice([top - rng.randint(0, 3), rng.randint(0, top), rng.getrandbits(rng.randint(1, top.bit_length())), (1 << rng.randint(1, top.bit_length())) + rng.randint(-2, 2)])
            x = (r * r + rng.choice([0, r, r + 1])) // C + rng.randint(-1, 1)
            if 0 <= x <= hi:
                out.append([x, rng.choice(MODES)])
        return out


for _p in ("C08", "C20"):
    CONFIGS[_p] = lambda pid, g, tier: Sqrt(pid, g, tier, layouts=SMALL if pid == "C08" else ("i128",))


class Wrappers(Config):
    """operations declared with impl_op!; rounding operations enter as functions of their arguments"""
    native_n = 30
    more_assumptions = ("FixedPoint and integer rmul/rdiv are deterministic functions of their arguments (their values are the subject of C04-C06, C18, C19)",)

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.contracts = ROUNDING_OPS

    def comparable(self, out):
        # the rounding operations are left open, so are the values in a symbolic sample
        return False

    def roots(self, pk, prog):
        """128 bits: a selection of precisions in the quick tier (nothing in the macro depends on the precision)"""
        few = (0, 1, 9, 18, 19, 37, 38)
        return [r for r in super().roots(pk, prog) if re.fullmatch(r"fx::\w+|i\d+::g::\w+", self.parse(r)[3]) and (self.tier == "thorough" or self.parse(r)[1] != "i128" or self.parse(r)[2] in few + (None,))]


CONFIGS["C25"] = lambda pid, g, tier: Wrappers(pid, g, tier)


BAD_TEXT = ["", " ", "-", "+", ".", "-.", "+.", ".5", "-.5", "5.", "-5.", "1..2", "1.2.3", "1e5", "0x1", "1_000", "--1", "+-1", "-+1", "- 1", "1 .5", "1. 5", "1.+5", "1.-5", "1.5-", "1.5 x", "a", "1a", "1.a", "1.5a", "1,5",
            "\u0663", "1.\u0663", "\u00bd", "1\u200b", "\ufeff1", "1\x00", "\x1c1", "NaN", "inf", "\u221e", "1.\u00e9", "\u00e91", "1.00000000000000000000000000000000000000000000000000000\u00e9", "\u22121"]
GOOD_TEXT = ["0", "-0", "+0", "-0.0", "+0.5", "-0.5", "007", "-007.70", "00000000000000000000000000000000000000000000000000000000001.5", "\u20031.5\u00a0", "\t1\r\n", " -1.5 ", "\u00851", "1\u3000"]


def texts(l, p, rng, n):
    """decimal texts: near the limits, near ties, ill-formed"""
    lo, hi = lim(l)
    C = 10 ** p
    out = list(BAD_TEXT) + list(GOOD_TEXT)
    while len(out) < n + len(BAD_TEXT) + len(GOOD_TEXT):
        k = rng.randrange(4)
        raw = abs(rng.choice([lo, hi]) + rng.randint(-2, 2)) if k == 0 else rng.getrandbits(rng.randint(1, hi.bit_length() + (1 if k == 1 else 0))) if k < 3 else rng.randint(0, 3) * C + rng.choice([0, 1, C - 1, C // 2])
        i, f = divmod(raw, C)
        fs = str(f).zfill(p) if p else ""
        k = rng.randrange(6)
        if k == 0:
            fs = fs.rstrip("0")
        elif k == 1:
            fs = fs[:rng.randint(0, p)]
        elif k > 2:
            fs += rng.choice(["0", "4", "5", "49", "50", "51", "499999999999999999999999999999999999999999999999999", "5000000000000000000000000000000000000000000000000001", "9", "99", "00000", "45", "6"])
        s = "0" * rng.choice([0, 0, 0, 1, 45]) + str(i) + ("." + fs if fs else "")
        s = rng.choice(["-", "-", "", "", "+"]) + s
        k = rng.randrange(12)
        if k == 0:
            s = rng.choice([" ", "\n", "\u2003", "\t "]) + s + rng.choice(["", " ", "\u00a0"])
        elif k == 1:
            j = rng.randint(0, len(s))
            s = s[:j] + rng.choice(["x", " ", "-", "+", ".", "\u0663", "e", "\u00e9", "_", "/", ":"]) + s[j:]
        out.append(s)
    return [[s.encode()] for s in out]


class Parsing(Config):
    """text of any length and content, over the assumed contracts of core's string functions"""
    native_n = 120
    more_trusted = TEXT_TRUST

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.contracts = TEXT

    def arg_ty(self, t):
        return (0, 0)

    def mkargs(self, root, tys, C):
        mod, l, p, op = self.parse(root)
        return lambda rng, n: texts(l, p, rng, n)


CONFIGS["C14"] = lambda pid, g, tier: Parsing(pid, g, tier)


BAD_LITERALS = ["1_000", "0x10", "1e5", "1f32", "12a", "1.2.3", "1-", "--1", "1.5_0", "1.0e3", "1.-5", "+-1", "1 "]


class Literals(Deps):
    """const functions behind the literal macros, with 128-bit and with 64-bit arithmetic; the macros themselves on a list of literals"""
    uses = ("const_fn::pow10", "const_fn::find", "const_fn::parse_int")
    native_n = 40
    more_trusted = TEXT_TRUST
    more_assumptions = ("a literal is shorter than 2^31 characters", "BOUNDED, not proved: that fixnum_const! and fixnum! hand over the literal, check that the value fits the layout, and apply .into() is checked on a list of literals only")

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.contracts += TEXT

    def build(self, b, progs, parallel):
        feats = {"main": f"{self.features},{self.group}", "small": f"std,i16,i32,i64,{self.group}"}

        def dumps():
            d = b.driver()
            return {k: b.dump(d, "harness", "fxroots", self.group, f, tag=k) for k, f in feats.items()}
        d, r1, r2 = parallel([dumps, lambda: b.runner("harness", feats["main"]), lambda: b.runner("harness", feats["small"], name="small")])
        for k in feats:
            progs[k] = Prog(d[k])
        self.prog = progs["main"]
        self.runners = {"main": r1, "small": r2}

    def extra(self, b):
        from glue import literal_glue
        return literal_glue(b, self.runners["main"])

    def roots(self, pk, prog):
        self.layouts = ("i128",) if pk == "main" else ("i64",)
        return super().roots(pk, prog)

    def unit_name(self, pk, root):
        return ("" if pk == "main" else "without i128:") + super().unit_name(pk, root)

    def native(self, pk, root):
        if root in self.keys:
            return None
        mod, l, p, op = self.parse(root)
        return self.runners[pk], f"{self.group} {mod} {op}", self.spec(root), self.mkargs(root, [], 10 ** p), self.kind

    def mkargs(self, root, tys, C):
        mod, l, p, op = self.parse(root)

        def mk(rng, n):
            hi = lim(l)[1]
            out = [rng.choice(BAD_LITERALS), "1" + "." + "0" * (p + 1), "0." + "1" * (p + 1), "-1.5" + "0" * p]
            out += ["0", "-0", "007", "+1", "1.", "-1.", "0.0" if p else "00", "-0." + "0" * (p - 1) + "1" if p else "-1"]
            while len(out) < n:
                v = rng.choice([hi - rng.randint(0, 2), rng.getrandbits(rng.randint(1, hi.bit_length())), rng.randint(0, 3) * C + rng.choice([0, 1, C - 1])])
                i, f = divmod(min(v, hi), C)
                fs = str(f).zfill(p) if p else ""
                if rng.random() < .5:
                    fs = fs.rstrip("0")
                out.append(rng.choice(["", "-"]) + str(i) + ("." + fs if fs else ""))
            return [[s.encode()] for s in out]
        return mk


CONFIGS["C21"] = lambda pid, g, tier: Literals(pid, g, tier)


class Printing(Deps):
    """Display and Debug over the contracts of the text buffer, with both buffer sizes; reading back is the contract of from_str"""
    uses = ("StrBuf::default", "StrBuf::push", "StrBuf::push_str", "StrBuf::as_str")
    more_trusted = TEXT_TRUST + fmtc.ITOA_TRUST
    native_n = 80

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.contracts += fmtc.ITOA + fmtc.UNSAFE + TEXT

    def build(self, b, progs, parallel):
        feats = {"main": f"{self.features},c15", "small": "std,i16,i32,i64,c15"}

        def dumps():
            d = b.driver()
            fs = [lambda: b.dump(d, "harness", "fxroots", "c15x", feats["main"], tag="main"), lambda: b.dump(d, "harness", "fxroots", "c15x", feats["small"], tag="small"),
                  lambda: b.dump(d, "harness", "fxroots", "c14", f"{self.features},c14")]
            return [f() for f in fs]
        d, r1, r2 = parallel([dumps, lambda: b.runner("harness", f"{self.features},c15,c14"), lambda: b.runner("harness", feats["small"], name="small")])
        for k, x in zip(("main", "small", "parse"), d):
            progs[k] = Prog(x)
        self.prog = progs["main"]
        self.runners = {"main": r1, "small": r2, "parse": r1}

    def parse(self, root):
        m = root.split("::")
        l, p = m[-3].split("_")
        return m[-3], l, int(p), m[-1]

    def roots(self, pk, prog):
        if pk == "parse":
            return [r for r in prog.roots if r.endswith("::from_str")]
        return super().roots(pk, prog)

    def unit_name(self, pk, root):
        return {"main": "", "small": "without i128:", "parse": ""}[pk] + super().unit_name(pk, root)

    def spec(self, root):
        mod, l, p, op = self.parse(root)
        return SPECS["c14" if op == "from_str" else "c15x"](l, p, op)

    def weight(self, pk, root):
        return 100 if root in self.keys else self.parse(root)[2]

    def native(self, pk, root):
        if root in self.keys:
            return None
        mod, l, p, op = self.parse(root)
        if op == "from_str":
            # natively: printing and reading back
            op = "reparse"
        pk2 = "main" if pk == "parse" else pk
        lo, hi = lim(l)

        def mk(rng, n):
            return gen_args([(lo, hi)], 10 ** p, rng, n)
        return self.runners[pk2], f"c15 {mod} {op}", SPECS["c15"](l, p, op), mk, self.kind


CONFIGS["C15"] = lambda pid, g, tier: Printing(pid, g, tier)


class Serde(Deps):
    """the wire tokens, through a one-token serializer and deserializer; conversions enter as functions of their arguments"""
    uses = ("StrBuf::default", "StrBuf::push", "StrBuf::push_str", "StrBuf::as_str")
    more_trusted = TEXT_TRUST + fmtc.ITOA_TRUST + ("serde's own implementations for integers, f64, Option and &str are executed as written",)
    more_assumptions = ("parsing and conversion from integers and f64, and to f64, are deterministic functions of their arguments (their values are the subject of C13, C14, C16, C17)",
                        "alloc: &str::to_owned, String::from(&str) and String's deref keep the text; comparison of texts is comparison of their bytes",
                        "BOUNDED, not proved: round trips through serde_json and the quick-xml tag form are additionally run on a list of numbers")
    native_n = 24

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.contracts += CONVERSIONS + fmtc.SERDE + fmtc.ITOA + fmtc.UNSAFE + TEXT

    def build(self, b, progs, parallel):
        d, r = parallel([lambda: b.dump(b.driver(), "harness", "fxroots", "c22", f"{self.features},c22"), lambda: b.runner("harness", f"{self.features},c22n")])
        progs["main"] = self.prog = Prog(d)
        self.runner_path = r

    def roots(self, pk, prog):
        return [r for r in super().roots(pk, prog) if not r.endswith("::dispatch")]

    def comparable(self, out):
        def bad(x):
            return isinstance(x, Opq) or x == "?" or (isinstance(x, tuple) and any(bad(y) for y in x))
        return False

    def weight(self, pk, root):
        return 100 if root in self.keys else self.parse(root)[2] + (40 if "str" in root or "human" in root else 0)

    def mkargs(self, root, tys, C):
        mod, l, p, op = self.parse(root)
        lo, hi = lim(l)

        def alts(v):
            fn = self.prog.fns[self.prog.roots[root]]
            tys = [self.prog.ty(t) for t in fn["locals"][1:1 + fn["argc"]]]
            if op == "de_map":
                return [[v, k] for k in (b"$value", b"$text", b"", b"value", b"$value ")]
            import itertools
            return [[v] + list(x) for x in itertools.product(*[[False, True] if t["k"] == "bool" else [("Transient",), ("Borrowed",), ("Owned",)] for t in tys if t["k"] == "bool" or t.get("name", "").endswith("::Hand")])]

        def mk(rng, n):
            k = max(4, n // 2)
            if "_f64" in op or op.startswith("float_") and "_de" in op:
                vs = [("%016x" % x,) for x in floats(l, p, rng, k)]
            elif op in ("de_str", "str_de", "str_opt_de", "de_map", "de_map_empty"):
                vs = [a[0] for a in texts(l, p, rng, k)]
            elif re.search("_[iu](64|128)$", op):
                b = int(op.rsplit("_", 1)[1][1:])
                vs = [a[0] for a in gen_args([(tmin(b, "_i" in op), tmax(b, "_i" in op))], C, rng, k)]
            elif "none" in op:
                return alts(None) and [x[1:] for x in alts(None)]
            else:
                vs = [a[0] for a in gen_args([(lo, hi)], C, rng, k)]
                if "opt" in op:
                    vs = [("Some", v) for v in vs] + [("None",)]
            return [a for v in vs for a in alts(v)]
        return mk

    def arg_types(self, root):
        return []

    def extra(self, b):
        """real formats, on a list of numbers"""
        import random
        from native import Runner
        from specs import printed
        rng = random.Random(1)
        lines, want = [], []
        for mod, l, p in sorted({self.parse(r)[:3] for r in self.base_roots}):
            for a in gen_args([lim(l)], 10 ** p, rng, 40 if self.tier == "quick" else 2000) + [[lim(l)[0]], [lim(l)[1]]]:
                lines += [f"c22n {mod} json {a[0]}", f"c22n {mod} back {a[0]}"]
                want += ["0x" + f'"{printed(a[0], p)}"'.encode().hex(), "0"]
        got = Runner(self.runner_path).run(lines)
        viol = [("native", None, {"root": ln.split(" ")[2], "line": ln, "args": [ln.split(" ")[3]], "got": g, "failed": ["real formats: " + ("text" if w != "0" else "round trips (bit mask of the failed ones)")]})
                for ln, w, g in zip(lines, want, got) if w != g and g != "skipped"]
        return viol[:5], {"bounded_real_formats": {"runs": len(lines), "note": "bounded: serde_json and the tag form of quick-xml on these numbers only"}}


def floats(l, p, rng, n):
    import struct
    from fractions import Fraction
    hi = lim(l)[1]
    out = [0, 1 << 63, 1, 1 << 52, 0x7ff << 52, 0xfff << 52, 0x7ff8 << 48, 0x7fefffffffffffff]
    while len(out) < n + 8:
        k = rng.randrange(4)
        if k == 0:
            out.append(rng.getrandbits(64))
            continue
        v = rng.choice([hi + rng.randint(-2, 2), rng.getrandbits(rng.randint(1, hi.bit_length())), rng.getrandbits(rng.randint(1, hi.bit_length()))])
        x = float(Fraction(v) / 10 ** p)
        b = struct.unpack(">Q", struct.pack(">d", x))[0] + rng.choice([0, 0, 0, 1, -1])
        out.append(max(b, 0) | (rng.getrandbits(1) << 63))
    return out


CONFIGS["C22"] = lambda pid, g, tier: Serde(pid, g, tier)


def compact(n):
    """the compact form of the SCALE codec"""
    if n < 1 << 6:
        return bytes([n << 2])
    if n < 1 << 14:
        return (n << 2 | 1).to_bytes(2, "little")
    if n < 1 << 30:
        return (n << 2 | 2).to_bytes(4, "little")
    k = max(4, (n.bit_length() + 7) // 8)
    return bytes([(k - 4) << 2 | 3]) + n.to_bytes(k, "little")


class Scale(Config):
    """bytes as sequences; the dependency's compact form of unsigned integers as a function of the integer"""
    more_trusted = TEXT_TRUST
    native_n = 80

    def __init__(self, *a, **k):
        import scale
        super().__init__(*a, **k)
        self.contracts = scale.SCALE + fmtc.UNSAFE + TEXT
        self.more_trusted = scale.SCALE_TRUST

    def roots(self, pk, prog):
        return [r for r in super().roots(pk, prog) if not r.endswith("::dispatch")]

    def arg_types(self, root):
        return []

    def mkargs(self, root, tys, C):
        mod, l, p, op = self.parse(root)
        n = int(l[1:])

        def mk(rng, k):
            xs = [a[0] for a in gen_args([(0, (1 << n) - 1)], C, rng, k)]
            if op == "decode_from":
                return [[x] for x in xs]
            if op == "decode":
                return [[rng.randbytes(rng.randint(0, n // 8 + 3))] for _ in range(k)] + [[x.to_bytes(n // 8, "little") + rng.randbytes(rng.choice([0, 1]))] for x in xs]
            if op == "decode_compact":
                out = [compact(x) + rng.randbytes(rng.choice([0, 2])) for x in xs]
                return [[b] for b in out] + [[b[:rng.randint(0, len(b))]] for b in out[:k // 4]] + [[rng.randbytes(rng.randint(0, 20))] for _ in range(k // 2)]
            return gen_args([lim(l)], C, rng, k)
        return mk


CONFIGS["C23"] = lambda pid, g, tier: Scale(pid, g, tier)


class Floats(Config):
    kind = "f64"

    def __init__(self, *a, **k):
        import floats
        super().__init__(*a, **k)
        self.contracts = floats.FLOATS

    more_trusted = ("f64 arithmetic is IEEE 754 with rounding to nearest: a finite value is an integer multiple of 2^-1074; conversions of integers, sums, products and quotients are rounded monotonically with a relative error of at most 2^-53 above the subnormal range, and are exact for integers up to 2^53 and sums with zero",)
    native_n = 300


CONFIGS["C17"] = lambda pid, g, tier: Floats(pid, g, tier)


class FromFloats(Config):
    native_n = 300
    split_parts = False
    unit_limit = 500
    more_trusted = ("bit representation of f64: sign, 11 bits of exponent, 52 bits of significand (IEEE 754)",)

    def __init__(self, *a, **k):
        import tofix
        super().__init__(*a, **k)
        self.contracts = tofix.CORE
        self.kw = {"cuts": tofix.CUTS, "geo": True, "f64bits": True}

    def roots(self, pk, prog):
        return [r for r in super().roots(pk, prog) if r.endswith("::from_f64")]

    def _native(self, pk, root):
        """both signs of the same magnitude"""
        mod, l, p, op = self.parse(root)

        def mk(rng, n):
            out = floats(l, p, rng, n)
            for _ in range(n):
                q = rng.randint(0, p)
                d = rng.getrandbits(rng.randint(1, 49)) % 10 ** 15
                x = float(f"{d}e-{q}")
                out.append(struct.unpack(">Q", struct.pack(">d", x))[0] | rng.getrandbits(1) << 63)
            return [[("%016x" % x,)] for x in out]
        return self.runner_path, f"{self.group} {mod} both", self.spec(root), mk, self.kind

    def comparable(self, out):
        return False


CONFIGS["C16"] = lambda pid, g, tier: FromFloats(pid, g, tier)
