"""Bounded part of C21: the literal macros themselves, compiled and run on a list of literals."""
import glob
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

from build import rust_env, STABLE
from specs import lim


def exact(t):
    return Fraction(t.rstrip(".") if t.endswith(".") else t)


def lists():
    ok, bad = [], []
    for l, ps in (("i16", (0, 1, 2, 4)), ("i32", (0, 2, 9)), ("i64", (0, 2, 9, 18)), ("i128", (0, 9, 18, 19, 25, 38))):
        lo, hi = lim(l)
        for p in ps:
            C = 10 ** p

            def txt(v):
                i, f = divmod(abs(v), C)
                return ("-" if v < 0 else "") + str(i) + (("." + str(f).zfill(p)) if p else "")
            for v in (0, 1, -1, C, -C, C + 1, 12 * C // 10, hi, hi - 1, -hi, lo if l != "i128" else -hi + 1):
                if lo <= v <= hi:
                    ok.append((l, p, txt(v)))
            if p:
                ok += [(l, p, x) for x in ("0.0", "-0.5", "1.", "1.5", "-1.5") if lo <= exact(x) * C <= hi]
            ok += [(l, p, x) for x in ("0", "1", "-1") if lo <= int(x) * C <= hi]
            bad += [(l, p, "0." + "0" * p + "1")]
            if l != "i128":
                bad += [(l, p, txt(hi + 1)), (l, p, txt(lo - 1)), (l, p, txt(1 << {"i16": 16, "i32": 32, "i64": 64}[l]))]
    bad += [("i64", 9, x) for x in ("1_000", "0x10", "1e5", "1.5e3", "1f64", "1u8", "'1'", '"1"', "b'1'", "true", "-1_0.5", "0b1", "1.5_0", "10000000000")]
    bad += [("i128", 38, "2"), ("i128", 38, "-2.5")]
    return list(dict.fromkeys(ok)), list(dict.fromkeys(bad))


def literal_glue(b, runner):
    deps = os.path.join(os.path.dirname(runner), "deps")
    ext = {n: sorted(glob.glob(os.path.join(deps, f"lib{n}-*.rlib")))[-1] for n in ("fixnum", "typenum")}
    w = os.path.join(b.dir, "literals")
    os.makedirs(w, exist_ok=True)
    env = rust_env(STABLE)

    def compile(name, src):
        f = os.path.join(w, name + ".rs")
        open(f, "w").write(src)
        try:
            p = subprocess.run(["rustc", "--edition", "2021", "-Awarnings", "-L", "dependency=" + deps, "--extern", "fixnum=" + ext["fixnum"], "--extern", "typenum=" + ext["typenum"],
                                "-C", "debuginfo=0", "-o", os.path.join(w, name), f], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            return 1, "timeout"
        return p.returncode, p.stdout

    def prog(items):
        out = ["use fixnum::*; pub struct W<T>(pub T); impl<T> From<T> for W<T> { fn from(x: T) -> W<T> { W(x) } }"]
        for i, (l, p, t) in enumerate(items):
            out.append(f"fn f{i}() {{ type F = FixedPoint<{l}, typenum::U{p}>; const A: F = fixnum_const!({t}, {p}); let b: F = fixnum!({t}, {p}); let c: W<F> = fixnum!({t}, {p}); println!(\"{{}} {{}} {{}}\", A.as_bits(), b.as_bits(), c.0.as_bits()); }}")
        out.append("fn main() { " + " ".join(f"f{i}();" for i in range(len(items))) + " }")
        return "\n".join(out)

    ok, bad = lists()
    viol = []

    def fail(it, got, what):
        l, p, t = it
        viol.append(("native", None, {"root": "fixnum_const!", "line": f"fixnum_const!({t}, {p}) as FixedPoint<{l}, U{p}>", "args": [t, p, l], "got": got, "failed": [what]}))

    def check(items, name):
        rc, o = compile(name, prog(items))
        if rc:
            return None, o
        return subprocess.run([os.path.join(w, name)], stdout=subprocess.PIPE, text=True, timeout=60).stdout.splitlines(), ""
    with ThreadPoolExecutor(8) as tp:
        rej = [tp.submit(compile, f"bad{i}", prog([it])) for i, it in enumerate(bad)]
        out, err = check(ok, "accepted")
        if out is None:
            singles = list(tp.map(lambda x: check([x[1]], f"ok{x[0]}"), enumerate(ok)))
            out = [s[0][0] if s[0] else "compile error: " + s[1][-400:] for s in singles]
        for it, o in zip(ok, out):
            v = exact(it[2]) * 10 ** it[1]
            if o.split() != [str(int(v))] * 3:
                fail(it, o, "accepted-literal-denotes-its-value")
        for it, r in zip(bad, rej):
            rc, o = r.result()
            if rc == 0:
                fail(it, "compiles", "literal-rejected-at-compile-time")
    return viol, {"bounded_macro_literals": {"accepted": len(ok), "rejected": len(bad), "note": "bounded: the macro bodies are exercised on this list only"}}
