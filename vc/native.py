"""The real code, run natively: argument formatting, outcome parsing, directed inputs."""
import random
import subprocess

from terms import *
from unit import Out, ConS


def fmt(x):
    if isinstance(x, tuple):
        if x[0] == "Some":
            return fmt(x[1])
        return x[0] if len(x) == 1 else " ".join(fmt(y) for y in x)
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, bytes):
        return "0x" + x.hex()
    return str(x)


def parse_tokens(w, kind=None):
    """one value from the token list"""
    t = w.pop(0)
    if t in ("Ok", "Some"):
        return (t, parse_tokens(w, kind))
    if t == "Err":
        return ("Err", (w.pop(0),))
    if t == "None":
        return ("None",)
    if t == "()":
        return ()
    if t.startswith("0x"):
        return bytes.fromhex(t[2:])
    if kind == "f64":
        return ("f64", int(t, 16))
    if t.lstrip("-").isdigit():
        return K(int(t))
    return (t,)


def parse_out(line, kind=None):
    if line.startswith("panic"):
        return Out("panic", None, line[6:])
    w = line.split(" ")
    vs = []
    while w:
        vs.append(parse_tokens(w, kind))
    return Out("ret", vs[0] if len(vs) == 1 else tuple(vs))


def lift(x):
    """python value -> spec vocabulary"""
    if isinstance(x, bool):
        return T if x else FF
    if isinstance(x, int):
        return K(x)
    if isinstance(x, tuple) and x and not isinstance(x[0], str):
        return tuple(lift(y) for y in x)
    return x


def evaluate(spec, args, out):
    """failed labels of the contract on an actual execution; None when the precondition does not hold"""
    s = ConS()
    a = [lift(x) for x in args]
    if spec.pre is not None and not spec.pre(s, a).is_true():
        return None
    return [lab for lab, f in spec.post(s, a, out) if not f.is_true()]


class Runner:
    def __init__(self, path):
        self.path = path

    def run(self, lines, timeout=120):
        p = subprocess.run([self.path], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, text=True, timeout=timeout)
        return p.stdout.split("\n")[:len(lines)]


def ints(lo, hi, C, rng, n):
    """interesting values of an integer type, n extra random ones"""
    s = {0, 1, -1, 2, -2, 3, -3, 5, -5, 7, lo, lo + 1, lo + 2, hi, hi - 1, hi - 2, lo // 2, hi // 2, lo // 2 - 1, hi // 2 + 1, lo // 10, hi // 10, lo // 3}
    for b in (C, C * C):
        for k in (1, 2, 3, 5, 9, 10):
            for d in (-1, 0, 1):
                s |= {b * k + d, -b * k + d, b // (2 * k) + d, -(b // (2 * k)) + d, b // k + d}
    p = 1
    while p <= hi:
        s |= {p, p - 1, p + 1, -p, 5 * p, 5 * p - 1, 5 * p + 1, -5 * p}
        p *= 10
    p = 1
    while p <= hi + 1:
        s |= {p, p - 1, p + 1, -p, -p - 1, 1 - p}
        p *= 2
    for lim in (lo, hi):
        for d in (-1, 0, 1):
            s |= {lim // C * C + d, lim // C + d, (lim // C + 1) * C - C // 2 + d}
    out = [x for x in s if lo <= x <= hi]
    bits = hi.bit_length()
    for _ in range(n):
        b = rng.randint(1, bits)
        x = rng.getrandbits(b)
        if rng.random() < .3:
            x = x // C * C + rng.choice([0, 1, -1, C // 2, C // 2 - 1, C // 2 + 1])
        if rng.random() < .5:
            x = -x
        if lo <= x <= hi:
            out.append(x)
    return out


def partner(a, lo, hi, C, rng):
    """a second operand related to the first one"""
    k = rng.randrange(12)
    d = rng.choice([-2, -1, 0, 0, 1, 2])
    lim = rng.choice([lo, hi])
    t = a or 1
    x = [lambda: a + d, lambda: -a + d, lambda: lim // t + d, lambda: lim * C // t + d, lambda: lim - a + d, lambda: a - lim + d, lambda: C * C // t + d,
         lambda: t // 2 + d, lambda: 2 * t + d, lambda: t * 3 // 2 + d, lambda: (lim * C + C // 2) // t + d, lambda: a * C // lim + d][k]()
    return x if lo <= x <= hi else None


MODES = [("Ceil",), ("Floor",), ("Nearest",)]


def gen_args(tys, C, rng, n):
    """n argument lists; tys: list of (lo, hi) for integers, list of alternatives otherwise"""
    vals = [ints(t[0], t[1], C, rng, max(40, n // 8)) if isinstance(t, tuple) else None for t in tys]
    out = []
    ii = [i for i, t in enumerate(tys) if isinstance(t, tuple)]
    ne = [i for i, t in enumerate(tys) if not isinstance(t, tuple)]
    if len(ii) == 1:
        i = ii[0]
        import itertools
        alts = list(itertools.product(*[tys[j] for j in ne]))
        vs = list(dict.fromkeys(vals[i]))
        if len(vs) * len(alts) > n:
            vs = rng.sample(vs, max(1, n // len(alts)))
        for v in vs:
            for al in alts:
                a = [None] * len(tys)
                a[i] = v
                for j, x in zip(ne, al):
                    a[j] = x
                out.append(a)
        return out
    while len(out) < n:
        a = [rng.choice(vals[i]) if vals[i] is not None else rng.choice(tys[i]) for i in range(len(tys))]
        if len(ii) >= 2 and rng.random() < .5:
            x = partner(a[ii[0]], tys[ii[1]][0], tys[ii[1]][1], C, rng)
            if x is not None:
                a[ii[1]] = x
        out.append(a)
        if not ii:
            break
    return out
