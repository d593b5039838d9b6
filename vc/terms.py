"""Integer polynomials and first-order formulas over them.

A polynomial is a dict {monomial: coefficient}; a monomial is a sorted tuple of variable ids (with
repetition), the empty tuple is the constant term.  Everything is mathematical integers.
"""


class P:
    __slots__ = ("d", "_h")

    def __init__(self, d):
        self.d = d
        self._h = None

    def is_const(self):
        d = self.d
        return not d or (len(d) == 1 and () in d)

    def const(self):
        return self.d.get((), 0)

    def __add__(self, o):
        if type(o) is int:
            if o == 0:
                return self
            d = dict(self.d)
            c = d.get((), 0) + o
            if c:
                d[()] = c
            else:
                d.pop((), None)
            return P(d)
        a, b = self.d, o.d
        if len(a) < len(b):
            a, b = b, a
        d = dict(a)
        for m, c in b.items():
            n = d.get(m, 0) + c
            if n:
                d[m] = n
            else:
                del d[m]
        return P(d)

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        if type(o) is int:
            return self + (-o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if type(o) is int:
            if o == 0:
                return ZERO
            if o == 1:
                return self
            return P({m: c * o for m, c in self.d.items()})
        a, b = self.d, o.d
        if len(b) == 1 and () in b:
            return self * b[()]
        if len(a) == 1 and () in a:
            return o * a[()]
        d = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = tuple(sorted(m1 + m2))
                n = d.get(m, 0) + c1 * c2
                if n:
                    d[m] = n
                else:
                    d.pop(m, None)
        return P(d)

    __rmul__ = __mul__

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.d.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and self.d == o.d

    def __hash__(self):
        return hash(self.key())

    def vars(self):
        s = set()
        for m in self.d:
            s.update(m)
        return s

    def single_var(self):
        """id if the polynomial is exactly one variable, else None"""
        if len(self.d) == 1:
            (m, c), = self.d.items()
            if c == 1 and len(m) == 1:
                return m[0]
        return None

    def __repr__(self):
        if not self.d:
            return "0"
        return " + ".join((str(c) if not m else (("" if c == 1 else f"{c}*") + "*".join(f"v{i}" for i in m))) for m, c in sorted(self.d.items()))


ZERO = P({})
ONE = P({(): 1})


def K(n):
    return P({(): n}) if n else ZERO


def V(i):
    return P({(i,): 1})


def asP(x):
    return x if isinstance(x, P) else K(x)


class F:
    """formula: op in t,f,ge(p>=0),eq(p==0),ne,and,or"""
    __slots__ = ("op", "a", "z", "k")

    def __init__(self, op, a=None):
        self.op = op
        self.a = a
        self.z = None
        self.k = None

    def key(self):
        if self.k is None:
            if self.op in ("and", "or"):
                self.k = (self.op, tuple(x.key() for x in self.a))
            elif self.op in ("eq", "ne"):
                k1, k2 = self.a.key(), (-self.a).key()
                self.k = (self.op, min(k1, k2))
            elif self.op == "ge":
                self.k = ("ge", self.a.key())
            else:
                self.k = (self.op,)
        return self.k

    def __repr__(self):
        if self.op in ("t", "f"):
            return {"t": "true", "f": "false"}[self.op]
        if self.op in ("and", "or"):
            return "(" + (" /\\ " if self.op == "and" else " \\/ ").join(map(repr, self.a)) + ")"
        return f"({self.a!r} {({'ge': '>=', 'eq': '==', 'ne': '!='})[self.op]} 0)"

    def is_true(self):
        return self.op == "t"

    def is_false(self):
        return self.op == "f"


T = F("t")
FF = F("f")


def ge0(p):
    if p.is_const():
        return T if p.const() >= 0 else FF
    return F("ge", p)


def ge(a, b):
    return ge0(asP(a) - asP(b))


def le(a, b):
    return ge(b, a)


def gt(a, b):
    return ge0(asP(a) - asP(b) - 1)


def lt(a, b):
    return gt(b, a)


def eq(a, b):
    p = asP(a) - asP(b)
    if p.is_const():
        return T if p.const() == 0 else FF
    return F("eq", p)


def ne(a, b):
    p = asP(a) - asP(b)
    if p.is_const():
        return FF if p.const() == 0 else T
    return F("ne", p)


def And(*fs):
    out = []
    for f in fs:
        if f.op == "f":
            return FF
        if f.op == "t":
            continue
        if f.op == "and":
            out.extend(f.a)
        else:
            out.append(f)
    if not out:
        return T
    if len(out) == 1:
        return out[0]
    return F("and", tuple(out))


def Or(*fs):
    out = []
    for f in fs:
        if f.op == "t":
            return T
        if f.op == "f":
            continue
        if f.op == "or":
            out.extend(f.a)
        else:
            out.append(f)
    if not out:
        return FF
    if len(out) == 1:
        return out[0]
    return F("or", tuple(out))


def Not(f):
    o = f.op
    if o == "t":
        return FF
    if o == "f":
        return T
    if o == "ge":
        return ge0(-f.a - 1)
    if o == "eq":
        return F("ne", f.a)
    if o == "ne":
        return F("eq", f.a)
    if o == "and":
        return Or(*[Not(x) for x in f.a])
    return And(*[Not(x) for x in f.a])


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return And(Implies(a, b), Implies(b, a))


def formula_polys(f, out):
    if f.op in ("and", "or"):
        for x in f.a:
            formula_polys(x, out)
    elif f.op in ("ge", "eq", "ne"):
        out.append(f.a)
    return out


def eval_poly(p, env):
    s = 0
    for m, c in p.d.items():
        t = c
        for v in m:
            t *= env[v]
        s += t
    return s


def eval_formula(f, env):
    o = f.op
    if o == "t":
        return True
    if o == "f":
        return False
    if o == "and":
        return all(eval_formula(x, env) for x in f.a)
    if o == "or":
        return any(eval_formula(x, env) for x in f.a)
    v = eval_poly(f.a, env)
    return v >= 0 if o == "ge" else (v == 0 if o == "eq" else v != 0)
