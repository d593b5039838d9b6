"""Path state: facts, interval knowledge about linear forms, z3 queries."""
import time
from math import gcd

import z3

from terms import *

z3.set_param("memory_max_size", 6000)


DEBUG = False


class Unsupported(Exception):
    pass


class Fork(Exception):
    def __init__(self, conds):
        self.conds = conds


def put(s, fs):
    """Solver.add without its checks"""
    c, r = s.ctx.ref(), s.solver
    for f in fs:
        z3.Z3_solver_assert(c, r, f.as_ast())


CACHE = {}  # (formulas, ranges) -> answer: the key is the whole query


class Stats:
    def __init__(self):
        self.q = {}
        self.t = {}

    def add(self, k, dt):
        self.q[k] = self.q.get(k, 0) + 1
        self.t[k] = self.t.get(k, 0.0) + dt


class Vars:
    """global variable table of one verification unit"""

    def __init__(self):
        self.name = []
        self.lo = []
        self.hi = []
        self.zc = {}
        self.zb = {}

    def new(self, name, lo, hi):
        i = len(self.name)
        self.name.append(name)
        self.lo.append(lo)
        self.hi.append(hi)
        return i

    def zmono(self, m):
        z = self.zc.get(m)
        if z is None:
            z = z3.Int("*".join(f"{self.name[i]}!{i}" for i in m))
            self.zc[m] = z
        return z

    def zbounds(self, m, lo, hi):
        k = (m, lo, hi)
        r = self.zb.get(k)
        if r is None:
            z = self.zmono(m)
            r = self.zb[k] = [z >= lo, z <= hi]
        return r

    def zpoly(self, p, nia=False):
        ts = []
        for m, c in p.d.items():
            if not m:
                ts.append(z3.IntVal(c))
                continue
            if nia and len(m) > 1:
                x = self.zmono((m[0],))
                for v in m[1:]:
                    x = x * self.zmono((v,))
            else:
                x = self.zmono(m)
            ts.append(x if c == 1 else z3.IntVal(c) * x)
        if not ts:
            return z3.IntVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def zform(self, f, nia=False):
        if not nia and f.z is not None:
            return f.z
        o = f.op
        if o == "t":
            r = z3.BoolVal(True)
        elif o == "f":
            r = z3.BoolVal(False)
        elif o == "and":
            r = z3.And([self.zform(x, nia) for x in f.a])
        elif o == "or":
            r = z3.Or([self.zform(x, nia) for x in f.a])
        else:
            p = self.zpoly(f.a, nia)
            r = p >= 0 if o == "ge" else (p == 0 if o == "eq" else p != 0)
        if not nia:
            f.z = r
        return r


def form_of(p):
    """(key, scale, const): p = scale * form + const with a primitive, sign-normalised form"""
    items = sorted((m, c) for m, c in p.d.items() if m)
    g = 0
    for _, c in items:
        g = gcd(g, c)
    if items[0][1] < 0:
        g = -g
    return tuple((m, c // g) for m, c in items), g, p.d.get((), 0)


class St:
    __slots__ = ("cx", "facts", "fb", "mem", "frames", "divs", "wraps", "ghost", "steps", "trail", "flags", "known")

    def __init__(self, cx):
        self.cx = cx
        self.facts = []
        self.fb = {}
        self.mem = {}
        self.frames = []
        self.divs = {}
        self.wraps = {}
        self.flags = {}
        self.ghost = {}
        self.steps = 0
        self.trail = ()
        self.known = {}

    def copy(self):
        s = St.__new__(St)
        s.cx = self.cx
        s.facts = list(self.facts)
        s.fb = dict(self.fb)
        s.mem = dict(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.divs = dict(self.divs)
        s.wraps = dict(self.wraps)
        s.flags = dict(self.flags)
        s.ghost = dict(self.ghost)
        s.steps = self.steps
        s.trail = self.trail
        s.known = dict(self.known)
        return s

    # ---- intervals
    def mono_range(self, m):
        b = self.fb.get(((m, 1),))
        vs = self.cx.vars
        if len(m) == 1:
            lo, hi = vs.lo[m[0]], vs.hi[m[0]]
        else:
            # even powers of a single variable are non-negative
            i = 0
            lo = hi = 1
            while i < len(m):
                j = i
                while j < len(m) and m[j] == m[i]:
                    j += 1
                a, c = self.mono_range((m[i],))
                n = j - i
                if a >= 0:
                    pl, ph = a ** n, c ** n
                elif n % 2 == 0:
                    pl, ph = (0 if a <= 0 <= c else min(a ** n, c ** n)), max(a ** n, c ** n)
                else:
                    pl, ph = a ** n, c ** n
                x = (lo * pl, lo * ph, hi * pl, hi * ph)
                lo, hi = min(x), max(x)
                i = j
        if b:
            if b[0] is not None and b[0] > lo:
                lo = b[0]
            if b[1] is not None and b[1] < hi:
                hi = b[1]
        return lo, hi

    def range(self, p):
        d = p.d
        if p.is_const():
            c = p.const()
            return c, c
        lo = hi = d.get((), 0)
        n = 0
        for m, c in d.items():
            if not m:
                continue
            n += 1
            a, b = self.mono_range(m)
            if c > 0:
                lo += c * a
                hi += c * b
            else:
                lo += c * b
                hi += c * a
        if n > 1:
            k, g, c0 = form_of(p)
            b = self.fb.get(k)
            if b:
                a0, b0 = b
                if g < 0:
                    a0, b0 = b0, a0
                if a0 is not None and c0 + g * a0 > lo:
                    lo = c0 + g * a0
                if b0 is not None and c0 + g * b0 < hi:
                    hi = c0 + g * b0
        return lo, hi

    def _tight(self, k, lo, hi):
        o = self.fb.get(k, (None, None))
        nl = o[0] if lo is None or (o[0] is not None and o[0] >= lo) else lo
        nh = o[1] if hi is None or (o[1] is not None and o[1] <= hi) else hi
        if (nl, nh) != o:
            self.fb[k] = (nl, nh)
            return True
        return False

    def _learn_ge(self, p):
        """p >= 0"""
        if p.is_const():
            return
        k, g, c = form_of(p)
        # g*form + c >= 0
        if g > 0:
            ch = self._tight(k, -(c // g), None)
        else:
            ch = self._tight(k, None, c // (-g))
        if len(k) > 1 and len(k) <= 6:
            # propagate to the single monomials
            rs = [(m, cf, self.mono_range(m)) for m, cf in p.d.items() if m]
            tot = c + sum((cf * r[1] if cf > 0 else cf * r[0]) for m, cf, r in rs)
            for m, cf, r in rs:
                rest = tot - (cf * r[1] if cf > 0 else cf * r[0])
                # cf*m >= -rest
                if cf > 0:
                    self._tight(((m, 1),), -(rest // cf), None)
                else:
                    self._tight(((m, 1),), None, rest // (-cf))

    def learn(self, f):
        if f.op == "ge":
            self._learn_ge(f.a)
        elif f.op == "eq":
            self._learn_ge(f.a)
            self._learn_ge(-f.a)
        elif f.op == "and":
            for x in f.a:
                self.learn(x)
        elif f.op == "ne":
            lo, hi = self.range(f.a)
            if lo == 0:
                self._learn_ge(f.a - 1)
            elif hi == 0:
                self._learn_ge(-f.a - 1)
        elif f.op == "or":
            alive = [x for x in f.a if self.decide(x) is not False]
            if len(alive) == 1:
                self.learn(alive[0])

    def assume(self, f):
        if f.op == "t":
            return
        self.facts.append(f)
        for x in f.a if f.op == "and" else (f,):
            self.known[x.key()] = True
            self.known[Not(x).key()] = False
        if f.op == "and":
            self.known[f.key()] = True
        self.learn(f)
        if f.op in ("ge", "eq", "and") and len(self.facts) < 80:
            # one more pass over older multi-monomial facts
            for x in self.facts:
                self.learn(x)

    def decide(self, f):
        """True / False / None by intervals only"""
        o = f.op
        if o == "t":
            return True
        if o == "f":
            return False
        kn = self.known.get(f.key())
        if kn is not None:
            return kn
        if o == "and":
            r = True
            for x in f.a:
                d = self.decide(x)
                if d is False:
                    return False
                if d is None:
                    r = None
            return r
        if o == "or":
            r = False
            for x in f.a:
                d = self.decide(x)
                if d is True:
                    return True
                if d is None:
                    r = None
            return r
        lo, hi = self.range(f.a)
        if o == "ge":
            return True if lo >= 0 else (False if hi < 0 else None)
        if lo > 0 or hi < 0:
            return o == "ne"
        if lo == hi == 0:
            return o == "eq"
        return None

    def norm(self, p):
        """replace variables known to be constant"""
        if not self.fb or p.is_const():
            return p
        ch = None
        for m in p.d:
            for v in m:
                b = self.fb.get((((v,), 1),))
                if b and b[0] is not None and b[0] == b[1]:
                    if ch is None:
                        ch = {}
                    ch[v] = b[0]
        if not ch:
            return p
        d = {}
        for m, c in p.d.items():
            nm = []
            for v in m:
                if v in ch:
                    c *= ch[v]
                else:
                    nm.append(v)
            nm = tuple(nm)
            n = d.get(nm, 0) + c
            if n:
                d[nm] = n
            else:
                d.pop(nm, None)
        return P(d)

    # ---- queries
    def _relevant(self, goal_fs):
        facts = self.facts
        if len(facts) <= 12:
            return facts
        vs = set()
        for g in goal_fs:
            for p in formula_polys(g, []):
                vs |= p.vars()
        if not vs:
            return facts
        fv = []
        for f in facts:
            s = set()
            for p in formula_polys(f, []):
                s |= p.vars()
            fv.append(s)
        used = [False] * len(facts)
        ch = True
        while ch:
            ch = False
            for i, s in enumerate(fv):
                if not used[i] and s & vs:
                    used[i] = True
                    if not s <= vs:
                        vs |= s
                    ch = True
        return [f for i, f in enumerate(facts) if used[i]]

    def _query(self, fs):
        """the whole level-1 query - formulas and ranges - with variables numbered by first occurrence"""
        ren, out, ms = {}, [], {}

        def walk(f):
            if f.op in ("and", "or"):
                return (f.op, tuple([walk(g) for g in f.a]))
            if f.op in ("t", "f"):
                return f.op
            q = []
            for m, c in f.a.d.items():
                r = ms.get(m)
                if r is None:
                    for v in m:
                        if v not in ren:
                            ren[v] = len(ren)
                    r = ms[m] = tuple([ren[v] for v in m])
                q.append((r, c))
            return (f.op, tuple(q))
        out = tuple([walk(f) for f in fs])
        rng = [(r,) + self.mono_range(m) for m, r in ms.items() if m]
        rng += [((ren[v],),) + self.mono_range((v,)) for v in ren if (v,) not in ms]
        return out, tuple(rng)

    def _monos(self, fs):
        ms = set()
        for f in fs:
            for p in formula_polys(f, []):
                ms.update(m for m in p.d if m)
        return ms

    def _bounds_z(self, ms):
        out = []
        vs = self.cx.vars
        todo = set(ms)
        for m in ms:
            if len(m) > 1:
                for v in m:
                    todo.add((v,))
        for m in todo:
            out += vs.zbounds(m, *self.mono_range(m))
        return out

    def _mccormick(self, ms):
        out = []
        vs = self.cx.vars
        todo = list(ms)
        seen = set()
        while todo:
            m = todo.pop()
            if len(m) < 2 or m in seen:
                continue
            seen.add(m)
            for v in sorted(set(m)):
                r = list(m)
                r.remove(v)
                r = tuple(r)
                if len(r) > 1:
                    todo.append(r)
                xl, xh = self.mono_range((v,))
                yl, yh = self.mono_range(r)
                zm, zx, zy = vs.zmono(m), vs.zmono((v,)), vs.zmono(r)
                # (x-xl)(y-yl)>=0 ...
                out.append(zm - yl * zx - xl * zy + xl * yl >= 0)
                out.append(zm - yh * zx - xh * zy + xh * yh >= 0)
                out.append(-zm + yh * zx + xl * zy - xl * yh >= 0)
                out.append(-zm + yl * zx + xh * zy - xh * yl >= 0)
                for mm in ((v,), r):
                    lo, hi = self.mono_range(mm)
                    z = vs.zmono(mm)
                    out.append(z >= lo)
                    out.append(z <= hi)
                if len(m) == 2:
                    break
        return out

    def sat(self, fs, level=1, timeout=3000, want_model=False):
        """satisfiability of facts /\\ fs.  level 1: monomials opaque; 2: + McCormick; 3: real products"""
        cx = self.cx
        t0 = time.time()
        rel = self._relevant(fs)
        allf = rel + list(fs)
        ms = self._monos(allf)
        nonlin = [m for m in ms if len(m) > 1]
        if level == 3 and not nonlin:
            level = 1
        key = None
        if level == 1 and not want_model:
            # the same question, up to the names of variables, is asked once per worker
            key = self._query(allf)
            if key in CACHE:
                cx.stats.add("repeated", time.time() - t0)
                return CACHE[key], None
        nia = level == 3
        # small questions are answered faster without preprocessing
        quick = 1000 if level == 3 else 400
        quick = min(quick, timeout)
        s = z3.SimpleSolver()
        s.set("timeout", quick)
        put(s, [cx.vars.zform(f, nia) for f in allf])
        put(s, self._bounds_z(ms))
        if level >= 2 and nonlin:
            s.add(*self._mccormick(nonlin))
        if nia:
            vs = cx.vars
            seen = set()
            for m in nonlin:
                x = vs.zmono((m[0],))
                for v in m[1:]:
                    x = x * vs.zmono((v,))
                s.add(vs.zmono(m) == x)
        r = s.check()
        if timeout > quick and r == z3.unknown:
            s2 = z3.Solver()
            s2.set("timeout", timeout)
            s2.add(s.assertions())
            s = s2
            r = s.check()
        cx.stats.add(f"z3-L{level}", time.time() - t0)
        if key is not None and r != z3.unknown:
            CACHE[key] = "unsat" if r == z3.unsat else "sat"
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat:
            if want_model:
                m = s.model()
                env = {}
                for i in (range(len(cx.vars.name)) if want_model == "all" else cx.inputs):
                    x = m[cx.vars.zmono((i,))]
                    if x is None:
                        lo, hi = self.mono_range((i,))
                        env[i] = max(lo, min(0, hi))
                    else:
                        env[i] = x.as_long()
                return "sat", env
            return "sat", None
        return "unknown", None

    def feasible(self, f, level=1):
        d = self.decide(f)
        if d is not None:
            if d is True and f.op == "t":
                return True
            if d is False:
                return False
            if d is True:
                return True
        r, _ = self.sat([f], level, timeout=self.cx.feas_timeout)
        return r != "unsat"

    def _convex(self, fs):
        """the conjunctive part of the facts as polynomials >= 0"""
        out = []
        for f in fs:
            if f.op == "ge":
                out.append(f.a)
            elif f.op == "eq":
                out.append(f.a)
                out.append(-f.a)
            elif f.op == "and":
                out += self._convex(f.a)
        return out

    def refute_lp(self, ng, rounds=3, budget=20.0):
        """facts /\\ ng is empty by linear real arithmetic over monomials: McCormick envelopes, products of short
        constraints with variable bounds, and bounds tightened by optimisation"""
        cx, vs = self.cx, self.cx.vars
        t0 = time.time()
        cons = self._convex(self._relevant([ng]) + [ng])
        ms = set(m for p in cons for m in p.d if m)
        for p in cons:
            if p.is_const() and p.const() < 0:
                return True
        for m in list(ms):
            if len(m) > 2:
                for v in set(m):
                    r = list(m)
                    r.remove(v)
                    ms.add(tuple(r))
            for v in m:
                ms.add((v,))
        bd = {m: list(self.mono_range(m)) for m in ms}
        nonlin = [m for m in ms if len(m) > 1]
        nv = sorted({v for m in nonlin for v in m})
        zv = {m: z3.Real("m" + "_".join(map(str, m))) for m in ms}

        def zp(p):
            return z3.Sum([z3.RealVal(c) * zv[m] if m else z3.RealVal(c) for m, c in p.d.items()]) if p.d else z3.RealVal(0)

        def build():
            out = [p for p in cons]
            for m in ms:
                lo, hi = bd[m]
                out.append(P({m: 1}) - lo)
                out.append(K(hi) - P({m: 1}))
            for m in nonlin:
                for v in sorted(set(m)):
                    r = list(m)
                    r.remove(v)
                    r = tuple(r)
                    if r not in bd:
                        continue
                    (xl, xh), (yl, yh) = bd[(v,)], bd[r]
                    x, y = V(v), P({r: 1})
                    out.append((x - xl) * (y - yl))
                    out.append((K(xh) - x) * (K(yh) - y))
                    out.append((K(xh) - x) * (y - yl))
                    out.append((x - xl) * (K(yh) - y))
            for p in cons:
                if len(p.d) > 5:
                    continue
                for v in nv:
                    q = p * V(v)
                    if all(m in ms for m in q.d if m):
                        out.append(p * (V(v) - bd[(v,)][0]))
                        out.append(p * (K(bd[(v,)][1]) - V(v)))
            return out
        try:
            for rnd in range(rounds):
                cs = build()
                zs = []
                for p in cs:
                    if p.is_const():
                        if p.const() < 0:
                            return True
                        continue
                    if any(m and m not in zv for m in p.d):
                        continue
                    zs.append(zp(p) >= 0)
                s = z3.SolverFor("QF_LRA")
                s.set("timeout", 4000)
                s.add(*zs)
                r = s.check()
                if r == z3.unsat:
                    return True
                if r != z3.sat or rnd == rounds - 1 or time.time() - t0 > budget:
                    return False
                ch = False
                cand = [(v,) for v in nv if sum(v in m for m in nonlin) > 1]
                for m in cand:
                    if time.time() - t0 > budget:
                        break
                    lo, hi = bd[m]
                    if lo == hi:
                        continue
                    for mx in (True, False):
                        o = z3.Optimize()
                        o.set("timeout", 2000)
                        o.add(*zs)
                        h = o.maximize(zv[m]) if mx else o.minimize(zv[m])
                        if o.check() != z3.sat:
                            continue
                        b = o.upper(h) if mx else o.lower(h)
                        try:
                            fr = b.as_fraction()
                        except Exception:
                            continue
                        n = fr.numerator // fr.denominator if mx else -((-fr.numerator) // fr.denominator)
                        if mx and n < bd[m][1]:
                            bd[m][1] = n
                            ch = True
                        elif not mx and n > bd[m][0]:
                            bd[m][0] = n
                            ch = True
                        if bd[m][0] > bd[m][1]:
                            return True
                if DEBUG:
                    print("LP", rnd, {m: b for m, b in bd.items() if len(m) == 1}, ng)
                if not ch:
                    return False
            return False
        finally:
            cx.stats.add("z3-LRA+tightening", time.time() - t0)

    def prove(self, goal, deep=True):
        """('proved', method) | ('refuted', env, level) | ('unknown', env)"""
        d = self.decide(goal)
        if d is True:
            return ("proved", "interval")
        if goal.op == "and":
            meth = "interval"
            for g in goal.a:
                r = self.prove(g, deep)
                if r[0] != "proved":
                    return r
                meth = max(meth, r[1])
            return ("proved", meth)
        if goal.op == "eq" and len(self._monos([goal])) > 1 and any(len(m) > 1 for m in self._monos([goal])):
            r = self.prove(And(ge0(goal.a), ge0(-goal.a)), deep)
            return r
        ng = Not(goal)
        cand = None
        r, env = self.sat([ng], 1, self.cx.t1, True)
        if r == "unsat":
            return ("proved", "z3-LIA")
        nonlin = any(len(m) > 1 for m in self._monos(self.facts + [ng]))
        if not nonlin:
            return ("refuted", env, 1) if r == "sat" else ("unknown", None)
        cand = env
        r, env = self.sat([ng], 2, self.cx.t2, True)
        if r == "unsat":
            return ("proved", "z3-LIA+products")
        cand = env or cand
        if deep and self.sat([ng], 3, 300)[0] == "unsat":
            return ("proved", "z3-NIA")
        if self.refute_lp(ng):
            return ("proved", "z3-LRA+tightening")
        if deep:
            r, env = self.sat([ng], 3, self.cx.t3, True)
            if r == "unsat":
                return ("proved", "z3-NIA")
            if r == "sat":
                return ("refuted", env, 3)
        return ("unknown", cand)

    def entails(self, f, level=1):
        d = self.decide(f)
        if d is not None:
            return d
        r, _ = self.sat([Not(f)], level, timeout=self.cx.feas_timeout)
        if r != "unsat" and level >= 2:
            return self.prove(f, False)[0] == "proved"
        return r == "unsat"
