"""Do two element expressions with different normal forms denote different functions?

Normal forms are canonical for polynomials but not for expressions with conditions, absolute values, maxima and
the like.  Before a difference of normal forms is called a violation, both expressions are evaluated under
assignments of their atoms (input elements, extents, applications of unknown functions); when they agree under all
of them the difference is not reported.  This only ever withdraws an alarm.
"""
import hashlib, math, random
from .core import Dim

class Skip(Exception): pass

NUM = {"abs": abs, "absolute": abs, "fabs": abs, "sin": math.sin, "cos": math.cos, "tan": math.tan, "log": math.log, "floor": math.floor, "ceil": math.ceil, "rint": round,
       "round": lambda x: round(x), "rounded": lambda x, d: round(x, int(d)), "trunc": math.trunc, "sign": lambda x: (x > 0) - (x < 0), "sqrt": math.sqrt, "maximum": max, "minimum": min, "fmax": max, "fmin": min,
       "hypot": math.hypot, "log10": math.log10, "log2": math.log2, "log1p": math.log1p, "expm1": math.expm1, "floordiv": lambda a, b: math.floor(a / b), "mod": lambda a, b: a - b * math.floor(a / b),
       "arccos": math.acos, "arcsin": math.asin, "arctan": math.atan, "arctan2": math.atan2, "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh, "copysign": math.copysign,
       "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x), "clip": lambda x, lo, hi: min(max(x, lo), hi), "real": lambda x: x, "conj": lambda x: x}


class Sample:
    def __init__(self, AT, seed, pool):
        self.AT, self.seed, self.mode, self.pool = AT, seed, seed % 5, pool

    def rng(self, key):
        return random.Random(int.from_bytes(hashlib.md5(repr((self.seed, key)).encode()).digest()[:8], "big"))

    def draw(self, key, family):
        r, f = self.rng(key), self.rng(("family", family))
        if self.pool and r.random() < 0.35:
            return r.choice(self.pool) * r.choice((1.0, 1.001, 0.999, 1.7, 3.1, 0.6, -1.0))
        if self.mode == 0: return r.uniform(-2, 2)
        if self.mode == 1: return f.choice((-1, 1)) * 10.0 ** f.uniform(-14, 3) * r.choice((r.uniform(0.2, 2), r.uniform(-2, 2)))
        if self.mode == 2: return r.uniform(0.1, 3)
        if self.mode == 3: return float(r.randint(-2, 3))
        return 0.0 if r.random() < 0.3 else r.uniform(-1, 1)

    def sym(self, s, env):
        if s in env: return env[s]
        if isinstance(s, tuple) and s and s[0] == "val" and isinstance(s[1], tuple) and s[1] and s[1][0] == "poly":
            return int(round(self.key(s[1], env)[0]))
        r = self.rng(("sym", repr(s), tuple(sorted((repr(k), v) for k, v in env.items() if repr(k) in repr(s)))))
        if self.pool and r.random() < 0.2:
            p = [round(x) for x in self.pool if abs(x - round(x)) < 1e-9 and 0 < x < 400]
            if p: return max(0, r.choice(p) + r.choice((-1, 0, 0, 1)))
        return r.randint(1, 5) if self.seed % 3 else r.randint(0, 9)

    def dim(self, d, env):
        t = 0
        for m, c in d.t:
            x = c
            for s in m: x *= self.sym(s, env)
            t += x
        return t

    def plain(self, x, env):
        """data of an atom, with its extents evaluated"""
        if isinstance(x, Dim): return self.dim(x, env)
        if isinstance(x, tuple):
            if x and x[0] == "poly": return ("poly", tuple((tuple((self.plain(self.AT.vals[k], env), e) for k, e in m), c) for m, c in x[1]))
            return tuple(self.plain(y, env) for y in x)
        return x

    def key(self, k, env):
        v = s = 0.0
        for m, c in k[1]:
            t, logs = c, 0.0
            for a, e in m:
                if self.AT.vals[a][0] == "exp":
                    logs += e * self.key(self.AT.vals[a][1], env)[0]
                    continue
                x = self.atom(a, env)
                if e != 1:
                    if x == 0 and e < 0: raise Skip
                    if x < 0 and e != int(e): raise Skip
                    x = x ** e
                t = t * x
            if logs: t = t * math.exp(logs)
            v += t; s += abs(t)
        if isinstance(v, complex) or not math.isfinite(v): raise Skip
        return v, s

    def atom(self, k, env):
        a = self.AT.vals[k]
        try:
            if a[0] == "leaf": return self.draw(self.plain(a, env), a[1])
            if a[0] == "sym": return float(self.sym(a[1], env))
            if a[0] == "ind":
                v, s = self.key(a[1][1], env)
                if a[1][0] == "lt": return 1.0 if v < 0 else 0.0
                if a[1][0] == "eq": return 1.0 if abs(v) <= 1e-12 * s else 0.0
            if a[0] == "exp": return math.exp(self.key(a[1], env)[0])
            if a[0] == "pw": return self.key(a[1], env)[0]
            if a[0] == "fn" and len(a) == 3:
                vs = [self.key(x, env)[0] for x in a[2]]
                if a[1] in NUM: return float(NUM[a[1]](*vs))
                return self.draw(("fn", a[1], tuple(f"{v:.9e}" for v in vs)), a[1])
            if a[0] == "sum" and len(a[1]) == 1:
                n = self.dim(a[2], env)
                if not 0 <= n <= 500: raise Skip
                return sum(self.key(a[3], {**env, a[1][0]: i})[0] for i in range(n))
        except (ValueError, OverflowError, ZeroDivisionError, TypeError): raise Skip
        p = self.plain(a, env)
        return self.draw(p, a[0])


def constants(AT, p, out, seen):
    """constants conditions compare with"""
    def walk(x, cond):
        if isinstance(x, tuple):
            if x and x[0] == "poly":
                for m, c in x[1]:
                    for k, e in m:
                        if (k, cond) in seen: continue
                        seen.add((k, cond))
                        a = AT.vals[k]
                        if a[0] == "fn" and len(a) == 3 and len(a[2]) > 1:
                            c0s = [c for y in a[2] if isinstance(y, tuple) and y and y[0] == "poly" for q, c in y[1] if q == () and not isinstance(c, complex)]
                            cs = [c for y in a[2] if isinstance(y, tuple) and y and y[0] == "poly" for q, c in y[1] if q != () and c and not isinstance(c, complex)]
                            out.update(abs(c0 / c) for c0 in c0s for c in cs)
                        walk(a[1:], cond or a[0] in ("ind", "fn"))
                if cond and not any(isinstance(c, complex) for _, c in x[1]):
                    c0 = [c for m, c in x[1] if m == ()]
                    for m, c in x[1]:
                        if m != () and c: out.add(abs((c0[0] if c0 else 0.0) / c))
            else:
                for y in x: walk(y, cond)
        elif isinstance(x, Dim):
            for s in x.syms():
                if isinstance(s, tuple): walk(s, cond)
    walk(p.key(), False)


def differ(AT, a, b, rounds=160):
    """False when the two expressions agree under every assignment tried; True otherwise."""
    pool = set()
    for p in (a, b): constants(AT, p, pool, set())
    pool = sorted(x for x in pool if math.isfinite(x))
    pool = pool[:8] + pool[-8:] if len(pool) > 16 else pool
    ok = 0
    for seed in range(rounds):
        s = Sample(AT, seed, pool)
        try:
            (va, sa), (vb, sb) = s.key(a.key(), {}), s.key(b.key(), {})
        except Skip: continue
        except (OverflowError, RecursionError, ValueError, ZeroDivisionError, TypeError): continue
        if not (math.isfinite(sa) and math.isfinite(sb)): continue
        if abs(va - vb) > 1e-7 * (sa + sb): return True
        ok += 1
    return ok < 4
