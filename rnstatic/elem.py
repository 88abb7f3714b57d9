"""Element-wise meaning of arrays as canonical algebraic expressions.

An array node of the value-flow graph is evaluated at symbolic indices; the result is a generalised
Laurent polynomial over interned atoms (input elements, uninterpreted functions, finite sums).  Two
expressions are compared by normal form after clearing denominators (no solver); where the normal form is not
canonical, identity.py may withdraw a difference.
"""
import functools, itertools, math
from .core import *
from .identity import differ

COUNT = itertools.count()
TOKENS = {}


def token(f):
    """A stable number for a function object (kept alive, so never reused)."""
    return TOKENS.setdefault(id(f), (f, len(TOKENS)))[1]


EPS = 1e-12


def rnd(x):
    if isinstance(x, complex): return complex(rnd(x.real), rnd(x.imag))
    if x == 0: return 0.0
    return float(f"{x:.11e}")


class Atoms:
    """Interning of atoms: tuples of hashable data."""
    def __init__(self): self.ids, self.vals = {}, []

    def get(self, t):
        i = self.ids.get(t)
        if i is None:
            i = self.ids[t] = len(self.vals); self.vals.append(t)
        return i


AT = Atoms()


def mono_mul(a, b):
    d = dict(a)
    for k, e in b: d[k] = d.get(k, 0) + e
    return tuple(sorted((k, rnd(e) if isinstance(e, float) else e) for k, e in d.items() if abs(e) > EPS))


def mono_cmp(a, b):
    da, db = dict(a), dict(b)
    for k in sorted(set(da) | set(db)):
        x, y = da.get(k, 0), db.get(k, 0)
        if abs(x - y) > EPS: return -1 if x < y else 1
    return 0


class P:
    """Generalised polynomial: {monomial: coefficient}."""
    __slots__ = ("d", "_k")

    def __init__(self, d): self.d, self._k = d, None

    @staticmethod
    def const(c): return P({(): c} if c != 0 else {})

    @staticmethod
    def atom(t, e=1): return P({((AT.get(t), e),): 1.0})

    def is_const(self): return all(m == () for m in self.d)
    def value(self): return self.d.get((), 0.0)

    def __add__(self, o):
        d = dict(self.d)
        for m, c in o.d.items():
            if m in d:
                x = d[m] + c
                if abs(x) <= 1e-11 * max(abs(d[m]), abs(c)): del d[m]
                else: d[m] = x
            else: d[m] = c
        return P(d)

    def __neg__(self): return P({m: -c for m, c in self.d.items()})
    def __sub__(self, o): return self + (-o)

    def __mul__(self, o):
        if len(self.d) * len(o.d) > 40000: raise TooBig()
        r = {}
        for m, c in self.d.items():
            for n, e in o.d.items():
                k = mono_mul(m, n); x = r.get(k, 0.0) + c * e
                r[k] = x
        r = {k: c for k, c in r.items() if abs(c) > 1e-13 * 1.0 or c != 0 and abs(c) > 1e-280}
        big = max((abs(c) for c in r.values()), default=0)
        p = P({k: c for k, c in r.items() if abs(c) > 1e-14 * big or not cancelled(c, big)})
        return p.fold()

    def fold(self):
        """Atoms that are powers of polynomials with a non-negative integer exponent are expanded; indicators are idempotent."""
        out = None
        for m in list(self.d):
            for i, (k, e) in enumerate(m):
                a = AT.vals[k]
                if a[0] == "pw" and e > 0 and abs(e - round(e)) < EPS:
                    out = P({mm: c for mm, c in self.d.items() if mm != m})
                    base = unkey(a[1])
                    rest = P({tuple(x for j, x in enumerate(m) if j != i): self.d[m]})
                    for _ in range(int(round(e))): rest = rest * base
                    return (out + rest).fold()
                if a[0] in ("ind",) and e != 1:
                    out = P({mm: c for mm, c in self.d.items() if mm != m})
                    return (out + P({tuple(x if j != i else (k, 1) for j, x in enumerate(m)): self.d[m]})).fold()
        return self

    def key(self):
        if self._k is None:
            self._k = ("poly", tuple(sorted((m, rnd(c)) for m, c in self.d.items())))
        return self._k

    def atoms(self): return {k for m in self.d for k, _ in m}

    def __repr__(self): return show(self)


def cancelled(c, big): return abs(c) < 1e-14 * big


class TooBig(Exception): pass


def unkey(k): return P({m: c for m, c in k[1]})


def show(p, depth=0):
    if not p.d: return "0"
    out = []
    for m, c in sorted(p.d.items()):
        s = f"{c:.6g}" if c != 1 or not m else ""
        for k, e in m: s += ("*" if s else "") + show_atom(AT.vals[k], depth + 1) + (f"^{e:g}" if e != 1 else "")
        out.append(s)
    return " + ".join(out)


def show_atom(a, depth=0):
    if depth > 6: return "…"
    def one(x):
        if isinstance(x, tuple) and x and x[0] == "poly": return show(unkey(x), depth + 1)
        if isinstance(x, tuple): return "(" + ",".join(one(y) for y in x) + ")"
        return str(x)
    if a[0] == "leaf": return f"{a[1]}{list(a[2])}"
    return a[0] + "<" + ",".join(one(x) for x in a[1:]) + ">"


# ------------------------------------------------------------------ operations
def power(p, e):
    if abs(e - round(e)) < EPS:
        e = int(round(e))
        if e == 0: return P.const(1.0)
        if 0 < e <= 8:
            r = p
            for _ in range(e - 1): r = r * p
            return r
    if not p.d: return P({}) if e > 0 else P.atom(("top", "zero-division", next(COUNT)))
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if not isinstance(e, int) and any(abs(x * e - round(x * e)) < EPS and round(x) % 2 == 0 and round(x * e) % 2 for _, x in m):
            r = P.const(abs(c) ** e if c > 0 else 1.0)
            if c < 0: return P.atom(("pw", p.key()), e)
            for k, x in m:
                y = x * e
                if abs(x - round(x)) < EPS and round(x) % 2 == 0 and AT.vals[k][0] not in POSITIVE:
                    r = r * P.atom(("fn", "abs", (P({((k, 1),): 1.0}).key(),)), y)
                else: r = r * P({((k, y),): 1.0})
            return r.fold()
        if c < 0 and not isinstance(e, int): return P.atom(("pw", p.key()), e)
        return P({tuple((k, rnd(x * e)) for k, x in m): c ** e}).fold()
    # Q^-1 * Q
    common = set.intersection(*[set(m) for m in p.d])
    for k, x in common:
        if x == -1 and AT.vals[k][0] == "pw":
            rest = P({tuple(f for f in m if f != (k, x)): c for m, c in p.d.items()})
            q = unkey(AT.vals[k][1])
            if len(rest.d) == len(q.d) and set(rest.d) == set(q.d):
                m0 = next(iter(q.d)); t = rest.d[m0] / q.d[m0]
                if t > 0 and all(abs(rest.d[m] - t * q.d[m]) <= 1e-12 * abs(rest.d[m]) for m in q.d): return P.const(t ** e)
    # monic
    ms = sorted(p.d, key=functools.cmp_to_key(mono_cmp))
    lead = ms[-1]
    c = p.d[lead]
    if isinstance(e, int):
        inv = P({tuple((k, -x) for k, x in lead): 1.0 / c})
        q = p * inv
        return P({tuple((k, x * e) for k, x in lead): c ** e}) * P.atom(("pw", q.key()), e)
    q = P({m: x / abs(c) for m, x in p.d.items()})
    return P.const(abs(c) ** e) * P.atom(("pw", q.key()), e)


POSITIVE = {"exp"}


def fn(name, *args, extra=()):
    if all(a.is_const() for a in args):
        v = [a.value() for a in args]
        f = CONSTFN.get(name)
        if f:
            try: return P.const(float(f(*v)))
            except Exception: pass
    if name == "exp":
        r = P.const(1.0)
        for m, c in args[0].d.items():
            if m == (): r = r * P.const(math.exp(c)) if abs(c) < 700 else r * P.atom(("exp", P.const(1.0).key()), c)
            else: r = r * P.atom(("exp", P({m: 1.0}).key()), rnd(c))
        return r
    if name == "sqrt": return power(args[0], 0.5)
    if name in ("square",): return args[0] * args[0]
    if name in ("abs", "absolute", "fabs"):
        ks = args[0]
        lead = ks.d[min(ks.d)] if ks.d else 1
        if lead < 0: ks = -ks
        if len(ks.d) == 1:
            (m, c), = ks.d.items()
            if all(AT.vals[k][0] in POSITIVE for k, _ in m): return ks
        return P.atom(("fn", "abs", (ks.key(),)))
    if name in ("sin", "arctan", "tan", "sinh", "tanh", "arcsin", "sign"):
        lead = args[0].d[min(args[0].d)] if args[0].d else 1
        if lead < 0: return -fn(name, -args[0])
    if name in ("cos", "cosh"):
        lead = args[0].d[min(args[0].d)] if args[0].d else 1
        if lead < 0: return fn(name, -args[0])
    return P.atom(("fn", name, tuple(a.key() for a in args)) + tuple(extra))


CONSTFN = {"rounded": lambda x, d: round(x, int(d)), "exp": math.exp, "sqrt": math.sqrt, "abs": abs, "absolute": abs, "sin": math.sin, "cos": math.cos, "log": math.log, "floor": math.floor, "rint": round,
           "ceil": math.ceil, "arccos": math.acos, "tan": math.tan, "sign": lambda x: (x > 0) - (x < 0), "floordiv": lambda a, b: a // b, "mod": lambda a, b: a % b,
           "maximum": max, "minimum": min, "log10": math.log10, "log2": math.log2}
KNOWN_FN = set(CONSTFN) | {"trunc", "clip", "round", "around", "nan_to_num", "hypot", "fmod", "heaviside", "copysign", "lt", "eq", "sinh", "cosh", "tanh", "arctan", "arcsin", "arctan2", "cbrt", "log1p", "expm1", "real", "imag", "conj", "isclose"}
KNOWN_APP = {"fft", "ifft", "rfft", "correlate", "fftfreq", "cumsum", "inv", "spline", "max", "min", "argmax", "argmin", "argsort", "sort", "unique", "uniquerows", "std", "var", "pad", "dct", "convolve", "rfftfreq", "cross", "norm", "median", "prod", "nn", "gradient"}


def indicator(c): return P.atom(("ind", c))


def opaque(p, seen=None):
    """Atoms of unknown meaning anywhere in an expression."""
    seen = seen if seen is not None else set()
    out = []
    for k in p.atoms(): out += opaque_atom(AT.vals[k], seen)
    return out


def opaque_atom(a, seen):
    if a in seen: return []
    seen.add(a)
    out = []
    if a[0] == "top": return [a]
    if a[0] == "fn" and a[1] not in KNOWN_FN: out.append(a)
    if a[0] == "app" and a[1] not in KNOWN_APP: out.append(a)
    def walk(x):
        if isinstance(x, tuple):
            if x and x[0] == "poly":
                for m, c in x[1]:
                    for k, e in m: out.extend(opaque_atom(AT.vals[k], seen))
            else:
                for y in x: walk(y)
        elif isinstance(x, Dim):
            for s in x.syms():
                if isinstance(s, tuple): walk(s)
    walk(a[1:])
    return out


# ------------------------------------------------------------------ substitution of index symbols
def subst(p, mp):
    if not mp: return p
    r = P({})
    for m, c in p.d.items():
        t = P.const(c)
        for k, e in m:
            a = subst_atom(k, mp)
            t = t * (power(a, e) if not (len(a.d) == 1 and next(iter(a.d.values())) == 1.0) else P({tuple((kk, ee * e) for kk, ee in next(iter(a.d))): 1.0}))
        r = r + t
    return r


def subst_atom(k, mp):
    if not atom_mentions(k, mp): return P({((k, 1),): 1.0})
    key = (k, frozenset(mp.items()))
    r = _subs.get(key)
    if r is None:
        if len(_subs) > 200000: _subs.clear()
        r = _subs[key] = subst_atom_(k, mp)
    return r


_subs = {}


def subst_atom_(k, mp):
    b = sub_data(AT.vals[k], mp)
    if b[0] == "sym":
        return dim_poly(mp[b[1]]) if b[1] in mp else P.atom(b)
    if b[0] == "pw": return unkey(b[1]) if False else P.atom(b)
    return P.atom(b)


def sub_data(x, mp):
    if isinstance(x, Dim): return x.subst({s: v for s, v in mp.items()}) if not any(isinstance(s, tuple) and s and s[0] in ("nth", "val") for s in x.syms()) else sub_dim(x, mp)
    if isinstance(x, tuple):
        if x and x[0] == "poly": return subst(unkey(x), mp).key()
        return tuple(sub_data(y, mp) for y in x)
    return x


def sub_dim(d, mp):
    m2 = dict(mp)
    for s in d.syms():
        if s not in m2 and isinstance(s, tuple) and s and s[0] in ("nth", "val"):
            t = sub_data(s, mp)
            if t != s: m2[s] = Dim.sym(t)
    return d.subst(m2)


_ment = {}


def mentions(x, mp):
    if isinstance(x, Dim):
        for s in x.syms():
            if s in mp: return True
            if isinstance(s, tuple) and s and s[0] in ("nth", "val") and mentions(s, mp): return True
        return False
    if isinstance(x, tuple):
        if x and x[0] == "sym" and len(x) == 2 and x[1] in mp: return True
        if x and x[0] == "poly":
            return any(atom_mentions(k, mp) for m, _ in x[1] for k, _ in m)
        return any(mentions(y, mp) for y in x)
    return False


def atom_mentions(k, mp):
    key = (k, frozenset(mp))
    r = _ment.get(key)
    if r is None:
        if len(_ment) > 400000: _ment.clear()
        r = _ment[key] = mentions(AT.vals[k], mp)
    return r


def p_mentions(p, mp): return any(atom_mentions(k, mp) for k in p.atoms())


_heights = {}


def atom_height(k):
    r = _heights.get(k)
    if r is None: r = _heights[k] = height(AT.vals[k])
    return r


def height(x):
    if isinstance(x, P): return max((atom_height(k) for k in x.atoms()), default=0)
    if isinstance(x, Dim):
        h = 0
        for s in x.syms():
            if isinstance(s, tuple) and s and s[0] == "#": h = max(h, s[1])
            elif isinstance(s, tuple): h = max(h, height(s))
        return h
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "sym" and isinstance(x[1], tuple) and x[1] and x[1][0] == "#": return x[1][1]
        if x and x[0] == "poly": return max((atom_height(k) for m, _ in x[1] for k, _ in m), default=0)
        return max((height(y) for y in x), default=0)
    return 0


def dim_poly(d):
    r = P({})
    for m, c in d.t:
        t = P.const(float(c))
        for s in m: t = t * P.atom(("sym", s))
        r = r + t
    return r


_fresh = [0]


def fresh_sym():
    _fresh[0] += 1
    return ("tmp", _fresh[0])


def bind(p, syms):
    """Rename temporary index symbols to canonical bound names; returns (names, key)."""
    h = height(p)
    mp, names = {}, []
    for i, s in enumerate(syms):
        nm = ("#", h + 1 + i)
        names.append(nm); mp[s] = Dim.sym(nm)
    return tuple(names), subst(p, mp).key()


def summation(body, sym, trip):
    """sum of body over sym = 0..trip-1"""
    if trip is not None and trip.is_const() and 0 <= trip.value() <= 12:
        r = P({})
        for i in range(trip.value()): r = r + subst(body, {sym: Dim.const(i)})
        return r
    out = P({})
    mp = {sym: None}
    for m, c in body.d.items():
        dep = tuple((k, e) for k, e in m if atom_mentions(k, mp))
        ind = tuple((k, e) for k, e in m if not atom_mentions(k, mp))
        if not dep:
            out = out + P({ind: c}) * (dim_poly(trip) if trip is not None else P.atom(("top", "trip", next(COUNT))))
        elif len(dep) == 1 and selects(AT.vals[dep[0][0]], mp): out = out + P({ind: c})
        else:
            names, key = bind(P({dep: 1.0}), [sym])
            out = out + P({ind: c}) * P.atom(("sum", names, trip, key))
    return out


def selects(a, mp):
    """the indicator of one value (an index into the same axis, hence in range) of the summation symbol"""
    if a[0] != "ind" or not isinstance(a[1], tuple) or a[1][0] != "eq": return False
    hit = [(m, c) for m, c in a[1][1][1] if any(atom_mentions(k, mp) for k, _ in m)]
    return len(hit) == 1 and abs(hit[0][1]) == 1 and len(hit[0][0]) == 1 and hit[0][0][0][1] == 1 and AT.vals[hit[0][0][0][0]][0] == "sym"


def total(f, trip):
    """Sum of f(k) over k = 0..trip-1; element by element when the extent is a small constant."""
    if trip is not None and trip.is_const() and 0 <= trip.value() <= 12:
        r = P({})
        for i in range(trip.value()): r = r + f(Dim.const(i))
        return r
    t = fresh_sym()
    return summation(f(Dim.sym(t)), t, trip)


def linear(body, sym, make):
    """Apply a linear operator over sym: factors that do not depend on it come out."""
    out = P({})
    mp = {sym: None}
    for m, c in body.d.items():
        dep = tuple((k, e) for k, e in m if atom_mentions(k, mp))
        ind = tuple((k, e) for k, e in m if not atom_mentions(k, mp))
        names, key = bind(P({dep: 1.0}), [sym])
        out = out + P({ind: c}) * P.atom(make(names, key))
    return out


# ------------------------------------------------------------------ comparison
def clear(d):
    """Multiply an expression by the denominators that occur in it."""
    for _ in range(12):
        worst = None
        for m in d.d:
            for k, e in m:
                if AT.vals[k][0] == "pw" and e < -EPS and abs(e - round(e)) < EPS:
                    if worst is None or e < worst[1]: worst = (k, e)
        if worst is None: return d
        k, e = worst
        e = int(round(-e))
        base = unkey(AT.vals[k][1])
        r = P({})
        for m, c in d.d.items():
            have = next((int(round(x)) for kk, x in m if kk == k), 0)
            rest = tuple(x for x in m if x[0] != k)
            t = P({rest: c})
            for _i in range(e + have): t = t * base
            r = r + t
        d = r
    return d


def equal(a, b, tol=1e-9):
    """True / False (different normal forms) / None (cannot tell)."""
    try:
        if close(a, b, tol): return True
        d = clear(a - b)
        scale = max([abs(c) for c in a.d.values()] + [abs(c) for c in b.d.values()] + [1e-300])
        if all(abs(c) < tol * scale for c in d.d.values()): return True
    except TooBig: return None
    if opaque(a) or opaque(b): return None
    return False if conditional(a) + conditional(b) == 0 or differ(AT, a, b) else None


def conditional(p):
    """Atoms whose normal form is not canonical."""
    seen, n = set(), [0]
    def walk(x):
        if isinstance(x, tuple):
            if x and x[0] == "poly":
                for m, _ in x[1]:
                    for k, _ in m:
                        if k in seen: continue
                        seen.add(k)
                        if AT.vals[k][0] in ("ind", "fn", "pw", "exp"): n[0] += 1
                        walk(AT.vals[k])
            else:
                for y in x: walk(y)
        elif isinstance(x, Dim):
            for s in x.syms():
                if isinstance(s, tuple): walk(s)
    walk(p.key())
    return n[0]


def close(a, b, tol, depth=0):
    if len(a.d) != len(b.d) or depth > 12: return False
    if a.key() == b.key(): return True
    rest = list(b.d.items())
    for m, c in sorted(a.d.items(), key=lambda x: -len(x[0])):
        for i, (n, e) in enumerate(rest):
            if abs(c - e) <= tol * max(abs(c), abs(e)) and close_mono(m, n, tol, depth):
                del rest[i]; break
        else: return False
    return True


def close_mono(m, n, tol, depth):
    if m == n: return True
    if len(m) != len(n): return False
    rest = list(n)
    for k, e in m:
        for i, (kk, ee) in enumerate(rest):
            if abs(e - ee) <= tol * max(abs(e), abs(ee)) and (k == kk or close_data(AT.vals[k], AT.vals[kk], tol, depth + 1)):
                del rest[i]; break
        else: return False
    return True


def close_data(x, y, tol, depth):
    if x == y: return True
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y): return False
        if x and x[0] == "poly" and y[0] == "poly": return close(unkey(x), unkey(y), tol, depth)
        return all(close_data(p, q, tol, depth) for p, q in zip(x, y))
    if isinstance(x, float) and isinstance(y, float): return abs(x - y) <= tol * max(abs(x), abs(y))
    return False


# ------------------------------------------------------------------ evaluation of nodes
class Elem:
    def __init__(self, I, st=None):
        self.I, self.st = I, st
        self.memo = {}
        self.place = ()         # where the innermost node is being evaluated
        self.deps_memo = {}
        self.phis = []          # loops being summed: (node id, symbol)
        self.leafmap = {}       # leaf attr -> function(idx) -> P, to interpret inputs
        self.why = []
        self.choice = None      # function(phi node) -> arg index, to fix a control decision

    def norm(self, d): return self.st.norm(d) if self.st is not None and d is not None else d

    def top(self, n, why=""):
        """An unknown value: the same one only at the same place under the same interpretation of the inputs."""
        self.why.append(f"{n.op} {why}")
        return P.atom(("top", n.id, self.place, self.under(n)))

    def under(self, n):
        if not self.leafmap: return ()
        r = self.deps_memo.get(n.id)
        if r is None:
            hit, seen, todo = set(), set(), [n]
            while todo:
                x = todo.pop()
                if x.id in seen: continue
                seen.add(x.id)
                if x.op == "leaf" and isinstance(x.attr, str): hit.add(x.attr)
                hit.add(("op", x.op))
                todo += x.args
            r = self.deps_memo[n.id] = frozenset(hit)
        return tuple(sorted((repr(k), token(v)) for k, v in self.leafmap.items() if k in r))

    def shape(self, n):
        return tuple(self.norm(d) for d in n.shape) if n.shape is not None else None

    def at(self, n, idx, env=None):
        """Element of node n at the index tuple idx (Dims); env: loop symbol -> Dim."""
        env = env or {}
        key = (n.id, idx, tuple(sorted(env.items(), key=repr)), tuple(self.phis))
        r = self.memo.get(key)
        if r is None:
            here, self.place = self.place, key[1:]
            try: r = self.at_(n, idx, env)
            finally: self.place = here
            self.memo[key] = r
        return r

    def at_(self, n, idx, env):
        if n.const is not NO:
            c = n.const
            if isinstance(c, bool): c = float(c)
            if isinstance(c, (int, float)): return P.const(float(c))
            return P.atom(("const", repr(c)))
        if ("op", n.op) in self.leafmap: return self.leafmap["op", n.op](n, idx, env)
        if n.ival is not None and n.shape in ((), None) and n.op not in ("loopphi",):
            return dim_poly(self.norm(n.ival).subst(env))
        op = n.op
        f = getattr(self, "e_" + op.replace(":", "_").replace(".", "_").replace("==", "eq").replace("<", "lt"), None)
        if f is not None: return f(n, idx, env)
        if op in ARITH: return self.arith(n, idx, env)
        if op.startswith("u:"):
            a = [self.bc(x, n, idx, env) for x in n.args]
            nm = UFN.get(op[2:], op[2:])
            if nm in ("real", "conj", "conjugate"): return self.real(n, a[0], nm)
            return fn(nm, *a)
        return self.top(n)

    # broadcasting: element of an operand for the element idx of the result
    def bc(self, x, n, idx, env):
        s = self.shape(x)
        if s is None: return self.top(x, "unknown shape")
        if len(s) > len(idx): return self.top(x, "rank")
        tail = idx[len(idx) - len(s):]
        return self.at(x, tuple(Dim.const(0) if d == D1 else i for d, i in zip(s, tail)), env)

    def arith(self, n, idx, env):
        a = [self.bc(x, n, idx, env) for x in n.args]
        op = n.op
        if op == "add": return a[0] + a[1]
        if op == "sub": return a[0] - a[1]
        if op == "mul": return a[0] * a[1]
        if op == "div": return a[0] * power(a[1], -1)
        if op == "neg": return -a[0]
        if op == "pow":
            if a[1].is_const(): return power(a[0], a[1].value() if not float(a[1].value()).is_integer() else int(a[1].value()))
            return fn("pow", *a)
        if op in ("floordiv", "mod"): return fn(op, *a)
        if op in ("cast", "trunc"): return a[0] if op == "cast" and n.dt in ("f", None, "c") or n.args[0].dt in ("i", "b") else fn("trunc", a[0])
        return fn(op, *a)

    def real(self, n, a, nm):
        # real part of a linear combination with real coefficients
        out = P({})
        for m, c in a.d.items():
            cx = tuple((k, e) for k, e in m if AT.vals[k][0] == "app" and AT.vals[k][1] in ("fft", "ifft", "rfft"))
            if not cx or nm != "real": out = out + P({m: c}); continue
            out = out + P({tuple(x for x in m if x not in cx): c}) * P.atom(("fn", "real", (P({cx: 1.0}).key(),)))
        return out

    def e_leaf(self, n, idx, env):
        h = self.leafmap.get(n.attr)
        if h is not None: return h(idx)
        return P.atom(("leaf", n.attr if isinstance(n.attr, str) else repr(n.attr), tuple(idx)))

    def e_dim(self, n, idx, env): return dim_poly(self.norm(n.attr if isinstance(n.attr, Dim) else n.ival).subst(env))

    def e_phi(self, n, idx, env):
        if self.choice is not None:
            k = self.choice(n)
            if k is not None: return self.bc(n.args[k], n, idx, env)
        vs = [self.bc(a, n, idx, env) for a in n.args]
        if all(v.key() == vs[0].key() for v in vs[1:]): return vs[0]
        sel = self.I.g.sels.get(n.id)
        if sel is not None and sel[1] is not n and sel[2] is not n and sel[0].dt == "b":
            c = self.bc(sel[0], n, idx, env)
            if not opaque(c):
                a, b = self.bc(sel[1], n, idx, env), self.bc(sel[2], n, idx, env)
                return b + c * (a - b)
        return self.top(n, "depends on a branch")

    def e_where(self, n, idx, env):
        c, a, b = (self.bc(x, n, idx, env) for x in n.args)
        if a.key() == b.key(): return a
        if c.is_const(): return a if c.value() else b
        return b + self.truth(c) * (a - b)

    def truth(self, c):
        """0/1 value of a condition."""
        return c

    def e_cmp_lt(self, n, idx, env):
        a, b = (self.bc(x, n, idx, env) for x in n.args)
        d = a - b
        if d.is_const(): return P.const(1.0 if d.value() < 0 else 0.0)
        s = max(abs(c) for c in d.d.values())
        return indicator(("lt", P({m: c / s for m, c in d.d.items()}).key()))

    def e_cmp_eq(self, n, idx, env):
        a, b = (self.bc(x, n, idx, env) for x in n.args)
        d = a - b
        if d.is_const(): return P.const(1.0 if d.value() == 0 else 0.0)
        lead = d.d[min(d.d)]
        return indicator(("eq", P({m: c / lead for m, c in d.d.items()}).key()))

    def e_not(self, n, idx, env): return P.const(1.0) - self.bc(n.args[0], n, idx, env)

    def e_and(self, n, idx, env):
        r = P.const(1.0)
        for x in n.args: r = r * self.bc(x, n, idx, env)
        return r

    def e_or(self, n, idx, env):
        r = P.const(1.0)
        for x in n.args: r = r * (P.const(1.0) - self.bc(x, n, idx, env))
        return P.const(1.0) - r

    def bound(self, x, env):
        """A slice bound as Dim."""
        if isinstance(x, int): return Dim.const(x)
        if isinstance(x, Dim): return self.norm(x).subst(env)
        return None

    def index_dim(self, n, env):
        """Integer node as an index term."""
        if n.const is not NO and isinstance(n.const, int): return Dim.const(int(n.const))
        if n.ival is not None: return self.norm(n.ival).subst(env)
        p = self.at(n, (), env)
        return self.poly_dim(p)

    def poly_dim(self, p):
        r = Dim.const(0)
        for m, c in p.d.items():
            if abs(c - round(c)) > 1e-9: return Dim.sym(("val", p.key()))
            t = Dim.const(int(round(c)))
            for k, e in m:
                a = AT.vals[k]
                if a[0] != "sym" or e != int(e) or e < 0: return Dim.sym(("val", p.key()))
                for _ in range(int(e)): t = t * Dim.sym(a[1])
            r = r + t
        return r

    def e_index(self, n, idx, env):
        x, args = n.args[0], n.args[1:]
        xs = self.shape(x)
        if xs is None: return self.top(n, "index of unknown shape")
        src = self.source_index(n, xs, args, n.attr, idx, env)
        if src is None: return self.top(n, f"index {n.attr}")
        return self.at(x, src, env)

    def source_index(self, n, xs, args, spec, idx, env):
        """Index into the operand for the element idx of x[spec]."""
        idx = list(idx)
        spec = list(spec)
        nadv = sum(1 for e in spec if e[0] == "a")
        out, ax, pos = [], 0, 0
        advshape = None
        advpos = None
        if nadv:
            advs = [args[e[1]] for e in spec if e[0] == "a"]
            if any(a.shape is None for a in advs): return None
            first = next(i for i, e in enumerate(spec) if e[0] == "a")
            where = [i for i, e in enumerate(spec) if e[0] in ("a", "c", "i") and nadv]
            contiguous = all(b - a == 1 for a, b in zip(where, where[1:]))
            if advs[0].dt == "b":
                if nadv != 1: return None
                r = 1; k = len(advs[0].shape)
                if k != 1: return None
            else: r = max(len(a.shape) for a in advs)
            p = sum(1 for e in spec[:first] if e[0] in ("s", "n")) if contiguous else 0
            advidx = idx[p:p + r]
            del idx[p:p + r]
        for e in spec:
            if e[0] == "n":
                if not idx: return None
                idx.pop(0); continue
            if ax >= len(xs): return None
            d = xs[ax]
            if e[0] == "c":
                k = e[1] if isinstance(e[1], int) else None
                if k is None: return None
                out.append(Dim.const(k) if k >= 0 else d + Dim.const(k)); ax += 1
            elif e[0] == "i":
                k = self.index_dim(args[e[1]], env)
                if k is None: return None
                out.append(k); ax += 1
            elif e[0] == "s":
                lo, hi, step = e[1], e[2], e[3]
                if isinstance(lo, tuple): lo = self.index_dim(args[lo[1]], env)
                if isinstance(step, tuple): return None
                if isinstance(step, Dim) and step.is_const(): step = step.value()
                step = 1 if step is None else (step if isinstance(step, int) else None)
                if step is None or not idx: return None
                i = idx.pop(0)
                if step > 0:
                    b = Dim.const(0) if lo is None else self.bound(lo, env)
                    if b is None: return None
                    if b.is_const() and b.value() < 0: b = d + b
                else:
                    b = d - D1 if lo is None else self.bound(lo, env)
                    if b is None: return None
                    if b.is_const() and b.value() < 0: b = d + b
                out.append(b + i * Dim.const(step)); ax += 1
            elif e[0] == "a":
                a = args[e[1]]
                if a.dt == "b":
                    s = fresh_sym()
                    body = self.at(a, (Dim.sym(s),), env)
                    names, key = bind(body, [s])
                    out.append(Dim.sym(("nth", names, key, advidx[0]))); ax += 1
                else:
                    s = self.shape(a)
                    tail = advidx[len(advidx) - len(s):]
                    v = self.at(a, tuple(Dim.const(0) if q == D1 else i for q, i in zip(s, tail)), env)
                    out.append(self.poly_dim(v)); ax += 1
            else: return None
        while ax < len(xs):
            if not idx: return None
            out.append(idx.pop(0)); ax += 1
        return tuple(out) if not idx else None

    def scatter_rows(self, n, x, v, rows, idx, env):
        """x[[k0, k1, ...]] = v with constant row numbers."""
        xs, L = self.shape(x), self.norm(rows.shape[0])
        if not L.is_const() or L.value() > 64 or xs is None or not idx: return None
        i = self.norm(idx[0])
        for q in reversed(range(L.value())):
            k = self.at(rows, (Dim.const(q),), env)
            if not k.is_const() or k.value() != int(k.value()): return None
            k = Dim.const(int(k.value()))
            if k.value() < 0: k = xs[0] + k
            dlt = dim_poly(self.norm(i - k))
            if not dlt.is_const(): return None
            if dlt.value() == 0:
                vs = self.shape(v)
                if vs is None: return None
                full = (Dim.const(q),) + tuple(idx[1:])
                if len(vs) > len(full): return None
                return self.at(v, tuple(Dim.const(0) if d == D1 else t for d, t in zip(vs, full[len(full) - len(vs):])), env)
        return self.at(x, idx, env)

    def e_update(self, n, idx, env):
        x, v, args = n.args[0], n.args[1], n.args[2:]
        xs = self.shape(x)
        spec = n.attr
        if xs is None or v.shape is None or any(not isinstance(e, tuple) for e in spec) or spec and spec[0] == "view" or any(e[0] == "n" for e in spec):
            return self.top(n, "update")
        if len(spec) == 1 and spec[0][0] == "a" and args[0].dt == "b":
            m = args[0]
            if m.shape is None: return self.top(n, "update")
            k = len(m.shape)
            c = self.at(m, tuple(idx[:k]), env)
            if v.shape == () : vv = self.at(v, (), env)
            elif v.op in ("expand", "full"): vv = self.at(v.args[0], (), env) if v.args[0].shape == () else None
            elif v.op == "index" and v.attr == spec and v.args[1] is m: vv = self.at(v.args[0], idx, env)
            else: vv = self.masked(v, m, idx, env)
            if vv is None: return self.top(n, "masked update")
            b = self.at(x, idx, env)
            return b + c * (vv - b)
        if len(spec) == 1 and spec[0][0] == "a" and args[0].shape is not None and len(args[0].shape) == 1:
            r = self.scatter_rows(n, x, v, args[0], idx, env)
            return r if r is not None else self.top(n, "update")
        vidx, cond = [], P.const(1.0)
        for j, (e, i) in enumerate(zip(spec, idx)):
            if e[0] in ("c", "i"):
                k = Dim.const(e[1]) if e[0] == "c" else self.index_dim(args[e[1]], env)
                if k is None: return self.top(n, "update")
                if k.is_const() and k.value() < 0: k = xs[j] + k
                dlt = dim_poly(i - k)
                if dlt.is_const():
                    if dlt.value() != 0: return self.at(x, idx, env)
                else:
                    lead = dlt.d[min(dlt.d)]
                    cond = cond * indicator(("eq", P({m: c / lead for m, c in dlt.d.items()}).key()))
            elif e[0] == "s":
                if tuple(e[1:]) == (None, None, None): vidx.append(i)
                else:
                    lo, hi, step = e[1], e[2], e[3]
                    if step not in (None, 1): return self.top(n, "update")
                    lo = Dim.const(0) if lo is None else self.bound(lo, env) if not isinstance(lo, tuple) else self.index_dim(args[lo[1]], env)
                    hi = xs[j] if hi is None else self.bound(hi, env) if not isinstance(hi, tuple) else self.index_dim(args[hi[1]], env)
                    if lo is None or hi is None: return self.top(n, "update")
                    if lo.is_const() and lo.value() < 0: lo = xs[j] + lo
                    if hi.is_const() and hi.value() < 0: hi = xs[j] + hi
                    if i.is_const() and lo.is_const() and hi.is_const():
                        if not lo.value() <= i.value() < hi.value(): return self.at(x, idx, env)
                    else:
                        c1 = P.const(1.0) - self.below(i, lo)
                        if c1.is_const() and not c1.value(): return self.at(x, idx, env)
                        c2 = P.const(1.0) if hi == xs[j] else self.below(i, hi)
                        if c2.is_const() and not c2.value(): return self.at(x, idx, env)
                        cond = cond * c1 * c2
                    vidx.append(i - lo)
            else: return self.top(n, "update")
        vidx += list(idx[len(spec):])
        s = self.shape(v)
        lead = ()
        while len(s) > len(vidx) and s[0] == D1: s, lead = s[1:], lead + (Dim.const(0),)
        if len(s) > len(vidx): return self.top(n, "update rank")
        tail = vidx[len(vidx) - len(s):]
        vv = self.at(v, lead + tuple(Dim.const(0) if d == D1 else i for d, i in zip(s, tail)), env)
        if cond.is_const(): return vv
        b = self.at(x, idx, env)
        return b + cond * (vv - b)

    def masked(self, v, m, idx, env):
        """v was computed element-wise from selections x[m]: the element at idx of the unselected computation."""
        if v.const is not NO: return self.at(v, (), env)
        if v.op == "index" and len(v.attr) == 1 and v.attr[0][0] == "a" and v.args[1] is m: return self.at(v.args[0], idx, env)
        if v.op in ("add", "sub", "mul", "div", "neg", "pow"):
            a = [self.masked(x, m, idx, env) for x in v.args]
            if any(x is None for x in a): return None
            return {"add": lambda: a[0] + a[1], "sub": lambda: a[0] - a[1], "mul": lambda: a[0] * a[1], "div": lambda: a[0] * power(a[1], -1),
                    "neg": lambda: -a[0], "pow": lambda: power(a[0], int(a[1].value())) if a[1].is_const() and float(a[1].value()).is_integer() else fn("pow", *a)}[v.op]()
        if v.shape == (): return self.at(v, (), env)
        if v.op in ("expand", "full") and v.args[0].shape == (): return self.at(v.args[0], (), env)
        return None

    def e_transpose(self, n, idx, env):
        if n.attr is None: return self.top(n)
        src = [None] * len(idx)
        for i, p in enumerate(n.attr): src[p] = idx[i]
        return self.at(n.args[0], tuple(src), env)

    def e_expand(self, n, idx, env): return self.bc(n.args[0], n, idx, env)
    def e_full(self, n, idx, env): return self.at(n.args[0], (), env)
    def e_eye(self, n, idx, env):
        d = dim_poly(idx[0] - idx[1])
        if d.is_const(): return P.const(1.0 if d.value() == 0 else 0.0)
        lead = d.d[min(d.d)]
        return indicator(("eq", P({m: c / lead for m, c in d.d.items()}).key()))

    def e_stack(self, n, idx, env):
        if len(n.args) < 2: return self.top(n)
        il = n.args[1]
        s = (il.meta or {}).get("sym") or (next(iter(il.ival.syms())) if il.ival is not None else None)
        e = dict(env)
        if s is not None: e[s] = idx[0]
        else: return self.top(n, "stack without index")
        return self.at(n.args[0], idx[1:], e)

    def e_stackx(self, n, idx, env):
        i = idx[0]
        if i.is_const() and 0 <= i.value() < len(n.args): return self.bc1(n.args[i.value()], idx[1:], env)
        vs = [self.bc1(a, idx[1:], env) for a in n.args]
        if vs and all(v.key() == vs[0].key() for v in vs): return vs[0]
        return self.top(n, "stackx")

    def bc1(self, x, idx, env):
        if x.shape is None: return self.top(x)
        if len(x.shape) != len(idx): return self.top(x, "rank")
        return self.at(x, tuple(idx), env)

    def e_concat(self, n, idx, env):
        ax = n.attr
        if not isinstance(ax, int): return self.top(n)
        if ax < 0: ax += len(idx)
        off = Dim.const(0)
        out, rest = P({}), P.const(1.0)     # the value so far; 1 where the index lies behind the parts seen
        for k, a in enumerate(n.args):
            s = self.shape(a)
            if s is None or len(s) != len(idx): return self.top(n)
            end = self.norm(off + s[ax])
            here = P.const(1.0) if k == len(n.args) - 1 else self.below(idx[ax], end)
            if not here.is_const() or here.value():
                out = out + rest * here * self.at(a, tuple(idx[:ax]) + (self.norm(idx[ax] - off),) + tuple(idx[ax + 1:]), env)
            rest = rest * (P.const(1.0) - here)
            if rest.is_const() and not rest.value(): break
            off = end
        return out

    def below(self, i, n):
        """0/1: index i (never negative) lies before n."""
        d = self.norm(i - n)
        s = dim_sign(d, self.st.mins if self.st is not None else None)
        if s in ("+", "0", ">="): return P.const(0.0)
        if s == "-": return P.const(1.0)
        d = dim_poly(d)
        m = max(abs(c) for c in d.d.values())
        return indicator(("lt", P({k: c / m for k, c in d.d.items()}).key()))

    def e_part(self, n, idx, env):
        ax, k, i = n.attr
        s = self.shape(n.args[0])
        if s is None: return self.top(n)
        d = s[ax].div(Dim.const(k)) if not s[ax].is_const() else Dim.const(s[ax].value() // k)
        if d is None: return self.top(n)
        return self.at(n.args[0], tuple(idx[:ax]) + (idx[ax] + d * Dim.const(i),) + tuple(idx[ax + 1:]), env)

    def e_tile(self, n, idx, env):
        s = self.shape(n.args[0])
        if s is None or len(s) > len(idx): return self.top(n)
        tail = idx[len(idx) - len(s):]
        out = []
        full = self.shape(n)
        for k, (d, i) in enumerate(zip(s, tail)):
            if d == D1: out.append(Dim.const(0))
            elif full is not None and full[len(idx) - len(s) + k] == d: out.append(i)
            elif i.is_const() and d.is_const(): out.append(Dim.const(i.value() % d.value()))
            else: out.append(Dim.sym(("val", fn("mod", dim_poly(i), dim_poly(d)).key())))
        return self.at(n.args[0], tuple(out), env)

    def e_reshape(self, n, idx, env):
        a, b = self.shape(n.args[0]), self.shape(n)
        if a is None or b is None: return self.top(n, "reshape")
        src = self.unshape(a, b, idx)
        return self.at(n.args[0], src, env) if src is not None else self.top(n, f"reshape {a}->{b}")

    def unshape(self, a, b, idx):
        a, b = list(a), list(b)
        out, i, j = [], 0, 0
        idx = list(idx)
        while i < len(a) or j < len(b):
            if i < len(a) and j < len(b) and a[i] == b[j]: out.append(idx[j]); i += 1; j += 1; continue
            if i < len(a) and a[i] == D1: out.append(Dim.const(0)); i += 1; continue
            if j < len(b) and b[j] == D1: j += 1; continue
            if i >= len(a) or j >= len(b): return None
            # group
            pa, pb, ka, kb = a[i], b[j], [a[i]], [b[j]]
            i2, j2 = i + 1, j + 1
            for _ in range(8):
                if pa == pb: break
                ra = pa.div(pb); rb = pb.div(pa)
                if rb is not None and i2 < len(a): ka.append(a[i2]); pa = pa * a[i2]; i2 += 1
                elif ra is not None and j2 < len(b): kb.append(b[j2]); pb = pb * b[j2]; j2 += 1
                elif pa.is_const() and pb.is_const() and pa.value() < pb.value() and i2 < len(a): ka.append(a[i2]); pa = pa * a[i2]; i2 += 1
                elif pa.is_const() and pb.is_const() and j2 < len(b): kb.append(b[j2]); pb = pb * b[j2]; j2 += 1
                else: return None
            if pa != pb: return None
            lin = Dim.const(0)
            for d, k in zip(kb, idx[j:j2]): lin = lin * d + k
            sub = []
            if len(ka) == 1: sub = [lin]
            else:
                # peel from the last axis
                rest = lin
                for d in reversed(ka[1:]):
                    q, r = self.divmod(rest, d)
                    if q is None: return None
                    sub.insert(0, r); rest = q
                sub.insert(0, rest)
            out += sub
            i, j = i2, j2
        return tuple(out)

    def divmod(self, x, d):
        """Quotient and remainder of a linearised index by an extent, when they can be read off."""
        if x.is_const() and d.is_const(): return Dim.const(x.value() // d.value()), Dim.const(x.value() % d.value())
        q, r = Dim.const(0), Dim.const(0)
        for m, c in x.t:
            t = Dim(((m, c),))
            k = t.div(d)
            if k is not None: q = q + k
            else: r = r + t
        # the remainder is one index term of this very extent: accept a single symbol with coefficient 1
        if len(r.t) <= 1 and (not r.t or r.t[0][1] == 1 and len(r.t[0][0]) == 1 or r.is_const()): return q, r
        return None, None

    # -------------------------------------------------------------- contractions
    def e_matmul(self, n, idx, env):
        a, b = n.args
        sa, sb = self.shape(a), self.shape(b)
        if sa is None or sb is None: return self.top(n, "matmul")
        def term(k):
            if len(sa) == 1 and len(sb) == 1: x, y = self.at(a, (k,), env), self.at(b, (k,), env)
            elif len(sa) == 1: x, y = self.at(a, (k,), env), self.at(b, tuple(idx[:-1]) + (k, idx[-1]), env)
            elif len(sb) == 1: x, y = self.at(a, tuple(idx) + (k,), env), self.at(b, (k,), env)
            else:
                batch = idx[:-2]
                def bt(sh):
                    q = sh[:-2]
                    t = batch[len(batch) - len(q):]
                    return tuple(Dim.const(0) if d == D1 else i for d, i in zip(q, t))
                x, y = self.at(a, bt(sa) + (idx[-2], k), env), self.at(b, bt(sb) + (k, idx[-1]), env)
            return x * y
        return total(term, sa[-1])

    def e_einsum(self, n, idx, env):
        ins, out = n.attr.split("->")
        ins = ins.split(",")
        mp = dict(zip(out, idx))
        syms = {}
        for s, a in zip(ins, n.args):
            sh = self.shape(a)
            if sh is None: return self.top(n, "einsum")
            for c, d in zip(s, sh):
                if c not in mp: syms.setdefault(c, d)
        names = list(syms)
        def body(k, mp):
            if k == len(names):
                r = P.const(1.0)
                for s, a in zip(ins, n.args): r = r * self.at(a, tuple(mp[c] for c in s), env)
                return r
            return total(lambda x: body(k + 1, {**mp, names[k]: x}), syms[names[k]])
        return body(0, mp)

    def over(self, n, idx, axes, keep):
        """(source index with fresh symbols, [(sym, extent)])"""
        s = self.shape(n.args[0])
        if s is None: return None, None
        idx = list(idx)
        src, syms = [], []
        for i, d in enumerate(s):
            if axes is None or i in axes:
                t = fresh_sym(); src.append(Dim.sym(t)); syms.append((t, d))
                if keep and idx: idx.pop(0)
            else: src.append(idx.pop(0))
        return tuple(src), syms

    def e_sum(self, n, idx, env):
        axes, keep, extra = n.attr
        src, syms = self.over(n, idx, axes, keep)
        if src is None or extra: return self.top(n, "sum")
        return self.sumover(n.args[0], src, syms, env)

    def sumover(self, x, src, syms, env, f=None):
        """Sum of f(x[src]) over the summation symbols; small constant extents are unrolled, so that items of lists are seen one by one."""
        if not syms:
            b = self.at(x, tuple(src), env)
            return f(b) if f else b
        t, d = syms[0]
        if d is not None and d.is_const() and 0 <= d.value() <= 12:
            r = P({})
            for i in range(d.value()): r = r + self.sumover(x, tuple(k.subst({t: Dim.const(i)}) for k in src), syms[1:], env, f)
            return r
        return summation(self.sumover(x, src, syms[1:], env, f), t, d)

    def e_mean(self, n, idx, env):
        axes, keep, extra = n.attr
        src, syms = self.over(n, idx, axes, keep)
        if src is None or extra: return self.top(n, "mean")
        b = self.sumover(n.args[0], src, syms, env)
        for t, d in reversed(syms): b = b * power(dim_poly(d), -1)
        return b

    def e_norm(self, n, idx, env):
        axes, keep, o = n.attr[0], n.attr[1], n.attr[2]
        if o not in (None, 2, "fro", 2.0): return self.top(n, f"norm {o}")
        src, syms = self.over(n, idx, axes, keep)
        if src is None: return self.top(n, "norm")
        b = self.at(n.args[0], src, env)
        b = b * b
        for t, d in reversed(syms): b = summation(b, t, d)
        return power(b, 0.5)

    def stat(self, n, idx, env):
        """Other reductions: uninterpreted functions of the reduced slice."""
        axes, keep, extra = n.attr[0], n.attr[1], n.attr[2] if len(n.attr) > 2 else None
        src, syms = self.over(n, idx, axes, keep)
        if src is None: return self.top(n, n.op)
        b = self.at(n.args[0], src, env)
        names, key = bind(b, [t for t, _ in syms])
        return P.atom(("app", n.op, repr(extra), tuple(d for _, d in syms), (names, key)))
    e_max = e_min = e_argmax = e_argmin = e_any = e_all = e_prod = e_median = stat

    def e_var(self, n, idx, env, p=1):
        axes, keep, extra = n.attr
        ddof = 0
        ex = dict(extra) if isinstance(extra, tuple) and all(isinstance(x, tuple) and len(x) == 2 for x in extra) else None
        if extra:
            if isinstance(extra, (int, float)): ddof = extra
            elif ex is not None: ddof = ex.get("ddof", ex.get("correction", 0))
            else: return self.stat(n, idx, env)
        src, syms = self.over(n, idx, axes, keep)
        if src is None or not isinstance(ddof, (int, float)): return self.top(n, n.op)
        m = self.sumover(n.args[0], src, syms, env); sq = self.sumover(n.args[0], src, syms, env, lambda b: b * b)
        cnt = P.const(1.0)
        for t, d in syms: cnt = cnt * dim_poly(d)
        inv = power(cnt, -1)
        v = (sq - m * m * inv) * (inv if ddof == 0 else power(cnt - P.const(float(ddof)), -1))
        return v if p == 1 else power(v, 0.5)

    def e_std(self, n, idx, env): return self.e_var(n, idx, env, 0.5)

    def e_cross(self, n, idx, env):
        i = idx[-1]
        if not i.is_const(): return self.top(n, "cross")
        a, b = n.args
        def at(x, k):
            s = self.shape(x)
            if s is None: return self.top(x)
            q = tuple(idx[:-1])[len(idx) - len(s):] if len(s) > 1 else ()
            return self.at(x, tuple(Dim.const(0) if d == D1 else j for d, j in zip(s[:-1], q)) + (Dim.const(k % 3),), env)
        k = i.value()
        return at(a, k + 1) * at(b, k + 2) - at(a, k + 2) * at(b, k + 1)

    def e_diff(self, n, idx, env):
        ax = n.attr if isinstance(n.attr, int) else None
        if ax is None: return self.top(n)
        if ax < 0: ax += len(idx)
        up = tuple(idx[:ax]) + (idx[ax] + D1,) + tuple(idx[ax + 1:])
        return self.at(n.args[0], up, env) - self.at(n.args[0], idx, env)

    def e_tril(self, n, idx, env):
        """Rows i, columns j with j <= i + k (tril) or j >= i + k (triu)."""
        i, j = idx[-2:]
        d = j - i - Dim.const(n.attr)
        if d.is_const(): keep = P.const(1.0 if (d.value() <= 0 if n.op == "tril" else d.value() >= 0) else 0.0)
        else:
            b = self.below(j, i + Dim.const(n.attr + (1 if n.op == "tril" else 0)))
            keep = b if n.op == "tril" else P.const(1.0) - b
        return keep if keep.is_const() and not keep.value() else keep * self.at(n.args[0], idx, env)
    e_triu = e_tril

    def e_gradient(self, n, idx, env):
        """Central differences, one-sided at both ends."""
        ax, x, s = n.attr, n.args[0], self.shape(n.args[0])
        v = lambda i: self.at(x, tuple(idx[:ax]) + (i,) + tuple(idx[ax + 1:]), env)
        i, d = idx[ax], s[ax]
        a = self.below(i, D1)
        b = self.below(i, self.norm(d - D1))
        one, z = P.const(1.0), Dim.const(0)
        return a * (v(D1) - v(z)) + (one - b) * (v(d - D1) - v(d - Dim.const(2))) + (b - a) * (v(i + D1) - v(i - D1)) * P.const(0.5)

    def e_inv(self, n, idx, env):
        # uninterpreted matrix function of its argument
        s, t = fresh_sym(), fresh_sym()
        b = self.at(n.args[0], tuple(idx[:-2]) + (Dim.sym(s), Dim.sym(t)), env)
        names, key = bind(b, [s, t])
        return P.atom(("app", "inv", (names, key), tuple(idx[-2:])))

    def e_arange(self, n, idx, env):
        if n.shape is not None and len(n.args) <= 1: return dim_poly(idx[0])
        if len(n.args) in (2, 3):
            a = self.at(n.args[0], (), env); st = self.at(n.args[2], (), env) if len(n.args) == 3 else P.const(1.0)
            return a + st * dim_poly(idx[0])
        return self.top(n)

    def e_linspace(self, n, idx, env):
        if len(n.args) < 3: return self.top(n)
        a, b, k = (self.at(x, (), env) for x in n.args[:3])
        return a + (b - a) * dim_poly(idx[0]) * power(k - P.const(1.0), -1)

    def e_iterelem(self, n, idx, env):
        k = self.index_dim(n.args[1], env) if len(n.args) > 1 else None
        if k is None: return self.top(n)
        base = n.args[0]
        if base.op == "leaf": return P.atom(("leaf", base.attr if isinstance(base.attr, str) else repr(base.attr), (k,) + tuple(idx)))
        return self.at(base, (k,) + tuple(idx), env)

    def call_fft(self, n, idx, env):
        nm = n.op[5:]
        s = self.shape(n.args[0])
        if s is None or len(s) != 1 or len(n.args) > 1: return self.top(n, nm)
        t = fresh_sym()
        b = self.at(n.args[0], (Dim.sym(t),), env)
        return linear(b, t, lambda names, key: ("app", nm, s[0], (names, key), tuple(idx)))
    e_call_fft = e_call_rfft = e_call_ifft = call_fft

    def e_model(self, n, idx, env):
        a, c = fresh_sym(), fresh_sym()
        b = self.at(n.args[0], (idx[0], Dim.sym(a), Dim.sym(c)), env)
        names, key = bind(b, [a, c])
        r = P.atom(("app", "nn", (names, key), tuple(idx[1:])))
        off = self.leafmap.get("model offset")
        return r + off(idx[1:]) if off else r

    def e_call_correlate(self, n, idx, env):
        mode, extra = n.attr
        if any(k not in ("method",) for k, _ in (extra or ())): return self.top(n, "correlate")
        a, b = n.args
        sa, sb = self.shape(a), self.shape(b)
        if sa is None or sb is None or len(sa) != 1 or len(sb) != 1: return self.top(n, "correlate")
        t = fresh_sym()
        x, y = self.at(a, (Dim.sym(t),), env), self.at(b, (Dim.sym(t),), env)
        out = P({})
        mp = {t: None}
        for m, c in x.d.items():
            for q, e in y.d.items():
                d1 = tuple(z for z in m if atom_mentions(z[0], mp)); i1 = tuple(z for z in m if z not in d1)
                d2 = tuple(z for z in q if atom_mentions(z[0], mp)); i2 = tuple(z for z in q if z not in d2)
                k1, k2 = bind(P({d1: 1.0}), [t]), bind(P({d2: 1.0}), [t])
                out = out + P({mono_mul(i1, i2): c * e}) * P.atom(("app", "correlate", mode, sa[0], sb[0], k1, k2, tuple(idx)))
        return out

    def e_call_fftfreq(self, n, idx, env):
        k = self.at(n.args[0], (), env)
        d = self.at(n.args[1], (), env)
        return P.atom(("app", "fftfreq", k.key(), tuple(idx))) * power(d, -1)

    def e_call_cumsum(self, n, idx, env):
        s = self.shape(n.args[0])
        if s is None or len(s) != 1: return self.top(n)
        t = fresh_sym()
        b = self.at(n.args[0], (Dim.sym(t),), env)
        return linear(b, t, lambda names, key: ("app", "cumsum", s[0], (names, key), tuple(idx)))

    def whole(self, n, idx, env):
        """Uninterpreted function of a whole array."""
        s = self.shape(n.args[0])
        if s is None or len(n.args) > 1: return self.top(n, n.op)
        ts = [fresh_sym() for _ in s]
        b = self.at(n.args[0], tuple(Dim.sym(t) for t in ts), env)
        names, key = bind(b, ts)
        return P.atom(("app", n.op.replace("call:", ""), repr(n.attr), s, (names, key), tuple(idx)))
    e_call_sort = e_argsort = e_unique = e_call_uniquerows = whole

    def pointwise(self, n, idx, env):
        nm = n.op.split(":")[-1]
        if n.attr: nm += repr(n.attr)
        a = [self.bc(x, n, idx, env) for x in n.args]
        if nm in ("minimum", "maximum"): a.sort(key=lambda p: p.key())
        return fn(nm, *a)
    e_call_minimum = e_call_maximum = e_call_clip = e_call_round = e_call_around = e_call_nan_to_num = e_call_hypot = e_call_fmod = e_call_heaviside = e_call_copysign = pointwise

    def e_call_flip(self, n, idx, env):
        s = self.shape(n.args[0])
        if s is None or len(n.args) > 1: return self.top(n, n.op)
        ax = dict(n.attr or ()).get("axis", "None")
        if ax == "None": axes = range(len(s))
        elif ax.lstrip("-").isdigit(): axes = [int(ax) % len(s)]
        else: return self.top(n, n.op)
        return self.at(n.args[0], tuple(s[k] - D1 - i if k in axes else i for k, i in enumerate(idx)), env)

    # -------------------------------------------------------------- loops
    def e_loopphi(self, n, idx, env):
        for nid, sym in self.phis:
            if nid == n.id: return P.atom(("phi", n.id, tuple(idx)))
        if len(n.args) < 2: return self.top(n, "loop")
        init, back = n.args
        key0 = n.attr[0]
        self.phis.append((n.id, None))
        try: b = self.bc(back, n, idx, env)
        finally: self.phis.pop()
        me = AT.get(("phi", n.id, tuple(idx)))
        rest = P({m: c for m, c in b.d.items() if not any(k == me for k, _ in m)})
        own = {m: c for m, c in b.d.items() if any(k == me for k, _ in m)}
        start = self.bc(init, n, idx, env)
        if any(AT.vals[k][0] == "phi" and AT.vals[k][1] == n.id for k in rest.atoms()): return self.top(n, "loop recurrence")
        if mentions_phi(rest, n.id): return self.top(n, "loop recurrence")
        li = self.loop_index(rest, n, key0)
        if own == {((me, 1),): 1.0}:
            if li is None:
                if not rest.d: return start
                return self.top(n, "accumulation without index")
            sym, trip = li
            return start + summation(rest, sym, trip)
        r = self.row_by_row(n, me, own, rest, idx, li)
        if r is not None: return r
        if not own:
            # overwritten every round: last value
            if li is None: return rest
        return self.top(n, "loop recurrence")

    def row_by_row(self, n, me, own, rest, idx, li):
        """Round i writes row i: the element is what its own round wrote."""
        if len(own) != 2 or own.get(((me, 1),)) != 1.0 or n.shape is None: return None
        d = next((m for m, c in own.items() if m != ((me, 1),) and c == -1.0), None)
        if d is None or len(d) != 2 or any(e != 1 for _, e in d): return None
        k = next(x for x, _ in d if x != me)
        a = AT.vals[k]
        if a[0] != "ind" or not isinstance(a[1], tuple) or a[1][0] != "eq": return None
        for l in self.loop_leaves(n):
            sym = (l.meta or {}).get("sym")
            trip = self.norm((l.meta or {}).get("trip"))
            if sym is None or trip is None: continue
            for j, i in enumerate(idx):
                q = dim_poly(i - Dim.sym(sym))
                if q.is_const() or self.norm(n.shape[j]) != trip: continue
                lead = q.d[min(q.d)]
                if P({m: c / lead for m, c in q.d.items()}).key() != a[1][1]: continue
                out = {}
                for m, c in rest.d.items():
                    if (k, 1) not in m: return None
                    out[tuple(x for x in m if x[0] != k)] = c
                return subst(P(out), {sym: i})
        return None

    def loop_index(self, p, n, key0):
        """The iteration index of the loop, as it occurs in an expression."""
        leafs = self.loop_leaves(n)
        for l in leafs:
            s = (l.meta or {}).get("sym") or (next(iter(l.ival.syms())) if l.ival is not None else None)
            if s is not None and p_mentions(p, {s: None}): return s, self.norm((l.meta or {}).get("trip"))
        return None

    def loop_leaves(self, n):
        out = []
        seen, todo = set(), [n.args[1]]
        key0 = n.attr[0]
        while todo:
            x = todo.pop()
            if x.id in seen: continue
            seen.add(x.id)
            if x.op == "leaf" and isinstance(x.attr, tuple) and x.attr[0] == "loopidx" and tuple(x.attr[1:]) == tuple(key0): out.append(x)
            todo += [a for a in x.args if isinstance(a, Node)]
        return out


def mentions_phi(p, nid):
    seen = set()
    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == "phi" and x[1] == nid: return True
            if x and x[0] == "poly": return any(walk(AT.vals[k]) for m, _ in x[1] for k, _ in m)
            return any(walk(y) for y in x)
        return False
    return any(walk(AT.vals[k]) for k in p.atoms() if not AT.vals[k][0] == "phi")


ARITH = {"add", "sub", "mul", "div", "neg", "pow", "floordiv", "mod", "cast", "trunc"}
UFN = {"absolute": "abs", "fabs": "abs", "acos": "arccos"}
