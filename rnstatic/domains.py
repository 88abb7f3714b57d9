"""Abstract domains evaluated on the value-flow graph after (or while) it is built."""
from .core import *

INF = float("inf")


class Domain:
    """Bottom-up evaluation with memoisation; loop nodes by a short ascending iteration, then top."""
    TOP = None
    ROUNDS = 4

    def __init__(self, I=None):
        self.I, self.memo, self.tmp, self.incomplete = I, {}, [], 0

    def join(self, a, b): return a if a == b else self.TOP

    def val(self, n):
        r = self.memo.get(n.id, NO)
        if r is not NO: return r
        for t in self.tmp:
            if n.id in t: return t[n.id]
        inc = self.incomplete
        if n.op == "loopphi": r = self.loop(n)
        elif n.op == "phi":
            r = self.val(n.args[0])
            for a in n.args[1:]: r = self.join(r, self.val(a))
            r = self.control(n, r)
        else:
            f = getattr(self, "op_" + n.op.replace(":", "_").replace(".", "_").replace("==", "eq").replace("<", "lt"), None)
            r = f(n) if f else self.default(n)
        if self.incomplete != inc: return r      # depends on a loop that is still being analysed
        if not self.tmp: self.memo[n.id] = r
        else: self.tmp[-1][n.id] = r
        return r

    def control(self, n, r): return r

    def loop(self, n):
        init = n.args[0] if n.args else n.meta.get("init")
        if len(n.args) < 2:
            self.incomplete += 1
            return self.TOP
        v = self.val(init)
        for _ in range(self.ROUNDS):
            self.tmp.append({n.id: v})
            w = self.join(v, self.val(n.args[1]))
            self.tmp.pop()
            if w == v: return v
            v = w
        return self.TOP

    def default(self, n): return self.TOP


class Range(Domain):
    """Closed interval containing every element (not-a-number excluded)."""
    def join(self, a, b):
        if a is None or b is None: return None
        return (min(a[0], b[0]), max(a[1], b[1]))

    def op_const(self, n):
        return (float(n.const), float(n.const)) if isinstance(n.const, (int, float)) and not isinstance(n.const, bool) else None

    def one(self, x): return x.const is not NO and x.const == 1 and not isinstance(x.const, bool)

    def op_mod(self, n):
        b = self.val(n.args[1])
        return (0.0, b[1]) if b is not None and b[0] > 0 else None

    def op_sub(self, n):
        x, y = n.args
        if y.op == "floordiv" and y.args[0] is x and self.one(y.args[1]): return (0.0, 1.0)
        z = y
        while z.op == "cast" or z.op == "mul" and self.one(z.args[1]): z = z.args[0]
        if z.op in ("u:floor", "floor", "u:ceil", "ceil", "u:rint", "u:round", "round", "u:around"):
            lo = {"floor": 0.0, "ceil": -1.0}.get(z.op.split(":")[-1], -0.5)
            if z.args[0] is x: return (lo, lo + 1)
            w = z.args[0]
            if w.op in ("add", "sub") and len(z.args) == 1:
                for i in (0, 1):
                    if w.args[i] is x and isinstance(w.args[1 - i].const, (int, float)) and (w.op == "add" or i == 0):
                        k = w.args[1 - i].const * (1 if w.op == "add" else -1)
                        return (lo - k, lo + 1 - k)
        a, b = self.val(x), self.val(y)
        return (a[0] - b[1], a[1] - b[0]) if a and b else None

    def op_add(self, n):
        a, b = map(self.val, n.args)
        return (a[0] + b[0], a[1] + b[1]) if a and b else None

    def op_where(self, n):
        c, vs = n.args[0], []
        for a, pol in ((n.args[1], True), (n.args[2], False)):
            v = self.val(a)
            w = self.under(a, c, pol)
            if v is None or w is not None and w != "never": v = w if v is None else (max(v[0], w[0]), min(v[1], w[1]))
            if w == "never" or v is not None and v[0] > v[1]: continue
            vs.append(v)
        if not vs: return None
        r = vs[0]
        for v in vs[1:]: r = self.join(r, v)
        return r

    def under(self, n, c, pol):
        """Interval of n where c has the given truth value."""
        while c.op == "not": c, pol = c.args[0], not pol
        if (c.op == "and" and pol) or (c.op == "or" and not pol):
            ws = [w for w in (self.under(n, a, pol) for a in c.args) if w is not None]
            if "never" in ws: return "never"
            return (max(w[0] for w in ws), min(w[1] for w in ws)) if ws else None
        if c.op not in ("cmp:<", "cmp:<="): return None
        off, x = 0.0, n
        while x.op in ("add", "sub"):
            k = [i for i in (0, 1) if x.args[i].const is not NO and isinstance(x.args[i].const, (int, float))]
            if not k or x.op == "sub" and k[0] == 0: break
            off += x.args[k[0]].const * (1 if x.op == "add" else -1); x = x.args[1 - k[0]]
        a, b = c.args
        for i, y in enumerate((a, b)):
            o = self.val(c.args[1 - i])
            if y is not x or o is None: continue
            v = self.val(x) or (-float("inf"), float("inf"))
            below = (i == 0) == pol            # x < o (or <=)
            w = (v[0], min(v[1], o[1])) if below else (max(v[0], o[0]), v[1])
            return "never" if w[0] > w[1] else (w[0] + off, w[1] + off)
        return None

    def op_update(self, n): return self.join(self.val(n.args[0]), self.val(n.args[1]))
    def many(self, n):
        r = self.val(n.args[0])
        for a in n.args[1:]: r = self.join(r, self.val(a))
        return r
    op_stackx = op_concat = many
    def same(self, n): return self.val(n.args[0]) if n.args else None
    op_index = op_reshape = op_transpose = op_expand = op_full = op_stack = op_cast = op_part = op_concatl = op_tile = op_iterelem = op_repeat_interleave = same
    def op_neg(self, n):
        v = self.val(n.args[0])
        return None if v is None else (-v[1], -v[0])

    def elements(self, n):
        """True/False when every element of a boolean array has that value."""
        if n.op in ("or", "and"):
            ts = [self.elements(a) for a in n.args]
            if n.op == "or": return True if True in ts else (False if all(t is False for t in ts) else None)
            return False if False in ts else (True if all(t is True for t in ts) else None)
        if n.op == "not":
            t = self.elements(n.args[0])
            return None if t is None else not t
        return self.decide(n)

    def decide(self, n):
        """True/False when a comparison has that outcome for every element."""
        if n.op not in ("cmp:<", "cmp:<="): return None
        a, b = map(self.val, n.args)
        if a is None or b is None: return None
        if a[1] < b[0]: return True
        if (a[0] >= b[1]) if n.op == "cmp:<" else (a[0] > b[1]): return False
        return None


class Degree(Domain):
    """Set of weights with which a value responds to a one-parameter change of marked inputs.

    Structural operations pass the weights of their data through; operations applied to unaffected
    values give unaffected values; everything else is unknown."""
    DATA = {"index", "reshape", "transpose", "expand", "full", "stack", "cast", "part", "concatl", "tile", "iterelem", "stackx", "concat", "item", "squeeze", "update"}
    ZERO = frozenset([0])

    def __init__(self, I, st=None):
        super().__init__(I); self.st, self.why = st, []

    def join(self, a, b): return self.TOP if a is self.TOP or b is self.TOP else a | b

    def leaf(self, n): return self.ZERO

    def op_leaf(self, n): return self.leaf(n)
    def op_const(self, n): return self.ZERO

    def unknown(self, n, why=""):
        self.why.append(f"{n.op} at {n.site} {why}")
        return self.TOP

    def op_update(self, n):
        r = self.join(self.val(n.args[0]), self.val(n.args[1]))
        if n.args[0].op in ("uninit",): r = self.val(n.args[1])
        return r if all(self.val(a) == self.ZERO for a in n.args[2:]) else self.unknown(n, "index depends on marked input")

    def data(self, n):
        k = len(n.args) if n.op in ("stackx", "concat", "concatl") else 1
        r = frozenset()
        for a in n.args[:k]: r = self.join(r, self.val(a))
        for a in n.args[k:]:
            if self.val(a) != self.ZERO: return self.unknown(n, "index depends on marked input")
        return r

    def default(self, n):
        if n.op in self.DATA: return self.data(n)
        if n.const is not NO: return self.ZERO
        vs = [self.val(a) for a in n.args if isinstance(a, Node)]
        if n.op == "top": return self.unknown(n, str(n.attr))
        if all(v == self.ZERO or v == frozenset() for v in vs): return self.ZERO
        if any(v is self.TOP for v in vs): return self.TOP
        return self.unknown(n)

    def op_where(self, n):
        if self.val(n.args[0]) != self.ZERO: return self.unknown(n, "condition depends on marked input")
        return self.join(self.val(n.args[1]), self.val(n.args[2]))

    def op_list(self, n):
        r = frozenset()
        for a in n.args: r = self.join(r, self.val(a))
        return r or self.ZERO
    op_tuple = op_list


class Offset(Degree):
    """Multiples of a constant that was added to the marked leaves."""
    def __init__(self, I, st=None, marked=("ref_polarizability",)):
        super().__init__(I, st); self.marked = set(marked)

    def leaf(self, n): return frozenset([1]) if isinstance(n.attr, str) and n.attr.split(".")[-1].replace("[]", "") in self.marked else self.ZERO

    FAITHFUL = {"norm", "abs", "u:abs", "u:absolute", "u:fabs", "max", "min", "amax", "amin", "sum", "mean", "u:sqrt", "u:square", "any", "all", "not", "and", "or", "cast", "index", "item", "reshape", "trace", "std", "var",
                "iterelem", "isclose", "allclose", "pow", "mul", "div", "u:log"}

    def decided(self, c, depth=0):
        """Does a decision depend on the constant that was added?  (None: cannot tell)"""
        if c.op.startswith("cmp:") and len(c.args) == 2:
            v = self.pairs_of(c, self.minus)
            if v is not self.TOP and v: return v != self.ZERO
        else:
            v = self.val(c)
            if v is not self.TOP: return v != self.ZERO and v != frozenset()
        if depth < 12 and (c.op in self.FAITHFUL or c.op.startswith("cmp:")):
            ds = [self.decided(a, depth + 1) for a in c.args if isinstance(a, Node)]
            if ds.count(True) == 1 and all(d is not None for d in ds): return True
        return None

    def pairs_of(self, n, f):
        a, b = self.val(n.args[0]), self.val(n.args[1])
        if a is self.TOP or b is self.TOP: return self.TOP
        r = frozenset(f(x, y) for x in a for y in b)
        return self.TOP if None in r else r

    def control(self, n, r):
        sel = self.I.g.sels.get(n.id)
        if sel is None or r is self.TOP or sel[0].dt != "b": return r
        d = self.decided(sel[0])
        if d is None: return self.unknown(n, "value chosen by a decision that may depend on marked input")
        return r | {"?"} if d else r

    # a weight is a number k (the value shifts by k times the constant) or "L" (by some other linear image of it)
    def pairs(self, n, f):
        a, b = self.val(n.args[0]), self.val(n.args[1])
        if a is self.TOP or b is self.TOP: return self.TOP
        r = frozenset(f(x, y) for x in a for y in b)
        return self.unknown(n, "difference of linear images") if None in r else r

    @staticmethod
    def plus(x, y): return "?" if "?" in (x, y) else x + y if x != "L" and y != "L" else "L"

    @staticmethod
    def minus(x, y):
        if "?" in (x, y): return "?"
        if x == "L" and y == "L": return None
        return x - y if x != "L" and y != "L" else "L"

    def op_add(self, n): return self.pairs(n, self.plus)
    def op_sub(self, n): return self.pairs(n, self.minus)

    def scaled(self, k, v): return frozenset(0 if k == 0 else d if d in ("L", "?") else k * d for d in v)

    def op_neg(self, n):
        a = self.val(n.args[0])
        return a if a is self.TOP else self.scaled(-1, a)

    def image(self, n):
        """Multiplication by something that does not depend on the marked inputs."""
        vs = [self.val(a) for a in n.args]
        if any(v is self.TOP for v in vs): return self.TOP
        hit = [v for v in vs if v != self.ZERO and v != frozenset()]
        if not hit: return self.ZERO
        if len(hit) > 1: return self.unknown(n, "product of marked values")
        return frozenset(0 if d == 0 else d if d == "?" else "L" for d in hit[0])
    op_matmul = op_einsum = image

    def op_mul(self, n):
        a, b = self.val(n.args[0]), self.val(n.args[1])
        if a is self.TOP or b is self.TOP: return self.TOP
        for x, v in ((n.args[0], b), (n.args[1], a)):
            if x.const is not NO and isinstance(x.const, (int, float)): return self.scaled(x.const, v)
        return self.image(n)

    def op_div(self, n):
        a, b = self.val(n.args[0]), self.val(n.args[1])
        if a is self.TOP or b is self.TOP: return self.TOP
        if b != self.ZERO: return self.unknown(n)
        c = n.args[1].const
        return self.scaled(1 / c, a) if c is not NO and isinstance(c, (int, float)) and c else self.image(n)

    def op_splineval(self, n):
        """Interpolation is linear in the ordinates and reproduces constants."""
        if any(self.val(a) != self.ZERO for a in n.args[1:]): return self.unknown(n)
        return self.val(n.args[0])

    def op_spline(self, n):
        x, y = self.val(n.args[0]), self.val(n.args[1])
        if x is self.TOP or y is self.TOP: return self.TOP
        if x != self.ZERO: return self.unknown(n, "abscissae depend on marked input")
        return y if len(y) <= 1 else frozenset(["?" if "?" in y else "L"])

    def op_mean(self, n): return self.val(n.args[0])
    def op_diff(self, n):
        a = self.val(n.args[0])
        if a is self.TOP or "L" in a and len(a) == 1: return a if a is self.TOP else self.unknown(n)
        return frozenset(["?" if "?" in a else "L"]) if len(a) > 1 or "?" in a else self.ZERO
