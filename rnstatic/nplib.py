"""Array semantics (numpy and torch): shapes, dtypes, aliasing, canonical value nodes."""
from __future__ import annotations
import math
from .core import *
from .core import _SYM_MIN

FULL = ("s", None, None, None)
UN = {"sqrt", "abs", "exp", "log", "sin", "cos", "tan", "sign", "floor", "ceil", "rint", "tanh", "sigmoid", "real", "imag", "isnan", "isfinite",
      "square", "round", "trunc", "conj", "isinf", "log10", "log2", "sinh", "cosh", "arctan", "arccos", "arcsin", "softplus", "reciprocal", "invert"}
UN_ALIAS = {"absolute": "abs", "fabs": "abs", "conjugate": "conj", "around": "round", "logical_not": "not", "negative": "neg", "acos": "arccos", "asin": "arcsin", "atan": "arctan"}
BIN = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "div", "FloorDiv": "floordiv", "Mod": "mod", "Pow": "pow", "MatMult": "matmul",
       "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "LShift": "lsh", "RShift": "rsh"}
BIN_F = {"add": "Add", "subtract": "Sub", "sub": "Sub", "multiply": "Mult", "mul": "Mult", "divide": "Div", "true_divide": "Div", "div": "Div",
         "floor_divide": "FloorDiv", "mod": "Mod", "remainder": "Mod", "power": "Pow", "pow": "Pow", "float_power": "Pow", "matmul": "MatMult", "mm": "MatMult", "bmm": "MatMult",
         "logical_and": "BitAnd", "logical_or": "BitOr", "logical_xor": "BitXor", "bitwise_and": "BitAnd", "bitwise_or": "BitOr"}
CMPF = {"equal": "Eq", "not_equal": "NotEq", "less": "Lt", "less_equal": "LtE", "greater": "Gt", "greater_equal": "GtE", "eq": "Eq", "ne": "NotEq", "lt": "Lt", "le": "LtE", "gt": "Gt", "ge": "GtE"}
RED = {"sum", "mean", "max", "min", "any", "all", "std", "var", "argmax", "argmin", "prod", "amax", "amin", "median", "nansum", "count_nonzero", "ptp"}
RANK = {"b": 0, "i": 1, "n": 2, "f": 3, "c": 4}


def jnum(a, b):
    if a is None or b is None: return None
    if a == b: return a
    if a in RANK and b in RANK:
        if "n" in (a, b) and RANK[a] < 3 and RANK[b] < 3: return "n"
        return a if RANK[a] >= RANK[b] else b
    return None


ALIASING = {"asarray", "asanyarray", "from_numpy", "as_tensor", "ascontiguousarray", "atleast_1d", "atleast_2d", "require", "ravel", "squeeze", "reshape", "transpose", "swapaxes", "permute", "moveaxis", "unsqueeze", "flatten", "detach", "expand_dims", "broadcast_to", "real", "split", "array_split", "chunk", "diagonal", "array"}

# keywords without influence on the value
HARMLESS = {"order", "copy", "subok", "like", "device", "requires_grad", "memory_format", "casting", "assume_unique", "kind", "overwrite_x", "overwrite_a", "overwrite_b", "check_finite",
            "optimize", "hermitian", "non_blocking", "layout", "pin_memory"}
SAMESHAPE = {"where", "initial", "dtype", "rounding_mode"}


class Kw(dict):
    """Keyword arguments that remember which of them were looked at."""
    def __init__(self, d):
        super().__init__(d)
        self.used = d.used if isinstance(d, Kw) else set()

    def get(self, k, default=None):
        self.used.add(k); return super().get(k, default)

    def __getitem__(self, k):
        self.used.add(k); return super().__getitem__(k)

    def __contains__(self, k):
        if super().__contains__(k): self.used.add(k); return True
        return False

    def pop(self, k, *d):
        self.used.add(k); return super().pop(k, *d)

    def items(self):
        self.used.update(self); return super().items()

    def values(self):
        self.used.update(self); return super().values()

    def __or__(self, o):
        self.used.update(self); return super().__or__(o)


class NpMixin:
    def init_np(self): self._subst_memo = {}

    # ------------------------------------------------------------ conversions
    def arr(self, v, st):
        """node of an array-like value (lists become stacks)"""
        I, g = self.I, self.g
        if isinstance(v, Node): return v
        o = I.obj(v, st)
        if isinstance(o, ArrO): return I.content(st, v)
        if isinstance(v, TupleV) or isinstance(o, ListO):
            items = list(v.items) if isinstance(v, TupleV) else (list(o.items) if o.items is not None else None)
            if isinstance(o, ListO) and o.kind in ("range",):
                ln = st.norm(o.length)
                return g.mk("arange", [], (o.src[0], o.src[1]), (ln,) if ln is not None else None, "i")
            if isinstance(o, ListO) and o.kind in ("set", "zip", "enum", "iter"):
                return g.mk("pyobj", [I.node_of(v, st)], None, (), "o")
            if items is not None:
                ns = [self.arr(x, st) for x in items]
                if not ns: return g.mk("empty", [], None, (D0,), "f")
                sh, dt = ns[0].shape, ns[0].dt
                for n in ns[1:]:
                    if n.shape is None or sh is None: sh = None if sh is None or n.shape is None else sh
                    elif len(n.shape) != len(sh): I.must_raise(st, "ValueError", "inhomogeneous array")
                    else:
                        out = []
                        for a, b in zip(sh, n.shape):
                            out.append(self.same_dim(a, b, st, "inhomogeneous array"))
                        sh = tuple(out)
                    dt = jnum(dt, n.dt) if dt != n.dt else dt
                return g.mk("stackx", ns, None, (Dim.const(len(ns)),) + sh if sh is not None else None, dt)
            ln = st.norm(o.length) if o.length is not None else self.fresh_len(("arrlen", getattr(v, "oid", 0)))
            if o.elem is None: return g.mk("empty", [], None, (ln,), "f")
            if isinstance(o.elem, Union):
                e = None
                for x in sorted(o.elem.vals, key=repr): e = self.arr(x, st) if e is None else g.phi(e, self.arr(x, st))
            else: e = self.arr(o.elem, st)
            fx = I.fixed.get(v.oid, {}) if isinstance(v, Ref) else {}
            same = {s for s, d in fx.items() if d is not None}
            ragged = self.ragged(o.elem, st, same)
            if ragged: I.may_raise(st, "ValueError", "inhomogeneous array", {s for d in e.shape or () for s in d.syms() | st.norm(d).syms()})
            if same and e.shape is not None:
                sh = tuple(d.subst({s: fx[s] for s in same}) for d in e.shape)
                if sh != e.shape: return g.mk("stack", [e, o.src if isinstance(o.src, Node) else g.leaf(("elemidx", getattr(v, "oid", 0)), (), "i")], None, (ln,) + sh, e.dt)
            sh = (ln,) + e.shape if e.shape is not None else None
            idx = o.src if isinstance(o.src, Node) else g.leaf(("elemidx", getattr(v, "oid", 0)), (), "i")
            r = g.mk("stack", [e, idx], None, sh, e.dt)
            if e.shape: r.meta = dict(r.meta or {}, rows=True)      # without rows the array has a single axis
            return r
        if isinstance(v, Union):
            r = None
            if v.sel is not None: return g.select(v.sel[0], self.arr(v.sel[1], st), self.arr(v.sel[2], st))
            sides, g.sides = g.sides, (st, st)
            try:
                for x in sorted(v.vals, key=repr):
                    n = self.arr(x, st); r = n if r is None else g.phi(r, n)
            finally: g.sides = sides
            return r
        n = I.node_of(v, st)
        if isinstance(o, (InstO, DictO)) and "__node__" not in getattr(o, "fields", {}): return g.mk("pyobj", [n], None, (), "o")
        return n

    def ragged(self, e, st, same=()):
        """may instances of this loop element have different lengths?"""
        o = self.I.obj(e, st)
        if isinstance(o, ListO) and o.items is None:
            if o.length is None: return True
            d = st.norm(o.length)
            return any(s.startswith(("~sp", "~n", "~jd", "~L", "~lv", "~")) for s in d.syms()) or self.ragged(o.elem, st)
        if isinstance(o, ArrO):
            s = self.I.content(st, e).shape
            return s is None or any(x.startswith("~") and x not in same for d in s for x in st.norm(d).syms())
        if isinstance(o, ListO): return any(self.ragged(x, st) for x in o.items)
        return False

    def same_dim(self, a, b, st, why):
        a, b = st.norm(a), st.norm(b)
        if a == b: return a
        s = dim_sign(a - b, st.mins)
        if s in ("+", "-"): self.I.must_raise(st, "ValueError", why)
        self.I.may_raise(st, "ValueError", why, a.syms() | b.syms())
        self.I.equate(a - b, st)
        return st.norm(a)

    def wrap(self, n, st, key="r", lib="np"):
        """fresh array object, or a scalar node"""
        if n.shape == (): 
            if lib == "torch": return self.I.new_arr(st, n, key, None, "torch")
            return n
        return self.I.new_arr(st, n, key, None, lib)

    def libof(self, *vs, st):
        for v in vs:
            for x in (v.vals if isinstance(v, Union) else [v]):
                o = self.I.obj(x, st)
                if isinstance(o, ArrO) and o.lib == "torch": return "torch"
        return "np"

    # ------------------------------------------------------------ shapes
    def bcast(self, sa, sb, st, why="operands could not be broadcast"):
        I = self.I
        if sa is None or sb is None: return None
        out = []
        la, lb = len(sa), len(sb)
        for i in range(max(la, lb)):
            a = st.norm(sa[la - 1 - i]) if i < la else D1
            b = st.norm(sb[lb - 1 - i]) if i < lb else D1
            if a == b or b == D1: out.append(a)
            elif a == D1: out.append(b)
            else:
                s = dim_sign(a - b, st.mins)
                big = [dim_sign(x - Dim.const(2), st.mins) in ("+", "0", ">=") or dim_sign(x - D1, st.mins) == "-" for x in (a, b)]
                if s in ("+", "-") and all(big): I.must_raise(st, "ValueError", why)
                I.may_raise(st, "ValueError", why, a.syms() | b.syms())
                if all(big) or (not a.is_const() and not b.is_const()):
                    try: I.equate(a - b, st)
                    except Exception as e:
                        if type(e).__name__ != "DeadFlow": raise
                        raise
                    out.append(st.norm(a))
                else: out.append(a if a.is_const() else b)
        return tuple(reversed(out))

    # ------------------------------------------------------------ elementwise
    def addi(self, a, b):
        if a.const is not NO and b.const is not NO: return self.const(a.const + b.const)
        if b.const == 0: return a
        if a.const == 0: return b
        iv = a.ival + b.ival if a.ival is not None and b.ival is not None else None
        if iv is not None and iv.is_const(): return self.const(iv.value())
        return self.g.mk("add", [a, b], None, (), jnum(a.dt, b.dt), iv)

    def np_unop(self, op, v, st):
        n = self.arr(v, st)
        lib = self.libof(v, st=st)
        if op == "UAdd": return self.wrap(n, st, "uadd", lib) if not isinstance(v, Node) else v
        if op == "USub":
            if n.dt in ("s", "N"): self.I.must_raise(st, "TypeError", "bad operand type for unary -")
            if n.const is not NO: return self.const(-n.const)
            if n.op == "neg": r = n.args[0]
            else: r = self.g.mk("neg", [n], None, n.shape, "i" if n.dt == "b" else n.dt, -n.ival if n.ival is not None else None)
            return r if isinstance(v, Node) else self.wrap(r, st, "neg", lib)
        if op == "Invert":
            r = self.g.mk("not", [n], None, n.shape, n.dt) if n.op != "not" else n.args[0]
            return r if isinstance(v, Node) else self.wrap(r, st, "inv", lib)
        return self.I.top("unop")

    def elem(self, op, a, b, st):
        """node of the elementwise operation (python name of the operator)"""
        I, g = self.I, self.g
        if op == "MatMult": return self.matmul(a, b, st)
        name = BIN.get(op, op)
        for x in (a, b):
            if x.dt in ("s", "N", "o") and x.shape in ((), None): I.must_raise(st, "TypeError", f"unsupported operand type for {op}")
        shape = self.bcast(a.shape, b.shape, st)
        if a.const is not NO and b.const is not NO and isinstance(a.const, (int, float, bool)) and isinstance(b.const, (int, float, bool)):
            import operator as o
            f = {"add": o.add, "sub": o.sub, "mul": o.mul, "div": o.truediv, "floordiv": o.floordiv, "mod": o.mod, "pow": o.pow, "and": o.and_, "or": o.or_}.get(name)
            try:
                if f: return self.const(f(a.const, b.const))
            except ZeroDivisionError: I.must_raise(st, "ZeroDivisionError", "division by zero")
            except Exception: pass
        dt = jnum(a.dt, b.dt)
        iv = None
        if shape == () and a.ival is not None and b.ival is not None:
            if name == "add": iv = a.ival + b.ival
            elif name == "sub": iv = a.ival - b.ival
            elif name == "mul": iv = a.ival * b.ival
            elif name == "floordiv" and b.ival.is_const() and b.ival.value(): iv = a.ival.div(b.ival)
            if iv is not None: iv = st.norm(iv)
            if iv is not None and iv.is_const(): return self.const(iv.value())
        if name == "div":
            dt = "c" if dt == "c" else ("f" if dt is not None else None)
            if shape == () and b.ival is not None and dim_sign(st.norm(b.ival), st.mins) == "0": I.must_raise(st, "ZeroDivisionError", "division by zero")
        elif name in ("add", "sub", "mul", "pow", "floordiv", "mod") and dt == "b": dt = "i"
        if name == "pow" and dt == "i" and a.shape not in ((), None) and isinstance(b.const, int) and b.const < 0:
            I.must_raise(st, "ValueError", "integers to negative integer powers are not allowed")
        if iv is not None and name in ("add", "sub", "mul"): return g.dim(iv) if a.op in ("dim", "const") and b.op in ("dim", "const") else g.mk(name, [a, b], None, shape, dt, iv)
        return g.mk(name, [a, b], None, shape, dt, iv)

    def np_binop(self, op, a, b, st):
        ta, tb = self.arr(a, st), self.arr(b, st)
        r = self.elem(op, ta, tb, st)
        if isinstance(a, Node) and isinstance(b, Node) and (r.shape == () or (a.shape is None or b.shape is None)):
            return r
        return self.wrap(r, st, "bin" + op, self.libof(a, b, st=st))

    def np_inplace(self, op, a, b, st):
        I = self.I
        cur = I.content(st, a)
        I.mutated(st, a, BIN.get(op, op) + "=")
        r = self.elem(op, cur, self.arr(b, st), st)
        if cur.shape is not None and r.shape is not None:
            if len(r.shape) != len(cur.shape): I.must_raise(st, "ValueError", "non-broadcastable output operand")
            for x, y in zip(cur.shape, r.shape):
                if dim_sign(st.norm(x) - st.norm(y), st.mins) in ("+", "-"): I.must_raise(st, "ValueError", "non-broadcastable output operand")
            r = self.reshaped(r, cur.shape)
        if cur.dt in ("i", "b") and r.dt in ("f", "c") or cur.dt == "b" and r.dt == "i":
            I.event("cast", st, what="in-place operation stores float into integer array")
            I.must_raise(st, "numpy._core._exceptions._UFuncOutputCastingError", "cannot cast ufunc output from float to int")
        I.set_content(st, a, self.casted(r, cur.dt))
        return a

    def reshaped(self, n, shape): 
        return n
    def casted(self, n, dt):
        return n

    # ------------------------------------------------------------ comparisons
    def np_cmp(self, op, a, b, st):
        I, g = self.I, self.g
        ta, tb = self.arr(a, st), self.arr(b, st)
        if ta.dt == "s" or tb.dt == "s" or ta.dt == "N" or tb.dt == "N":
            if op not in ("Eq", "NotEq"): I.must_raise(st, "TypeError", f"'{op}' not supported between these types")
            o = I.obj(a, st) if isinstance(a, Ref) else I.obj(b, st)
            if isinstance(o, ArrO) and o.lib == "np":      # numpy compares elementwise against a string -> all unequal
                arr_n = ta if isinstance(a, Ref) else tb
                n = g.mk("full", [self.const(op == "NotEq")], None, arr_n.shape, "b")
                return self.wrap(n, st, "cmp")
            return self.const(op == "NotEq")
        shape = self.bcast(ta.shape, tb.shape, st)
        if op in ("Gt", "LtE"): ta, tb = tb, ta; base = "cmp:<"; neg = op == "LtE"
        elif op in ("Lt", "GtE"): base = "cmp:<"; neg = op == "GtE"
        else: base = "cmp:=="; neg = op == "NotEq"
        if ta.const is not NO and tb.const is not NO:
            try:
                r = (ta.const < tb.const) if base == "cmp:<" else ta.const == tb.const
                return self.const(bool(r) != neg)
            except TypeError: pass
        if base == "cmp:==" and ta.id > tb.id: ta, tb = tb, ta
        n = g.mk(base, [ta, tb], None, shape, "b")
        if shape == ():
            d = self.decide_cmp(n, st)
            if d is not None: return self.const(d != neg)
        if neg: n = g.mk("not", [n], None, shape, "b")
        if isinstance(a, Node) and isinstance(b, Node): return n
        return self.wrap(n, st, "cmp", self.libof(a, b, st=st))

    def cmp_node(self, op, a, b, st):
        if a.id > b.id: a, b = b, a
        n = self.g.mk("cmp:" + op, [a, b], None, (), "b")
        d = self.decide_cmp(n, st)
        return n if d is None else d

    def decide_cmp(self, n, st):
        a, b = n.args
        if n.op == "cmp:==" and a is b and a.dt in ("i", "s", "b"): return True
        if a.ival is not None and b.ival is not None and a.shape == () and b.shape == ():
            d = st.norm(a.ival) - st.norm(b.ival)
            s = dim_sign(d, st.mins)
            if n.op == "cmp:==":
                if s == "0": return True
                if s in ("+", "-"): return False
            else:
                if s == "-": return True
                if s in ("+", "0", ">="): return False
            # a loop index is below its trip count
            for x, y, flip in ((a, b, False), (b, a, True)):
                if x.op == "leaf" and x.attr and x.attr[0] == "loopidx" and x.meta.get("trip") is not None:
                    dd = dim_sign(st.norm(y.ival) - st.norm(x.meta["trip"]), st.mins)
                    if dd in ("0", "+", ">="):
                        if n.op == "cmp:==": return False
                        return (not flip)
        if n.op == "cmp:==":
            for x, y in ((a, b), (b, a)):
                if x.dt == "s" and y.const == "" and self.str_nonempty(x, st): return False
        return None

    # ------------------------------------------------------------ indexing
    def norm_spec(self, ix, n, st):
        """(spec, argnodes, adv) of a subscript applied to node n"""
        I = self.I
        ents = list(ix.items) if isinstance(ix, TupleV) else [ix]
        spec, args = [], []
        adv = False
        def bound(v):
            k = I.node_of(v, st)
            if k.dt == "N": return None
            if k.ival is not None: return st.norm(k.ival)
            if k.dt in ("f", "s"): I.must_raise(st, "TypeError", "slice indices must be integers")
            args.append(k); return ("k", len(args) - 1)
        nax = sum(1 for e in ents if isinstance(e, Node) and e.dt == "N")
        real = len(ents) - nax - sum(1 for e in ents if e == ExtV("builtins.Ellipsis"))
        for e in ents:
            if e == ExtV("builtins.Ellipsis"):
                if n.shape is not None: spec += [FULL] * (len(n.shape) - real)
                else: spec.append(("e",))
            elif isinstance(e, SliceV): 
                s = (bound(e.lo), bound(e.hi), bound(e.step))
                if s[0] == D0: s = (None,) + s[1:]
                if s[2] == D1: s = s[:2] + (None,)
                spec.append(("s",) + s)
            elif isinstance(e, Node) and e.dt == "N": spec.append(("n",))
            else:
                k = self.arr(e, st) if not isinstance(e, Node) else e
                if k.shape == ():
                    if k.dt in ("f", "s") : I.must_raise(st, "IndexError", "only integers, slices, ellipsis, newaxis and arrays are valid indices")
                    if k.dt == "b": adv = True; args.append(k); spec.append(("a", len(args) - 1)); continue
                    if k.const is not NO and isinstance(k.const, int): spec.append(("c", k.const))
                    else: args.append(k); spec.append(("i", len(args) - 1))
                else:
                    if isinstance(k, Node) and k.shape is None and k.dt in ("i",) : 
                        pass
                    if k.dt in ("f", "s", "o") and k.op != "empty": I.must_raise(st, "IndexError", "arrays used as indices must be of integer (or boolean) type")
                    adv = True; args.append(k); spec.append(("a", len(args) - 1))
        while spec and spec[-1] == FULL and n.shape is not None and len(spec) > 1: spec.pop()
        return tuple(spec), args, adv

    def axis_check(self, k, d, st):
        I = self.I
        d = st.norm(d)
        if isinstance(k, int):
            need = Dim.const(k + 1) if k >= 0 else Dim.const(-k)
            s = dim_sign(d - need, st.mins)
            if s == "-": I.must_raise(st, "IndexError", "index is out of bounds")
            if s not in ("+", "0", ">="):
                I.may_raise(st, "IndexError", "index is out of bounds", d.syms()); I.atleast(d - need, st)
        else:
            self.check_index(k, d, st, "index is out of bounds")

    def count_true(self, n, st):
        """How many elements of a boolean array are True. Known for the sign of a frequency axis (positive sampling distance)."""
        c = self.frequency_sign(n)
        if c is None: return new_sym(f"~mask{n.id}", 0)
        how, d = c
        d = st.norm(d)
        if d.is_const():
            k = d.value()
            return Dim.const({">=": (k + 1) // 2, ">": max((k + 1) // 2 - 1, 0), "<": k // 2, "<=": k // 2 + (k > 0)}[how])
        low = dim_sign(d, st.mins) == "+"
        nonneg = new_sym(("half up", d), 1 if low else 0)
        if how == ">=": return nonneg
        if how == ">" and low: return nonneg - D1
        if how == "<": return d - nonneg
        return new_sym(f"~mask{n.id}", 0)

    def frequency_sign(self, n):
        if n.op == "not":
            c = self.frequency_sign(n.args[0])
            return c and ({">=": "<", "<": ">=", ">": "<=", "<=": ">"}[c[0]], c[1])
        if n.op not in ("cmp:<", "cmp:<=") : return None
        a, b = n.args
        zero = lambda x: x.is_const() and not isinstance(x.const, (bool, str)) and x.const == 0
        if zero(b): x, how = a, n.op[4:]
        elif zero(a): x, how = b, {"<": ">", "<=": ">="}[n.op[4:]]
        else: return None
        while x.op in ("mul", "div"):
            p, q = x.args
            pos = lambda y: y.is_const() and isinstance(y.const, (int, float)) and y.const > 0
            if pos(q): x = p
            elif x.op == "mul" and pos(p): x = q
            else: return None
        if x.op != "call:fftfreq" or x.shape is None or len(x.shape) != 1: return None
        return how, x.shape[0]

    def slice_len(self, s, d, st):
        _, lo, hi, step = s
        d = st.norm(d)
        if lo is None and hi is None and step is None: return d
        if lo is None and hi is None and step == Dim.const(-1): return d
        if step is not None: return new_sym(("sl", s, d))
        if any(isinstance(x, tuple) for x in (lo, hi)): return new_sym(("sl", s, d, self.I.ctx, self.I.cur))
        lo = D0 if lo is None else lo
        if lo.is_const() and lo.value() < 0: lo = d + lo
        hi = d if hi is None else hi
        if hi.is_const() and hi.value() < 0: hi = d + hi
        over = dim_sign(d - hi, st.mins)
        if over not in ("+", "0", ">="):
            if over == "-" or over == "<=": hi = d
            else: return new_sym(("sl", lo, hi, d))
        ln = hi - lo
        sg = dim_sign(ln, st.mins)
        if sg in ("+", "0", ">="): return ln
        if sg in ("-", "<="): return D0
        return new_sym(("sl", lo, hi, d))

    def index_shape(self, shape, spec, args, st, check=True, torch=False):
        """shape of x[spec]; raises IndexError when definite"""
        I = self.I
        if shape is None or ("e",) in spec: return None
        used = 0
        for e in spec:
            if e[0] == "n": continue
            used += 1
            if e[0] == "a" and args[e[1]].dt == "b" and args[e[1]].shape: used += len(args[e[1]].shape) - 1
        if used > len(shape): 
            I.must_raise(st, "IndexError", "too many indices for array")
        out, ax, advs, advpos, contiguous, last_adv = [], 0, [], None, True, None
        for pos, e in enumerate(spec):
            if e[0] == "n": out.append(D1); continue
            if e[0] == "s": out.append(self.slice_len(e, shape[ax], st)); ax += 1; continue
            if e[0] in ("c", "i"):
                if check: self.axis_check(e[1] if e[0] == "c" else args[e[1]], shape[ax], st)
                if any(x[0] == "a" for x in spec): advs.append(()); advpos = len(out) if advpos is None else advpos
                ax += 1; continue
            k = args[e[1]]
            if k.dt == "b" and k.shape is not None:
                if check:
                    for j, dd in enumerate(k.shape):
                        if ax + j < len(shape) and dim_sign(st.norm(shape[ax + j]) - st.norm(dd), st.mins) in ("+", "-") and st.norm(dd) != D1:
                            I.must_raise(st, "IndexError", "boolean index did not match")
                nl = self.count_true(k, st)
                advs.append((nl,)); ax += len(k.shape)
            else:
                if k.shape is None: return None
                advs.append(k.shape); ax += 1
                if check and k.op not in ("empty",) and not (k.meta or {}).get("inrange"): I.may_raise(st, "IndexError", "index is out of bounds") if not self.adv_ok(k, shape[ax - 1], st) else None
            if advpos is None: advpos = len(out)
            elif last_adv is not None and any(s[0] in ("s", "n") for s in spec[last_adv + 1:pos]): contiguous = False
            last_adv = pos
        if advs:
            s = ()
            for x in advs: 
                s = self.bcast(s, x, st, "shape mismatch: indexing arrays could not be broadcast")
                if s is None: return None
            if not contiguous: advpos = 0
            out[advpos:advpos] = list(s)
        out += list(shape[ax:])
        return tuple(st.norm(d) for d in out)

    def adv_ok(self, k, d, st):
        if k.op in ("stackx",):
            return all(self.adv_ok(a, d, st) for a in k.args)
        if k.const is not NO and isinstance(k.const, int):
            need = Dim.const(k.const + 1) if k.const >= 0 else Dim.const(-k.const)
            return dim_sign(st.norm(d) - need, st.mins) in ("+", "0", ">=")
        if k.op in ("call:argsort", "argsort"): return True
        if k.op in ("transpose", "index") : return self.adv_ok(k.args[0], d, st) if k.args else False
        return False

    def index_node(self, x, spec, args, shape):
        g = self.g
        args = list(args)
        if all(e == FULL for e in spec) and spec: return x
        if x.op == "update":
            us, v, uargs = x.attr, x.args[1], x.args[2:]
            if us == spec and tuple(a.id for a in uargs) == tuple(a.id for a in args) and not any(e[0] == "a" for e in spec):
                return v if v.shape == shape else self.expand(v, shape)
            if self.disjoint(us, spec): return self.index_node(x.args[0], spec, args, shape)
            # update of a sub-block that contains the index ( [:,0]=.. read [:,0,1] ), or is covered by [..]
            r = self.covered(us, uargs, spec, args)
            if r is not None:
                sub = v if v.shape is not None and x.shape is not None else None
                if sub is not None:
                    us_shape = self.index_shape_q(x.shape, us, uargs)
                    if us_shape is not None:
                        sub = self.expand(v, us_shape)
                        return self.index_node(sub, r[0], r[1], shape) if r[0] else sub
        if x.op == "full" and not any(e[0] == "a" and False for e in spec) and shape is not None:
            return g.mk("full", x.args, None, shape, x.dt) if shape != () else x.args[0]
        if x.op == "expand" and shape is not None and x.args[0].shape == (): return self.expand(x.args[0], shape)
        if x.op == "stack" and spec and spec[0][0] in ("c", "i") and len(x.args) == 2:
            k = self.const(spec[0][1]) if spec[0][0] == "c" else args[spec[0][1]]
            if spec[0][0] == "i" or spec[0][1] >= 0:
                e = self.subst(x.args[0], {x.args[1]: k})
                rest = self.drop_first(spec, args)
                if not rest[0]: return e
                return self.index_node(e, rest[0], rest[1], shape)
        if x.op == "stackx" and spec and spec[0][0] == "c":
            try: e = x.args[spec[0][1]]
            except IndexError: e = None
            if e is not None:
                rest = self.drop_first(spec, args)
                if not rest[0]: return e
                return self.index_node(e, rest[0], rest[1], shape)
        if x.op == "index" and all(e[0] in ("c", "i") or e == FULL for e in x.attr):
            c = self.compose(x.attr, x.args[1:], spec, args)
            if c is not None: return self.index_node(x.args[0], c[0], c[1], shape)
        if x.op == "phi" and len(x.args) <= 6:
            return self.phi_map(x, lambda y: self.index_node(y, spec, args, shape))
        return g.mk("index", [x] + args, spec, shape, x.dt, x.ival if shape == () and x.op == "arange" and False else None, meta={"np": True} if shape == () else None)

    def phi_map(self, x, f):
        sel = self.g.sels.get(x.id)
        if sel is not None and sel[1] is not x and sel[2] is not x:
            both = [self.phi_map(y, f) if y.op == "phi" else f(y) for y in sel[1:]]
            return self.g.select(sel[0], both[0], both[1], x.ctrl)
        r = None
        for a in x.args:
            y = f(a); r = y if r is None else self.g.phi(r, y, x.ctrl)
        return r

    def index_shape_q(self, shape, spec, args):
        if any(e[0] in ("a", "e") for e in spec): return None
        out, ax = [], 0
        for e in spec:
            if e[0] == "n": out.append(D1); continue
            if e[0] == "s":
                if e != FULL: return None
                out.append(shape[ax])
            ax += 1
        return tuple(out) + tuple(shape[ax:])

    def drop_first(self, spec, args):
        if spec[0][0] == "i":
            k = spec[0][1]
            args = list(args[:k]) + list(args[k + 1:])
            sp = tuple(self.shift_ent(e, k) for e in spec[1:])
            return sp, args
        return tuple(spec[1:]), list(args)

    def shift_ent(self, e, k, by=-1):
        if e[0] in ("i", "a"): return (e[0], e[1] + by if e[1] > k else e[1])
        if e[0] == "s": return ("s",) + tuple(("k", x[1] + by if x[1] > k else x[1]) if isinstance(x, tuple) else x for x in e[1:])
        return e

    def disjoint(self, a, b):
        for x, y in zip(a, b):
            if x[0] == "n" or y[0] == "n" or x[0] == "a" or y[0] == "a": return False
            if x[0] == "c" and y[0] == "c" and x[1] != y[1] and x[1] >= 0 and y[1] >= 0: return True
        return False

    def covered(self, us, uargs, spec, args):
        """if x[spec] lies inside x[us]: the spec relative to x[us]"""
        if any(e[0] in ("a", "n", "e") for e in us) or any(e[0] in ("n", "e") for e in spec): return None
        rel, j = [], 0
        spec = list(spec)
        sp = spec + [FULL] * max(0, len(us) - len(spec))
        for e, s in zip(us, sp):
            if e == FULL: rel.append(s)
            elif e[0] == "c" and s == e: pass
            elif e[0] == "i" and s[0] == "i" and uargs[e[1]] is args[s[1]]: pass
            else: return None
        rel += sp[len(us):]
        # drop unused args: keep arg list unchanged is fine when entries keep their positions
        return tuple(rel), args

    def compose(self, inner, iargs, outer, oargs):
        """x[inner][outer] -> x[comb] for int/full-slice inner"""
        comb, args = [], []
        def add(e, al):
            if e[0] in ("i", "a"): args.append(al[e[1]]); return (e[0], len(args) - 1)
            if e[0] == "s":
                out = []
                for x in e[1:]:
                    if isinstance(x, tuple): args.append(al[x[1]]); out.append(("k", len(args) - 1))
                    else: out.append(x)
                return ("s",) + tuple(out)
            return e
        o = list(outer)
        for e in inner:
            if e == FULL:
                while o and o[0][0] == "n": comb.append(o.pop(0))
                comb.append(add(o.pop(0), oargs) if o else FULL)
            else:
                if any(x[0] == "a" for x in outer): return None
                comb.append(add(e, iargs))
        for e in o: comb.append(add(e, oargs))
        return tuple(comb), args

    def expand(self, v, shape):
        if v.shape == shape or shape is None: return v
        if v.op == "full": return self.g.mk("full", v.args, None, shape, v.dt)
        if v.const is not NO: return self.g.mk("full", [v], None, shape, v.dt)
        return self.g.mk("expand", [v], None, shape, v.dt)

    LOCAL = {"add", "sub", "mul", "div", "floordiv", "mod", "pow", "neg", "cast", "not", "abs"}

    def unmasked(self, v, mask, shape):
        """The array whose masked elements are v, when v is computed element by element from masked arrays."""
        if v.shape == (): return v
        if v.op in ("full", "expand") and v.args[0].shape == (): return v.args[0]
        if v.op == "index" and v.attr == (("a", 0),) and v.args[1] is mask: return v.args[0]
        if v.op in self.LOCAL or v.op.startswith("u:") or v.op.startswith("cmp:"):
            args = [self.unmasked(a, mask, shape) for a in v.args]
            if args and None not in args: return self.g.mk(v.op, args, v.attr, shape, v.dt)
        return None

    def update_node(self, x, spec, args, v, st=None):
        g = self.g
        if spec and all(e == FULL for e in spec) and x.shape is not None: return self.expand(v, x.shape)
        if len(args) == 1 and spec == (("a", 0),) and args[0].dt == "b" and args[0].shape is not None and args[0].shape == x.shape and args[0].shape and v.dt == x.dt:
            u = self.unmasked(v, args[0], x.shape)
            if u is not None: return g.mk("where", [args[0], self.expand(u, x.shape), x], None, x.shape, x.dt)
        if x.op == "update" and x.attr == spec and tuple(a.id for a in x.args[2:]) == tuple(a.id for a in args): x = x.args[0]
        return g.mk("update", [x, v] + list(args), spec, x.shape, x.dt)

    def arr_getitem(self, ob, o, ix, st):
        n = self.I.content(st, ob)
        spec, args, adv = self.norm_spec(ix, n, st)
        shape = self.index_shape(n.shape, spec, args, st)
        if adv:
            return self.wrap(self.index_node(n, spec, args, shape), st, "adv", o.lib)
        if shape == () and o.lib == "np" and ExtV("builtins.Ellipsis") not in (ix.items if isinstance(ix, TupleV) else [ix]):
            return self.index_node(n, spec, args, shape)
        return self.I.alloc(st, ArrO(None, (ob.oid, ("idx", spec, tuple(args), shape)), o.lib), ("view", ob.oid, spec))

    def apply_view(self, par, spec):
        k = spec[0]
        if k == "same": return par
        if k == "idx": return self.index_node(par, spec[1], spec[2], spec[3])
        if k == "reshape": return self.reshape_node(par, spec[1])
        if k == "T": return self.transpose_node(par, spec[1])
        if k == "expand": return self.expand(par, spec[1])
        if k == "part": return self.g.mk("part", [par], spec[1], spec[2], par.dt)
        return self.g.top("view")

    def update_view(self, par, spec, node):
        k = spec[0]
        if k == "same": return node
        if k == "idx": return self.update_node(par, spec[1], spec[2], node)
        if k == "reshape": return self.reshape_node(node, par.shape)
        if k == "T":
            inv = [0] * len(spec[1])
            for i, p in enumerate(spec[1]): inv[p] = i
            return self.transpose_node(node, tuple(inv))
        return self.g.mk("update", [par, node], (("view",) + tuple(map(repr, spec)),), par.shape, par.dt)

    def reshape_node(self, n, shape):
        if n.shape == shape and shape is not None: return n
        if n.op == "reshape": n = n.args[0]
        if n.shape == shape and shape is not None: return n
        if n.op == "full" and shape is not None: return self.g.mk("full", n.args, None, shape, n.dt)
        return self.g.mk("reshape", [n], None, shape, n.dt)

    def transpose_node(self, n, perm):
        if perm is not None and perm == tuple(range(len(perm))): return n
        if n.op == "transpose" and perm is not None and n.attr is not None:
            return self.transpose_node(n.args[0], tuple(n.attr[p] for p in perm))
        if n.op == "full" and n.shape is not None and perm is not None: return self.g.mk("full", n.args, None, tuple(n.shape[p] for p in perm), n.dt)
        return self.g.mk("transpose", [n], perm, tuple(n.shape[p] for p in perm) if n.shape is not None and perm is not None else None, n.dt)

    def arr_setitem(self, ob, o, ix, v, st, aug=None):
        I = self.I
        n = I.content(st, ob)
        spec, args, adv = self.norm_spec(ix, n, st)
        shape = self.index_shape(n.shape, spec, args, st)
        if aug is None or not isinstance(v, Ref) or st.heap[v.oid].base is None or st.heap[v.oid].base[0] != ob.oid:
            I.mutated(st, ob, "item assignment")
        elif aug is not None: return          # view already updated in place
        vn = self.arr(v, st)
        if vn.dt in ("s", "N", "o") and n.dt != "o": 
            if vn.dt == "s": I.may_raise(st, "ValueError", "could not convert string to float")
            else: I.must_raise(st, "TypeError", "float() argument must be a number")
        if shape is not None and vn.shape is not None:
            vs = list(vn.shape)
            while len(vs) > len(shape) and vs[0] == D1: vs.pop(0)
            if len(vs) > len(shape): I.must_raise(st, "ValueError", "could not broadcast input array")
            for a, b in zip(reversed(shape), reversed(vs)):
                a, b = st.norm(a), st.norm(b)
                if a == b or b == D1: continue
                if dim_sign(a - b, st.mins) in ("+", "-") : I.must_raise(st, "ValueError", "could not broadcast input array")
                I.may_raise(st, "ValueError", "could not broadcast input array")
            vn = self.expand(vn, shape) if tuple(vs) != tuple(shape) else vn
        if n.dt in ("i", "b") and vn.dt in ("f", "c"):
            I.event("cast", st, what="float stored into integer array is truncated")
            vn = self.g.mk("trunc", [vn], None, vn.shape, "i")
        I.set_content(st, ob, self.update_node(n, spec, args, vn))

    # ------------------------------------------------------------ linear algebra
    def matmul(self, a, b, st):
        I, g = self.I, self.g
        for x in (a, b):
            if x.dt in ("s", "N", "o"): I.must_raise(st, "TypeError", "unsupported operand for @")
        sa, sb = a.shape, b.shape
        shape = None
        if sa is not None and sb is not None:
            if sa == () or sb == (): I.must_raise(st, "ValueError", "matmul: operand does not have enough dimensions")
            ka = sa[-1]; kb = sb[0] if len(sb) == 1 else sb[-2]
            self.same_dim(ka, kb, st, "matmul: dimension mismatch")
            if len(sa) == 1 and len(sb) == 1: shape = ()
            elif len(sa) == 1: shape = sb[:-2] + sb[-1:]
            elif len(sb) == 1: shape = sa[:-1]
            else: 
                bs = self.bcast(sa[:-2], sb[:-2], st)
                shape = bs + (sa[-2], sb[-1]) if bs is not None else None
        dt = jnum(a.dt, b.dt)
        return g.mk("matmul", [a, b], None, shape, "i" if dt == "b" and False else dt)

    def einsum(self, sub, ns, st):
        I, g = self.I, self.g
        if sub is None: return self.opaque("call:einsum", ns, st, sub)
        sub = sub.replace(" ", "")
        ins, out = (sub.split("->") + [None])[:2]
        ins = ins.split(",")
        if "..." in sub:       # one operand with leading axes: name them
            if out is None or len(ins) != len(ns) or any(n.shape is None for n in ns): return self.opaque("call:einsum", ns, st, sub)
            ks = [len(n.shape) - len(s) + 3 if "..." in s else 0 for s, n in zip(ins, ns)]
            if min(ks) < 0 or sum(k > 0 for k in ks) > 1 or "..." in out and not any("..." in s for s in ins) or "..." not in out and max(ks): return self.opaque("call:einsum", ns, st, sub)
            free = [c for c in "zyxwvutsrqponmlkjihgfedcba" if c not in sub][:max(ks)]
            ins = [s.replace("...", "".join(free[:k])) for s, k in zip(ins, ks)]
            out = out.replace("...", "".join(free))
        if len(ins) != len(ns): I.must_raise(st, "ValueError", "einsum operand count")
        if out is None:
            cnt = {}
            for s in ins:
                for c in s: cnt[c] = cnt.get(c, 0) + 1
            out = "".join(sorted(c for c in cnt if cnt[c] == 1))
        dims = {}
        for s, n in zip(ins, ns):
            if n.shape is None: continue
            if len(s) != len(n.shape): I.must_raise(st, "ValueError", "einsum subscripts do not match the operand rank")
            for c, d in zip(s, n.shape): dims[c] = self.same_dim(dims[c], d, st, "einsum dimension mismatch") if c in dims else d
        # canonical renaming
        shape = tuple(dims[c] for c in out) if all(c in dims for c in out) else None
        if len(ns) == 2:
            (p, q), (a, b) = ins, ns
            if len(p) == 1 and len(q) == 2 and p == q[1] and out == q[0]: return self.matmul(b, a, st)
            if len(p) == 1 and len(q) == 2 and p == q[0] and out == q[1]: return self.matmul(a, b, st)
            if len(p) == 2 and len(q) == 1 and q == p[1] and out == p[0]: return self.matmul(a, b, st)
            if len(p) == 2 and len(q) == 2 and p[1] == q[0] and out == p[0] + q[1]: return self.matmul(a, b, st)
            if len(p) == 1 and p == q and out == "": return self.matmul(a, b, st)
        ren = {}
        for c in ",".join(ins) + out:
            if c != ",": ren.setdefault(c, chr(97 + len(ren)))
        key = ",".join("".join(ren[c] for c in s) for s in ins) + "->" + "".join(ren[c] for c in out)
        dt = ns[0].dt
        for n in ns[1:]: dt = jnum(dt, n.dt)
        return g.mk("einsum", ns, key, shape, dt)

    def inv(self, n, st):
        if n.shape is not None and len(n.shape) < 2: self.I.must_raise(st, "numpy.linalg.LinAlgError", "inv needs a matrix")
        if n.shape is not None: self.same_dim(n.shape[-1], n.shape[-2], st, "inv needs a square matrix")
        self.I.may_raise(st, "numpy.linalg.LinAlgError", "singular matrix")
        if n.op == "inv": return n.args[0]
        if n.op == "transpose" and n.shape is not None and n.attr is not None and len(n.attr) == len(n.shape) and tuple(n.attr) == tuple(range(len(n.attr) - 2)) + (len(n.attr) - 1, len(n.attr) - 2):
            x = n.args[0]
            return self.transpose_node(self.g.mk("inv", [x], None, x.shape, "f"), tuple(n.attr))
        return self.g.mk("inv", [n], None, n.shape, "f")

    # ------------------------------------------------------------ reductions
    def axes(self, v, n, st):
        if v is None or self.is_none(v): return None
        o = self.I.obj(v, st)
        items = list(v.items) if isinstance(v, TupleV) else (list(o.items) if isinstance(o, ListO) and o.items is not None else [v])
        out = []
        for x in items:
            k = self.I.node_of(x, st)
            if k.const is NO or not isinstance(k.const, int): return "?"
            a = k.const
            if n.shape is not None:
                if not -len(n.shape) <= a < len(n.shape): self.I.must_raise(st, "numpy.exceptions.AxisError", "axis out of bounds")
                a %= len(n.shape)
            out.append(a)
        return tuple(sorted(out))

    def reduce(self, op, n, ax, keep, st, extra=None):
        op = {"amax": "max", "amin": "min"}.get(op, op)
        if n.dt in ("s", "N"): self.I.must_raise(st, "TypeError", "cannot reduce this type")
        shape = None
        if ax == "?": ax = None; shape = None
        elif n.shape is not None:
            if ax is None: shape = tuple(D1 for _ in n.shape) if keep else ()
            else: shape = tuple(D1 if i in ax else d for i, d in enumerate(n.shape) if keep or i not in ax)
            if ax is not None and len(ax) == len(n.shape): ax = None
        elif ax is None: shape = ()
        if n.shape == () and op in ("sum", "max", "min", "mean", "prod") : return n
        if op in ("max", "min", "argmax", "argmin") and n.shape is not None:
            red = [d for i, d in enumerate(n.shape) if ax is None or i in ax]
            for d in red:
                s = dim_sign(st.norm(d), st.mins)
                if s == "0": self.I.must_raise(st, "ValueError", "zero-size array to reduction operation")
                if s != "+": self.I.may_raise(st, "ValueError", "zero-size array to reduction operation", st.norm(d).syms()); self.I.atleast(st.norm(d) - D1, st)
        dt = {"any": "b", "all": "b", "argmax": "i", "argmin": "i", "mean": "f", "std": "f", "var": "f", "count_nonzero": "i", "median": "f"}.get(op, n.dt)
        if op in ("sum", "prod") and n.dt == "b": dt = "i"
        if n.op == "full" and op in ("max", "min", "mean", "any", "all") and shape is not None: return self.expand(n.args[0], shape)
        # any(not x) = not all(x)
        if op in ("any", "all") and n.op == "not": return self.g.mk("not", [self.reduce("all" if op == "any" else "any", n.args[0], ax, keep, st)], None, shape, "b")
        m = {"np": True}
        if op in ("argmax", "argmin") and ax is None and n.shape is not None: 
            b = D1
            for d in n.shape: b = b * d
            m["bound"] = b
        elif op in ("argmax", "argmin") and ax and n.shape is not None: m["bound"] = n.shape[ax[0]]
        return self.g.mk(op, [n], (ax, bool(keep), extra), shape, dt, meta=m)

    # ------------------------------------------------------------ substitution
    def subst(self, n, mp):
        if not isinstance(n, Node): return n
        memo = {}
        ids = {k.id: v for k, v in mp.items()}
        key = tuple(sorted((k, v.id) for k, v in ids.items()))
        sym = {}
        for k, v in mp.items():
            s = (k.meta or {}).get("sym")
            if s and v.ival is not None: sym[s] = v.ival
        def go(x, d):
            if x.id in ids: return ids[x.id]
            if not x.args and not x.ctrl or d > 200: return x
            r = memo.get(x.id)
            if r is not None: return r
            memo[x.id] = x
            if x.op == "loopphi": return x
            a = [go(y, d + 1) for y in x.args]
            c = [go(y, d + 1) for y in x.ctrl]
            if all(p is q for p, q in zip(a, x.args)) and all(p is q for p, q in zip(c, x.ctrl)): return x
            iv = x.ival.subst(sym) if x.ival is not None else None
            if x.op == "index": r = self.index_node(a[0], self.respec(x.attr, a[1:]), a[1:], x.shape) if True else None
            else: r = self.g.mk(x.op, a, x.attr, x.shape, x.dt, iv, ctrl=tuple(c), meta=x.meta)
            memo[x.id] = r
            return r
        return go(n, 0)

    def respec(self, spec, args):
        return spec

    # ------------------------------------------------------------ attributes
    def dims_tuple(self, shape): return TupleV([self.g.dim(d) for d in shape])

    def arr_attr(self, ob, o, name, st):
        I, g = self.I, self.g
        n = I.content(st, ob)
        if name == "shape":
            return self.dims_tuple([st.norm(d) for d in n.shape]) if n.shape is not None else g.mk("shape", [n])
        if name == "ndim":
            if n.shape is not None and n.op == "stack" and n.meta and "rows" in n.meta and (dim_low(st.norm(n.shape[0]), st.mins) or 0) < 1:
                return g.mk("ndim", [n], None, (), "i")
            return self.const(len(n.shape)) if n.shape is not None else g.mk("ndim", [n], None, (), "i")
        if name == "size" and o.lib == "np": return self.size_node(n, st)
        if name in ("T", "mT"):
            perm = tuple(reversed(range(len(n.shape)))) if n.shape is not None else None
            return I.alloc(st, ArrO(None, (ob.oid, ("T", perm)), o.lib), ("T", ob.oid))
        if name in ("dtype", "device", "requires_grad", "strides", "itemsize", "nbytes", "is_cuda", "layout"): return g.mk("attr", [n], name, () if name != "strides" else None, "o")
        if name in ("real", "imag", "data", "flat", "base"):
            if name == "flat": return I.alloc(st, ArrO(None, (ob.oid, ("reshape", (self.numel(n),))), o.lib), ("flat", ob.oid))
            return I.alloc(st, ArrO(None, (ob.oid, ("same",)), o.lib), (name, ob.oid))
        if name == "grad": return Union([self.const(None), I.new_arr(st, g.mk("attr", [n], "grad", n.shape, n.dt), "grad", None, o.lib)])
        if not hasattr_lib(o.lib, name): I.must_raise(st, "AttributeError", f"array has no attribute {name}")
        return BoundV(ob, name)

    def numel(self, n):
        if n.shape is None: return new_sym(f"~sz{n.id}", 0)
        r = D1
        for d in n.shape: r = r * d
        return r

    def size_node(self, n, st):
        if n.shape is None: return self.g.mk("size", [n], None, (), "i")
        return self.g.dim(st.norm(self.numel(n)))

    def scalar_attr(self, ob, name, st):
        if name == "shape": return TupleV([]) if (ob.meta or {}).get("np") or not (ob.meta or {}).get("py") else self.I.must_raise(st, "AttributeError", "no attribute shape")
        if name == "ndim": return self.const(0)
        if name == "size": return self.const(1)
        if name in ("real", "T"): return ob
        if name == "dtype": return self.g.mk("attr", [ob], "dtype", (), "o")
        if ob.const is not NO and not hasattr(ob.const, name): self.I.must_raise(st, "AttributeError", f"number has no attribute {name}")
        return BoundV(ob, name)

    def node_attr(self, ob, name, st):
        if ob.op == "attr" and ob.attr == "dtype" and name in ("kind", "char", "name") and ob.args[0].dt in ("f", "i", "b", "c") and name == "kind":
            return self.const(ob.args[0].dt)
        if (ob.meta or {}).get("attrs") and name in ob.meta["attrs"]: return ob.meta["attrs"][name]
        if ob.op == "pyobj" : self.I.may_raise(st, "AttributeError", "unknown object")
        return BoundV(ob, name) if False else self.g.mk("attr", [ob], name)

    def node_getitem(self, ob, ix, st):
        if ob.shape is not None and not isinstance(ob, Ref):
            spec, args, adv = self.norm_spec(ix, ob, st)
            shape = self.index_shape(ob.shape, spec, args, st)
            return self.wrap(self.index_node(ob, spec, args, shape), st, "ng")
        return self.g.mk("getitem", [ob, self.I.node_of(ix, st)])

    def node_method(self, s, name, args, kw, st):
        if s.shape == () and s.dt in ("i", "f", "b", "n", "c"):
            if name in ("item", "tolist", "copy", "flatten_", "detach", "clone", "cpu"): return s
            if name == "is_integer": return self.g.mk("call:is_integer", [s], None, (), "b")
            if name in ("any", "all"): return s
            if name in RED or name in ("round", "astype", "reshape", "flatten"):
                return self.arr_fn(name, [s] + args, kw, st, "np")
        self.I.note("opaque", "method " + name)
        return self.g.mk("call:." + name, [s] + [self.I.node_of(a, st) for a in args] + [self.I.node_of(v, st) for v in kw.values()], tuple(kw))

    def shape_arg(self, args, st):
        """Dim tuple (or None) from a shape argument list; -1 entries become None"""
        vals = []
        for a in args:
            o = self.I.obj(a, st)
            if isinstance(a, TupleV): vals += list(a.items)
            elif isinstance(o, ListO) and o.items is not None: vals += list(o.items)
            elif isinstance(o, ListO): return None
            else: vals.append(a)
        out = []
        for v in vals:
            n = self.I.node_of(v, st)
            if n.dt in ("f", "s", "N"): self.I.must_raise(st, "TypeError", "shape must be integers")
            if n.ival is None: out.append(new_sym(f"~d{n.id}", 0))
            else: out.append(st.norm(n.ival))
        return tuple(out)

    def do_reshape(self, v, o, sh, st, fresh=False):
        I = self.I
        n = self.arr(v, st)
        if sh is not None:
            neg = [i for i, d in enumerate(sh) if d.is_const() and d.value() == -1]
            tot = st.norm(self.numel(n)) if n.shape is not None else None
            if neg and tot is not None:
                rest = D1
                for i, d in enumerate(sh):
                    if i not in neg: rest = rest * d
                q = tot.div(rest)
                if q is None:
                    q = new_sym(("rs", tot, rest))
                    if tot.is_const() and rest.is_const(): I.must_raise(st, "ValueError", "cannot reshape")
                    I.may_raise(st, "ValueError", "cannot reshape array")
                sh = tuple(q if i in neg else d for i, d in enumerate(sh))
            elif neg: sh = tuple(new_sym(f"~rs{n.id}") if i in neg else d for i, d in enumerate(sh))
            elif tot is not None:
                p = D1
                for d in sh: p = p * d
                s = dim_sign(tot - st.norm(p), st.mins)
                if s in ("+", "-"): I.must_raise(st, "ValueError", "cannot reshape array")
                if s != "0": I.may_raise(st, "ValueError", "cannot reshape array", tot.syms() | st.norm(p).syms()); I.equate(tot - st.norm(p), st)
            else: I.may_raise(st, "ValueError", "cannot reshape array")
        if isinstance(v, Ref) and isinstance(o, ArrO) and not fresh:
            return I.alloc(st, ArrO(None, (v.oid, ("reshape", sh)), o.lib), ("rs", v.oid))
        return self.wrap(self.reshape_node(n, sh), st, "rs", o.lib if isinstance(o, ArrO) else "np")

    def arr_method(self, s, o, name, args, kw, st):
        I, g = self.I, self.g
        n = I.content(st, s)
        lib = o.lib
        new = lambda node, key=None: self.wrap(node, st, key or name, lib)
        alias = lambda spec=("same",): I.alloc(st, ArrO(None, (s.oid, spec), lib), (name, s.oid))
        if lib == "torch" and name.endswith("_") and not name.endswith("__") and name not in ("requires_grad_",):
            base = name[:-1]
            if base in BIN_F:
                return self.np_inplace(BIN_F[base], s, args[0], st)
            I.mutated(st, s, "." + name)
            if base in ("zero", "fill"):
                v = self.const(0.0) if base == "zero" else I.node_of(args[0], st)
                I.set_content(st, s, self.expand(v, n.shape)); return s
            I.set_content(st, s, g.mk("call:" + name, [n] + [self.arr(a, st) for a in args], None, n.shape, n.dt)); return s
        if name in ("copy", "clone", "__copy__", "__deepcopy__"): return I.new_arr(st, n, name, None, lib)
        if name in ("detach", "cpu", "to", "contiguous", "requires_grad_", "cuda", "squeeze_", "view_as", "asnumpy", "numpy", "type", "float", "double", "int", "long", "bool", "half"):
            if name in ("float", "double", "type", "int", "long", "bool", "to", "half"):
                dt = {"float": "f", "double": "f", "half": "f", "int": "i", "long": "i", "bool": "b"}.get(name) or self.dtype_of((args or [kw.get("dtype")])[0], st, n.dt)
                if dt != n.dt:
                    return I.new_arr(st, g.mk("cast", [n], dt, n.shape, dt), name, None, lib)
            l2 = "np" if name == "numpy" else lib
            return I.alloc(st, ArrO(None, (s.oid, ("same",)), l2), (name, s.oid))
        if name == "astype":
            dt = self.dtype_of(args[0] if args else kw.get("dtype"), st, None)
            cp = kw.get("copy")
            node = n if dt == n.dt or dt is None and n.dt is None else (g.mk("cast", [n], dt, n.shape, dt))
            if cp is not None and I.node_of(cp, st).const is False and dt == n.dt: return alias()
            return I.new_arr(st, node, name, None, lib)
        if name in ("flatten",):
            if lib == "torch": return self.do_reshape(s, o, (self.numel(n),) if n.shape is not None else None, st)
            return new(self.reshape_node(n, (st.norm(self.numel(n)),)))
        if name == "ravel": return alias(("reshape", (st.norm(self.numel(n)),)))
        if name in ("reshape", "view"):
            return self.do_reshape(s, o, self.shape_arg(args or [kw["shape"]], st), st)
        if name in ("transpose", "permute", "swapaxes", "t"):
            if n.shape is None: return alias(("T", None))
            r = list(range(len(n.shape)))
            ints = [self.ckey(x) for a in args for x in (a.items if isinstance(a, TupleV) else [a])]
            if not ints: perm = tuple(reversed(r))
            elif NO in ints: perm = None
            elif name == "swapaxes" or (name == "transpose" and lib == "torch"):
                a, b = ints; r[a], r[b] = r[b], r[a]; perm = tuple(r)
            else: perm = tuple(i % len(r) for i in ints)
            return alias(("T", perm))
        if name in ("unsqueeze", "squeeze"):
            if n.shape is None: return alias(("reshape", None))
            if name == "unsqueeze":
                k = self.ckey(args[0] if args else kw["dim"])
                if not isinstance(k, int): return alias(("reshape", None))
                k %= len(n.shape) + 1
                return alias(("reshape", n.shape[:k] + (D1,) + n.shape[k:])) if True else None
            ks = [self.ckey(a) for a in args + list(kw.values())]
            return alias(("reshape", tuple(d for i, d in enumerate(n.shape) if (d != D1 if not ks else not (i in [k % len(n.shape) for k in ks] and d == D1)))))
        if name in ("expand", "expand_as"):
            sh = self.shape_arg(args, st) if name == "expand" else self.arr(args[0], st).shape
            if sh is None or n.shape is None: return alias(("expand", None))
            pad = len(sh) - len(n.shape)
            out = []
            for i, d in enumerate(sh):
                src = n.shape[i - pad] if i >= pad else None
                if d.is_const() and d.value() == -1: out.append(src)
                else:
                    if src is not None and src != D1 and dim_sign(st.norm(src) - d, st.mins) in ("+", "-"): I.must_raise(st, "RuntimeError", "expanded size must match")
                    out.append(d)
            return alias(("expand", tuple(out)))
        if name == "size":
            if args or "dim" in kw:
                k = self.ckey(args[0] if args else kw["dim"])
                if n.shape is not None and isinstance(k, int):
                    if not -len(n.shape) <= k < len(n.shape): I.must_raise(st, "IndexError", "Dimension out of range")
                    return g.dim(st.norm(n.shape[k]))
                return g.mk("size", [n], k, (), "i")
            return self.arr_attr(s, o, "shape", st)
        if name in ("dim", "ndimension"): return self.const(len(n.shape)) if n.shape is not None else g.mk("ndim", [n], None, (), "i")
        if name in ("numel", "nelement"): return self.size_node(n, st)
        if name == "item":
            return n if n.shape == () else g.mk("index", [n], (), (), n.dt)
        if name == "tolist":
            if n.shape is not None and len(n.shape) >= 1:
                sp = self.iterate(s, st, _FN(*I.cur[1:]))
                if sp[0] == "exact": return I.new_list(st, sp[1], key="tolist")
                return I.new_list(st, None, sp[1](st), sp[2], key="tolist", src=sp[3])
            return n
        if name in ("fill", "sort", "put", "partition", "resize", "itemset", "setflags", "setfield", "byteswap"):
            if name not in ("setflags",) : I.mutated(st, s, "." + name)
            if name == "fill": I.set_content(st, s, self.expand(I.node_of(args[0], st), n.shape))
            elif name == "sort": I.set_content(st, s, g.mk("call:sort", [n], None, n.shape, n.dt))
            elif name != "setflags": I.set_content(st, s, I.top("." + name, shape=None))
            return self.const(None)
        if name == "backward":
            I.event("backward", st, node=n); return self.const(None)
        if name in ("tobytes", "dumps", "tostring"): return g.mk("call:" + name, [n], None, (), "s")
        return self.arr_fn(name, [s] + list(args), kw, st, lib)

    def dtype_of(self, v, st, default="f"):
        if v is None or self.is_none(v): return default
        if isinstance(v, ExtV):
            k = v.name.split(".")[-1].rstrip("_")
        elif isinstance(v, Node) and isinstance(v.const, str): k = v.const.split(".")[-1]
        elif isinstance(v, Node) and v.op == "attr" and v.attr == "dtype": return v.args[0].dt
        elif isinstance(v, Node) and v.op == "call:get_default_dtype": return "f"
        else: return default
        if k.startswith(("float", "double", "half", "single")) : return "f"
        if k.startswith(("int", "uint", "long", "short", "intp")): return "i"
        if k.startswith("bool"): return "b"
        if k.startswith("complex"): return "c"
        if k.startswith(("str", "object")): return "o"
        return default

    def arr_fn(self, name, args, kw, st, lib):
        """library function `name` on arrays; None when unknown. Keywords that no rule looked at make the result unknown."""
        if not kw or set(kw) <= HARMLESS: return self.arr_fn_(name, args, kw, st, lib)
        kw = Kw(kw)
        r = self.arr_fn_(name, args, kw, st, lib)
        left = set(kw) - kw.used - HARMLESS
        left = {k for k in left if not self.is_none(dict.get(kw, k))}
        if "dtype" in left and self.dtype_of(dict.get(kw, "dtype"), st, "?") in ("f", None): left.discard("dtype")
        if not left or r is None: return r
        if isinstance(r, Ref) and isinstance(self.I.obj(r, st), ArrO): n = self.I.content(st, r)
        elif isinstance(r, Node): n = r
        else: return self.I.top(f"{name}({', '.join(sorted(left))}=…)")
        ns = [n]
        for k in sorted(left):
            v = dict.get(kw, k)
            try: ns.append(self.I.node_of(v, st))
            except Exception: pass
        self.I.note("opaque", f"{name}({', '.join(sorted(left))}=)")
        return self.wrap(self.g.mk("call:" + name, ns, tuple(sorted(left)), n.shape if left <= SAMESHAPE else None, n.dt), st, name, lib)

    def arr_fn_(self, name, args, kw, st, lib):
        I, g = self.I, self.g
        name = UN_ALIAS.get(name, name)
        new = lambda node, key=None: self.wrap(node, st, key or name, lib)
        out = kw.get("out")
        if out is not None and isinstance(out, Ref) and isinstance(I.obj(out, st), ArrO):
            k2 = {k: v for k, v in kw.items() if k != "out"}
            r = self.arr_fn(name, args, k2, st, lib)
            if isinstance(kw, Kw): kw.used.update(kw)
            I.mutated(st, out, "out=")
            I.set_content(st, out, self.arr(r, st))
            return out
        if name in ALIASING and args and isinstance(args[0], Union) and any(isinstance(I.obj(v, st), ArrO) for v in args[0].vals if isinstance(v, Ref)):
            r, dead = None, True
            for v in sorted(args[0].vals, key=repr):
                try: r = I.join_val(r, self.arr_fn(name, [v] + list(args[1:]), kw, st, lib)); dead = None
                except Exception as e:
                    if type(e).__name__ != "DeadFlow": raise
                    dead = dead and e
            if dead is not None: raise dead
            return r
        if name == "real" and isinstance(args[0], Ref) and isinstance(I.obj(args[0], st), ArrO) and self.arr(args[0], st).dt in ("f", "i"):
            return I.alloc(st, ArrO(None, (args[0].oid, ("same",)), lib), ("real", args[0].oid))
        A = lambda i, key=None, default=None: args[i] if len(args) > i else kw.get(key, default)
        if name in UN:
            n = self.arr(args[0], st)
            if n.dt in ("s", "N", "o"): I.must_raise(st, "TypeError", f"ufunc {name} not supported for the input types")
            dt = n.dt if name in ("abs", "sign", "real", "imag", "square", "conj", "round", "invert", "floor", "ceil", "trunc") else ("b" if name.startswith("is") else "f")
            if name in ("real", "imag") or name == "abs" and n.dt == "c": dt = "f" if n.dt == "c" else n.dt
            if name in ("rint",): dt = "f"
            if n.const is not NO and isinstance(n.const, (int, float)) and name in ("sqrt", "abs", "exp"):
                try: return new(self.const(getattr(math, name)(n.const) if name != "abs" else abs(n.const)))
                except Exception: pass
            if name == "square": return new(self.elem("Pow", n, self.const(2), st))
            if name == "abs" and n.op == "neg": n = n.args[0]
            if name == "round" and A(1, "decimals") is not None:
                d = I.node_of(A(1, "decimals"), st)
                if d.const != 0: return new(g.mk("u:rounded", [n, d], None, n.shape, dt))
            return new(g.mk("u:" + name, [n], None, n.shape, dt))
        if name in ("neg", "not"): return self.np_unop("USub" if name == "neg" else "Invert", args[0], st)
        if name in BIN_F and len(args) >= 2: return new(self.elem(BIN_F[name], self.arr(args[0], st), self.arr(args[1], st), st))
        if name in ("isin", "in1d") and len(args) >= 2 and set(kw) <= {"invert", "assume_unique", "kind"}:
            x, b = self.arr(args[0], st), I.node_of(args[1], st)
            sh = x.shape if name == "isin" or x.shape is None else (st.norm(self.numel(x)),)
            items = list(b.args) if b.op in ("list", "tuple", "stackx") and b.args and all(a.shape == () for a in b.args) and b.shape != (D0,) else [] if b.op in ("list", "tuple") and not b.args else [b] if b.shape == () else None
            if items is None or sh != x.shape or len(items) > 64:
                n = g.mk("call:isin", [x, b], None, sh, "b"); I.note("opaque", name)
            else:
                n = None
                for it in items:
                    c = self.arr(self.np_cmp("Eq", self.wrap(x, st, "isin"), it, st), st)
                    n = c if n is None else g.mk("or", [n, c], None, sh, "b")
                if n is None: n = g.mk("full", [self.const(False)], None, sh, "b")
            inv = kw.get("invert")
            if inv is not None and I.node_of(inv, st).const is not False: n = g.mk("not", [n], None, sh, "b")
            return new(n)
        if name in CMPF and len(args) >= 2: return self.np_cmp(CMPF[name], args[0], args[1], st)
        if name in ("maximum", "minimum", "fmax", "fmin", "arctan2", "hypot", "fmod", "copysign", "cross_", "lcm"):
            a, b = self.arr(args[0], st), self.arr(args[1], st)
            return new(g.mk("call:" + name, [a, b], None, self.bcast(a.shape, b.shape, st), jnum(a.dt, b.dt) if name in ("maximum", "minimum", "fmax", "fmin") else "f"))
        if name in RED:
            n = self.arr(args[0], st)
            if lib == "torch" and name in ("max", "min") and (len(args) > 1 or "dim" in kw):
                ax = self.axes(A(1, "dim"), n, st)
                r = self.reduce(name, n, ax, False, st); r2 = self.reduce("arg" + name, n, ax, False, st)
                return TupleV([new(r), new(r2, "arg")], ("values", "indices"))
            axv = A(1, "axis", kw.get("dim"))
            keep = kw.get("keepdims", kw.get("keepdim"))
            if keep is None and lib == "torch" and len(args) > 2: keep = args[2]
            keep = I.node_of(keep, st).const is True if keep is not None else False
            extra = None
            if name in ("std", "var"):
                ub = kw.get("unbiased")
                dd = kw.get("ddof", kw.get("correction"))
                if lib == "torch" and ub is None and len(args) > 2 and name in ("std", "var"):
                    ub = args[2]; keep = A(3, "keepdim")
                    keep = I.node_of(keep, st).const is True if keep is not None else False
                if ub is not None:
                    c = I.node_of(ub, st)
                    if c.const is NO:
                        ax = self.axes(axv, n, st)
                        r1, r0 = (self.reduce(name, n, ax, keep, st, k) for k in (1, 0))
                        return new(g.mk("where", [c, r1, r0], None, r1.shape, r1.dt))
                    extra = 1 if c.const is True else 0
                elif dd is not None: extra = I.node_of(dd, st).const
                else: extra = 1 if lib == "torch" else 0
            if lib == "torch" and name in ("mean", "std", "var", "nanmean") and n.dt in ("i", "b") and "dtype" not in kw: I.must_raise(st, "RuntimeError", f"torch {name} of an integer tensor")
            return new(self.reduce(name, n, self.axes(axv, n, st), keep, st, extra))
        if name in ("norm", "vector_norm"):
            n = self.arr(args[0], st)
            if lib == "torch" and n.dt in ("i", "b"): I.must_raise(st, "RuntimeError", "torch norm of an integer tensor")
            if n.dt in ("s", "N", "o"): I.must_raise(st, "TypeError", "norm of a non-array")
            axv = kw.get("axis", kw.get("dim"))
            if axv is None and len(args) > 2: axv = args[2]
            keep = kw.get("keepdims", kw.get("keepdim"))
            keep = I.node_of(keep, st).const is True if keep is not None else False
            p = A(1, "ord", kw.get("p"))
            ex = None if p is None or self.is_none(p) else self.ckey(p)
            ax = self.axes(axv, n, st)
            r = self.reduce("norm", n, ax, keep, st, ex)
            r = g.mk("norm", [n], (None if ax == "?" else r.attr[0] if r.op == "norm" else ax, keep, ex), r.shape, "f", meta={"np": True})
            return new(r)
        if name in ("dot", "inner", "vdot"):
            a, b = self.arr(args[0], st), self.arr(args[1], st)
            if a.shape == () or b.shape == (): return new(self.elem("Mult", a, b, st))
            if name == "dot" and a.shape is not None and b.shape is not None and len(b.shape) > 2: return new(self.opaque("call:dot", [a, b], st))
            if name == "inner" and b.shape is not None and len(b.shape) == 2: b = self.transpose_node(b, (1, 0))
            return new(self.matmul(a, b, st))
        if name == "vecdot":
            a, b = self.arr(args[0], st), self.arr(args[1], st)
            m = self.elem("Mult", a, b, st)
            return new(self.reduce("sum", m, (len(m.shape) - 1,) if m.shape is not None else "?", False, st))
        if name == "outer":
            a, b = self.arr(args[0], st), self.arr(args[1], st)
            return new(g.mk("einsum", [a, b], "a,b->ab", (self.numel(a), self.numel(b)), jnum(a.dt, b.dt)))
        if name == "einsum": return new(self.einsum(I.node_of(args[0], st).const if isinstance(I.node_of(args[0], st).const, str) else None, [self.arr(a, st) for a in args[1:]], st))
        if name == "tensordot":
            a, b = self.arr(args[0], st), self.arr(args[1], st)
            k = self.ckey(A(2, "axes", self.const(2)))
            if k == 1 and a.shape is not None and b.shape is not None and len(b.shape) <= 2: return new(self.matmul(a, b, st))
            return new(self.opaque("call:tensordot", [a, b], st))
        if name == "inv": return new(self.inv(self.arr(args[0], st), st))
        if name == "solve":
            a, b = self.arr(args[0], st), self.arr(args[1], st)
            return new(self.matmul(self.inv(a, st), b, st))
        if name in ("trace", "diagonal"):
            n = self.arr(args[0], st)
            off, a1, a2 = (self.ckey(A(k, nm, self.const(d))) for k, nm, d in ((1, "offset", 0), (2, "axis1" if lib == "np" else "dim1", 0), (3, "axis2" if lib == "np" else "dim2", 1)))
            if n.shape is not None and off == 0 and isinstance(a1, int) and isinstance(a2, int) and len(n.shape) >= 2 and a1 % len(n.shape) != a2 % len(n.shape):
                a1, a2 = a1 % len(n.shape), a2 % len(n.shape)
                if st.norm(n.shape[a1]) == st.norm(n.shape[a2]):
                    ls = ["zbcdefgh"[k] for k in range(len(n.shape))]
                    ls[a1] = ls[a2] = "a"
                    rest = "".join(c for c in ls if c != "a")
                    sh = tuple(d for k, d in enumerate(n.shape) if k not in (a1, a2))
                    if name == "trace": return new(g.mk("einsum", [n], "".join(ls) + "->" + rest, sh, n.dt))
                    return new(g.mk("einsum", [n], "".join(ls) + "->" + rest + "a", sh + (n.shape[a1],), n.dt))
            return new(self.opaque("call:" + name, [n], st))
        if name == "det":
            n = self.arr(args[0], st)
            return new(g.mk("call:" + name, [n], None, n.shape[:-2] if n.shape is not None else None, "f"))
        if name == "cross":
            a, b = self.arr(args[0], st), self.arr(args[1], st)
            return new(g.mk("cross", [a, b], None, self.bcast(a.shape, b.shape, st), jnum(a.dt, b.dt)))
        if name in ("transpose", "swapaxes", "permute", "moveaxis", "reshape", "unsqueeze", "squeeze", "flatten", "ravel", "copy", "clone", "detach"):
            v = args[0]
            if name == "copy" and not (isinstance(v, Ref) and isinstance(I.obj(v, st), ArrO)): return I.new_arr(st, self.arr(v, st), "copy", None, lib) if self.arr(v, st).shape != () else self.arr(v, st)
            if not (isinstance(v, Ref) and isinstance(I.obj(v, st), ArrO)): v = I.new_arr(st, self.arr(v, st), "tmp", None, lib)
            if name == "moveaxis": return new(self.opaque("call:moveaxis", [self.arr(v, st)], st))
            if name == "transpose" and lib == "np": return self.arr_method(v, I.obj(v, st), "transpose", ([args[1]] if len(args) > 1 else []) or ([kw["axes"]] if "axes" in kw else []), {}, st)
            return self.arr_method(v, I.obj(v, st), name, list(args[1:]), kw, st)
        if name == "expand_dims":
            n = self.arr(args[0], st)
            k = self.ckey(A(1, "axis"))
            v = args[0]
            if n.shape is None or not isinstance(k, int): sh = None
            else:
                k %= len(n.shape) + 1; sh = n.shape[:k] + (D1,) + n.shape[k:]
            if isinstance(v, Ref) and isinstance(I.obj(v, st), ArrO): return I.alloc(st, ArrO(None, (v.oid, ("reshape", sh)), lib), ("expd", v.oid))
            return new(self.reshape_node(n, sh))
        if name in ("where",):
            if len(args) == 1: 
                n = self.arr(args[0], st); ln = self.count_true(n, st)
                return TupleV([new(g.mk("nonzero", [n], i, (ln,), "i"), ("nz", i)) for i in range(len(n.shape or (1,)))])
            c, a, b = (self.arr(x, st) for x in args[:3])
            for x in (c, a, b):
                if x.dt in ("s",): I.must_raise(st, "TypeError", "where on strings")
            sh = self.bcast(self.bcast(c.shape, a.shape, st), b.shape, st) if c.shape is not None else None
            return new(g.mk("where", [c, a, b], None, sh, jnum(a.dt, b.dt)))
        if name in ("clip", "clamp"):
            ns = [self.arr(a, st) for a in args + [kw[k] for k in ("min", "max", "a_min", "a_max") if k in kw]]
            return new(g.mk("call:clip", ns, None, ns[0].shape, ns[0].dt))
        if name == "diff":
            n = self.arr(args[0], st)
            k = self.ckey(A(1, "n", self.const(1)))
            ax = self.ckey(A(2, "axis", self.const(-1)))
            if n.shape is None or k != 1 or not isinstance(ax, int): return new(self.opaque("call:diff", [n], st))
            ax %= len(n.shape)
            ext = [x if x is None or self.is_none(x) else self.arr(x, st) for x in (A(3, "prepend"), A(4, "append"))]
            if any(isinstance(x, Node) for x in ext):
                parts = []
                for x, y in ((ext[0], 0), (None, 1), (ext[1], 0)):
                    if y: parts.append(n)
                    elif isinstance(x, Node):
                        if x.shape == (): x = self.expand(x, n.shape[:ax] + (D1,) + n.shape[ax + 1:])
                        if x.shape is None or len(x.shape) != len(n.shape): return new(self.opaque("call:diff", [n, x], st))
                        parts.append(x)
                n = self.arr(self.arr_fn("concatenate", [TupleV([self.wrap(x, st, ("diffpart", k), lib) for k, x in enumerate(parts)])], {"axis": self.const(ax)}, st, lib), st)
                if n.shape is None: return new(self.opaque("call:diff", [n], st))
            d = st.norm(n.shape[ax])
            m = self.slice_len(("s", D1, None, None), d, st)
            return new(g.mk("diff", [n], ax, n.shape[:ax] + (m,) + n.shape[ax + 1:], n.dt))
        if name in ("tril", "triu"):
            n = self.arr(args[0], st)
            k = self.ckey(A(1, "k" if lib == "np" else "diagonal", self.const(0)))
            if n.shape is not None and len(n.shape) >= 2 and isinstance(k, int): return new(g.mk(name, [n], k, n.shape, n.dt))
        if name == "gradient" and len(args) == 1 and set(kw) <= {"axis"}:
            n = self.arr(args[0], st)
            ax = self.ckey(kw.get("axis", self.const(0))) if n.shape is not None and (len(n.shape) == 1 or "axis" in kw) else NO
            if isinstance(ax, int) and -len(n.shape) <= ax < len(n.shape):
                return new(g.mk("gradient", [n], ax % len(n.shape), n.shape, "f"))
        if name in ("cumsum", "cumprod", "sort", "flip", "roll", "fftshift", "nan_to_num", "unique_consecutive"):
            n = self.arr(args[0], st)
            return new(g.mk("call:" + name, [n] + [self.arr(a, st) for a in args[1:]], tuple(sorted((k, str(self.ckey(v))) for k, v in kw.items())), n.shape, n.dt))
        if name in ("argsort",):
            n = self.arr(args[0], st)
            return new(g.mk("argsort", [n], None, n.shape, "i"))
        if name in ("zeros", "ones", "empty", "full"):
            sh = self.shape_arg([args[0]] if lib == "np" or isinstance(args[0], TupleV) or not isinstance(args[0], Node) or name == "full" else [a for a in args], st) if args else self.shape_arg([kw.get("shape", kw.get("size"))], st)
            if name == "full": v = self.arr(A(1, "fill_value"), st); d = v.dt
            else: v = self.const({"zeros": 0.0, "ones": 1.0, "empty": 0.0}[name]); d = "f"
            dt = self.dtype_of(kw.get("dtype") or (A(1) if lib == "np" and name != "full" else A(2) if name == "full" else None), st, d)
            if dt == "i" and isinstance(v.const, float): v = self.const(int(v.const))
            if dt == "b" and isinstance(v.const, (float, int)): v = self.const(bool(v.const))
            n = g.mk("full" if name != "empty" else "uninit", [v], None, sh, dt)
            return I.new_arr(st, n, name, None, lib)
        if name in ("zeros_like", "ones_like", "full_like", "empty_like", "new_zeros", "new_ones"):
            n = self.arr(args[0], st)
            if name.startswith("new_"): return self.arr_fn(name[4:], args[1:], {"dtype": self.g.mk("attr", [n], "dtype", (), "o"), **kw}, st, lib)
            v = self.arr(A(1, "fill_value"), st) if name == "full_like" else self.const(1.0 if name == "ones_like" else 0.0)
            dt = self.dtype_of(kw.get("dtype"), st, n.dt)
            if dt in ("i", "b") and isinstance(v.const, float): v = self.const(int(v.const) if dt == "i" else bool(v.const))
            return I.new_arr(st, g.mk("full" if name != "empty_like" else "uninit", [v], None, n.shape, dt), name, None, lib)
        if name in ("eye", "identity"):
            sh = self.shape_arg([args[0]], st)
            return I.new_arr(st, g.mk("eye", [], None, (sh[0], sh[0]), self.dtype_of(kw.get("dtype"), st, "f")), name, None, lib)
        if name == "diag":
            n = self.arr(args[0], st)
            return new(g.mk("call:diag", [n], None, (n.shape[0], n.shape[0]) if n.shape is not None and len(n.shape) == 1 else ((n.shape[0],) if n.shape is not None and len(n.shape) == 2 else None), n.dt))
        if name in ("arange", "linspace", "logspace", "geomspace"):
            ns = [I.node_of(a, st) for a in args]
            if name == "arange":
                if all(x.ival is not None for x in ns) and len(ns) <= 2:
                    lo = ns[0].ival if len(ns) == 2 else D0; hi = ns[-1].ival
                    return I.new_arr(st, g.mk("arange", [], (st.norm(lo), D1), (st.norm(hi - lo),), "i"), name, None, lib)
                return I.new_arr(st, g.mk("call:arange", ns, None, (self.fresh_len("arange"),), jnum(ns[0].dt, ns[-1].dt)), name, None, lib)
            num = A(2, "num", kw.get("steps", self.const(50)))
            k = I.node_of(num, st)
            d = st.norm(k.ival) if k.ival is not None else new_sym(f"~d{k.id}", 0)
            if k.dt == "f": I.must_raise(st, "TypeError", "linspace num must be an integer")
            return I.new_arr(st, g.mk(name, ns[:2] + [k], None, (d,), "f"), name, None, lib)
        if name == "fromiter" and len(args) >= 2 and set(kw) <= {"dtype", "count"} or name == "fromiter" and args and set(kw) == {"dtype"}:
            args, kw, name = list(args[:1]), {"dtype": kw.get("dtype") or args[1]}, "array"
            o = I.obj(args[0], st)
            if isinstance(o, ListO): args[0] = I.new_list(st, o.items, o.elem, o.length, "list", "fromiter", o.src)
        if name in ("array", "asarray", "tensor", "as_tensor", "from_numpy", "ascontiguousarray", "asanyarray", "atleast_1d", "atleast_2d", "stack", "vstack", "row_stack", "asfarray", "require"):
            v = args[0]
            o = I.obj(v, st)
            if name in ("stack",) and (len(args) > 1 or kw.get("axis") is not None or kw.get("dim") is not None):
                ax = self.ckey(A(1, "axis", kw.get("dim")))
                n = self.arr(v, st)
                if ax != 0:
                    if n.shape is None or not isinstance(ax, int): return new(self.opaque("call:stack", [n], st))
                    ax %= len(n.shape)
                    r = list(range(1, len(n.shape))); r.insert(ax, 0)
                    return new(self.transpose_node(n, tuple(r)))
                return new(n)
            n = self.arr(v, st)
            if n.dt == "s" and name in ("tensor", "from_numpy"): I.must_raise(st, "TypeError", "can't convert str to tensor")
            dtv = kw.get("dtype") or (args[1] if len(args) > 1 and name in ("array", "asarray") else None)
            dt = self.dtype_of(dtv, st, n.dt)
            l2 = "torch" if name in ("tensor", "as_tensor", "from_numpy") else "np" if name != "stack" else lib
            if name == "vstack" and n.shape is not None and len(n.shape) == 3: n = self.reshape_node(n, (n.shape[0] * n.shape[1], n.shape[2]))
            node = n
            if dtv is not None and dt != n.dt:
                if n.dt == "s" or n.dt == "o" or n.op == "stack" and n.args[0].dt == "s": I.may_raise(st, "ValueError", "could not convert string to number")
                node = g.mk("cast", [n], dt, n.shape, dt)
            cp = kw.get("copy")
            may_alias = name in ("asarray", "from_numpy", "as_tensor", "ascontiguousarray", "asanyarray", "atleast_1d", "atleast_2d", "require") or (cp is not None and I.node_of(cp, st).const is False)
            if may_alias and isinstance(o, ArrO) and node is n:
                if name.startswith("atleast") and n.shape is not None and len(n.shape) < int(name[-2]):
                    return I.alloc(st, ArrO(None, (v.oid, ("reshape", (D1,) * (int(name[-2]) - len(n.shape)) + n.shape)), l2), (name, v.oid))
                if name == "asarray" or name == "asanyarray": return v
                return I.alloc(st, ArrO(None, (v.oid, ("same",)), l2), (name, v.oid))
            if node.shape == () and name in ("array", "asarray", "tensor", "as_tensor"): return I.new_arr(st, node, name, None, l2)
            return I.new_arr(st, node, name, None, l2)
        if name in ("concatenate", "cat", "hstack", "append", "concat", "column_stack", "dstack"):
            axv = kw.get("axis", kw.get("dim"))
            if name == "append":
                parts = [args[0], args[1]]; axv = axv or A(2); flat = axv is None or self.is_none(axv)
            else:
                if axv is None and len(args) > 1: axv = args[1]
                sp = self.iterate(args[0], st, _FN(*I.cur[1:])); flat = False
                if sp[0] != "exact":
                    e = self.arr(sp[1](st) if callable(sp[1]) else sp[1], st)
                    return new(g.mk("concatl", [e], None, ((self.fresh_len("cat"),) + e.shape[1:]) if e.shape else None, e.dt))
                parts = sp[1]
                if not parts: I.must_raise(st, "ValueError", "need at least one array to concatenate")
            ns = [self.arr(p, st) for p in parts]
            if flat: ns = [self.reshape_node(n, (st.norm(self.numel(n)),)) if n.shape is not None else n for n in ns]; ax = 0
            else: ax = self.ckey(axv) if axv is not None else (0 if name != "hstack" or (ns[0].shape is not None and len(ns[0].shape) == 1) else 1)
            dt = ns[0].dt
            for n in ns[1:]: dt = dt if n.op == "empty" or (n.shape == (D0,)) and False else jnum(dt, n.dt)
            sh = None
            if all(n.shape is not None for n in ns) and isinstance(ax, int):
                r = len(ns[0].shape)
                if r == 0: I.must_raise(st, "ValueError", "zero-dimensional arrays cannot be concatenated")
                ax %= r
                if any(len(n.shape) != r for n in ns): I.must_raise(st, "ValueError", "all the input array dimensions must match")
                tot = D0
                rest = list(ns[0].shape)
                for n in ns:
                    tot = tot + n.shape[ax]
                    for i in range(r):
                        if i != ax: rest[i] = self.same_dim(rest[i], n.shape[i], st, "concatenation dimensions must match")
                rest[ax] = st.norm(tot); sh = tuple(rest)
            return new(g.mk("concat", ns, ax if isinstance(ax, int) else None, sh, dt))
        if name in ("repeat", "tile", "repeat_interleave"):
            n = self.arr(args[0], st)
            ks = self.shape_arg(args[1:2] if name != "repeat" or lib == "np" else args[1:], st) if len(args) > 1 else None
            if name == "repeat_interleave" or (name == "repeat" and lib == "np"):
                axv = kw.get("dim", kw.get("axis", A(2)))
                ax = self.ckey(axv) if axv is not None and not self.is_none(axv) else None
                if n.shape is None or ks is None or len(ks) != 1: return new(g.mk("repeat_interleave", [n] + [self.arr(a, st) for a in args[1:]], ax, None, n.dt))
                sh = (st.norm(self.numel(n) * ks[0]),) if ax is None else tuple(d * ks[0] if i == ax % len(n.shape) else d for i, d in enumerate(n.shape))
                return new(g.mk("repeat_interleave", [n, I.node_of(args[1], st)], ax, sh, n.dt))
            sh = None
            if n.shape is not None and ks is not None and len(ks) >= len(n.shape):
                base = (D1,) * (len(ks) - len(n.shape)) + n.shape
                sh = tuple(st.norm(a * b) for a, b in zip(base, ks))
                if all(a == D1 or b == D1 for a, b in zip(base, ks)): return new(self.expand(n, sh))
            return new(g.mk("tile", [n] + [g.dim(k) for k in ks or ()], None, sh, n.dt))
        if name == "broadcast_to":
            return I.alloc(st, ArrO(None, (args[0].oid, ("expand", self.shape_arg([args[1]], st))), lib), "bto") if isinstance(args[0], Ref) and isinstance(I.obj(args[0], st), ArrO) else new(self.expand(self.arr(args[0], st), self.shape_arg([args[1]], st)))
        if name in ("chunk", "split", "array_split", "hsplit", "vsplit"):
            n = self.arr(args[0], st)
            k = self.ckey(A(1, "chunks", kw.get("indices_or_sections")))
            ax = self.ckey(A(2, "dim", kw.get("axis", self.const(0))))
            if name == "chunk" and isinstance(k, int) and n.shape is not None and isinstance(ax, int):
                ax %= len(n.shape)
                q = n.shape[ax].div(Dim.const(k))
                sh = lambda: tuple((q if q is not None else new_sym(("chunk", n.shape[ax], k))) if i == ax else d for i, d in enumerate(n.shape))
                if isinstance(args[0], Ref):
                    return TupleV([I.alloc(st, ArrO(None, (args[0].oid, ("part", (ax, k, i), sh())), lib), ("chunk", args[0].oid, i)) for i in range(k)])
                return TupleV([new(g.mk("part", [n], (ax, k, i), sh(), n.dt), ("chunk", i)) for i in range(k)])
            return I.new_list(st, None, new(g.mk("call:split", [n], None, None, n.dt)), self.fresh_len("split"), key="split")
        if name in ("allclose", "isclose", "array_equal", "array_equiv"):
            a, b = self.arr(args[0], st), self.arr(args[1], st)
            for x in (a, b):
                if x.dt in ("s", "N", "o") and name != "array_equal": I.must_raise(st, "TypeError", "isclose on non numbers")
            sh = self.bcast(a.shape, b.shape, st) if name in ("isclose", "allclose") else ()
            tol = tuple((k, self.ckey(v)) for k, v in sorted(kw.items()))
            tolp = tuple(self.ckey(v) for v in args[2:])
            if name == "isclose": return new(g.mk("isclose", [a, b], (tolp, tol), sh, "b"))
            return g.mk(name, [a, b], (tolp, tol), (), "b")
        if name in ("nonzero", "argwhere"):
            n = self.arr(args[0], st); ln = self.count_true(n, st)
            r = len(n.shape) if n.shape is not None else None
            if lib == "torch" or name == "argwhere": return new(g.mk("argwhere", [n], None, (ln, Dim.const(r)) if r else None, "i"))
            return TupleV([new(g.mk("nonzero", [n], i, (ln,), "i"), ("nz", i)) for i in range(r or 1)])
        if name == "unravel_index":
            n = self.arr(args[0], st)
            sh = A(1, "shape")
            k = len(sh.items) if isinstance(sh, TupleV) else 2
            dims = self.shape_arg([sh], st)
            return TupleV([g.mk("unravel", [n], (i, tuple(dims) if dims else None), n.shape, "i", meta={"bound": dims[i] if dims else None, "np": True}) for i in range(k)])
        if name == "unique":
            n = self.arr(args[0], st)
            ln = new_sym(f"~uniq{n.id}", 0)
            ax = self.ckey(kw["axis"]) if "axis" in kw else None
            if ax == 0 and lib == "np" and n.shape and not any(k.startswith("return_") for k in kw):
                return new(g.mk("call:uniquerows", [n], None, (ln,) + tuple(n.shape[1:]), n.dt))
            r = new(g.mk("unique", [n], None, (ln,), n.dt))
            flags = [k for k in ("return_index", "return_inverse", "return_counts") if k in kw and I.node_of(kw[k], st).const is True]
            if flags: return TupleV([r] + [new(g.mk("unique", [n], f, (ln,) if f != "return_inverse" else n.shape, "i"), f) for f in flags])
            return r
        if name in ("array2string", "array_str", "array_repr"):
            return g.mk("call:" + name, [self.arr(args[0], st)], None, (), "s")
        if name in ("issubdtype", "isdtype") and len(args) == 2 and isinstance(args[0], Node) and args[0].op == "attr" and args[0].attr == "dtype" and isinstance(args[1], ExtV):
            k = args[0].args[0].dt; o = args[1].name.split(".")[-1]
            sets = {"floating": "f", "inexact": "fc", "integer": "i", "signedinteger": "i", "number": "fci", "complexfloating": "c", "bool_": "b", "float64": "f", "int64": "i"}
            if k in ("f", "i", "b", "c") and o in sets: return self.const(k in sets[o])
        if name in ("is_floating_point", "is_complex", "isrealobj", "iscomplexobj"):
            k = self.arr(args[0], st).dt
            if k in ("f", "i", "b", "c"): return self.const({"is_floating_point": k == "f", "is_complex": k == "c", "iscomplexobj": k == "c", "isrealobj": k != "c"}[name])
        if name in ("isscalar", "iscomplexobj", "is_tensor", "ndim_"): return g.mk("call:" + name, [self.arr(args[0], st)], None, (), "b")
        if name in ("shape", "ndim", "size"):
            n = self.arr(args[0], st)
            if name == "shape": return self.dims_tuple(n.shape) if n.shape is not None else g.mk("shape", [n])
            if name == "ndim": return self.const(len(n.shape)) if n.shape is not None else g.mk("ndim", [n], None, (), "i")
            return self.size_node(n, st)
        if name in ("may_share_memory", "shares_memory"): return g.mk("call:" + name, [self.arr(a, st) for a in args], None, (), "b")
        if name in ("tril", "triu"): 
            n = self.arr(args[0], st); return new(g.mk("call:" + name, [n], None, n.shape, n.dt))
        if name in ("trapezoid", "trapz", "interp", "correlate", "convolve", "histogram", "percentile", "quantile", "searchsorted", "digitize", "kron", "take", "gradient", "meshgrid", "index_select", "gather", "masked_select"):
            ns = [self.arr(a, st) for a in args]
            if name == "take" and len(ns) >= 2:
                sh = self.index_shape(ns[0].shape, (("a", 0),), [ns[1]], st) if ns[1].shape != () else None
                return new(self.index_node(ns[0], (("a", 0),), [ns[1]], sh))
            return new(g.mk("call:" + name, ns, tuple(sorted((k, str(self.ckey(v))) for k, v in kw.items())), None, "f"))
        return None


class _FN:
    def __init__(self, l=0, c=0): self.lineno, self.col_offset = l, c + 9000


NP_METHODS = None
def hasattr_lib(lib, name):
    if lib == "torch": return not name.startswith("__") or True
    known = {"copy", "astype", "flatten", "ravel", "reshape", "transpose", "swapaxes", "squeeze", "item", "tolist", "fill", "sort", "argsort", "put", "resize", "itemset",
             "dot", "clip", "round", "repeat", "take", "view", "nonzero", "trace", "diagonal", "cumsum", "cumprod", "conj", "conjugate", "tobytes", "dumps", "setflags", "compress",
             "choose", "searchsorted", "byteswap", "partition", "argpartition", "setfield", "getfield", "tofile", "dump", "ptp", "__len__", "__getitem__", "__array__", "flags", "ctypes"} | RED
    return name in known or name.startswith("__")
