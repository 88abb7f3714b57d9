"""Reference frames of axes: fractional and Cartesian quantities are never mixed (C10)."""
import ast
from .framework import *
from .domains import Domain
from fractions import Fraction
from .checks_resp import sinks, conditions, last, Scale, X, Z
from .checks_text import Text

# kinds of axes: c Cartesian component, u fractional component, d index over lattice vectors (pairs with u),
# - not spatial, ? not known, * literal constants (fit anything)
SPATIAL = set("cud")
DUAL = {"c": "c", "u": "d", "d": "u", "-": "-", "?": "?", "*": "*"}
FRAC = {"positions", "positions_1", "positions_2", "ref_positions", "positions_ts", "positions_batch", "displacement", "displacements", "direction", "frac_coords",
        "reference_positions", "permuted_positions", "translation", "translations", "coords"}
CART = {"cart_displacement", "cart_direction", "cart_basis_vector", "cart_coords", "unit_vectors", "cart_unit_vectors"}
TENSOR = {"polarizabilities", "polarizability", "polarizability_ts", "ref_polarizability", "mean_polarizability", "stddev_polarizability", "raman_tensors", "mean", "stddev"}
# what follows a heading of an OUTCAR, what is in an element of a vasprun.xml: kinds of (rows, numbers of a row)
HEADINGS = [("direct lattice vectors", ("d", "c")), ("fractional coordinates", ("-", "u")), ("cartesian coordinates", ("-", "c")), ("TOTAL-FORCE", ("-", "c")),
            ("DIELECTRIC TENSOR", ("c", "c")), ("cm-1", ("-", "c")), ("Eigenvectors", ("-", "c"))]
PATHS = [("basis", ("d", "c")), ("dielectric", ("c", "c")), ("eigenvectors", ("-", "c")), ("forces", ("-", "c")), ("velocities", ("-", "c")), ("varray", ("-", "u"))]
NAMES = {"c": "Cartesian", "u": "fractional", "d": "lattice-vector"}


def kinds_of(name, shape):
    if shape is None: return None
    k = len(shape)
    if name in FRAC and k >= 1: return ("-",) * (k - 1) + ("u",)
    if name in CART and k >= 1: return ("-",) * (k - 1) + ("c",)
    if name in TENSOR and k >= 2: return ("-",) * (k - 2) + ("c", "c")
    if name in ("lattice", "lattices", "matrix") and k >= 2: return ("-",) * (k - 2) + ("d", "c")
    if name in ("rotation", "rotations") and k >= 2: return ("-",) * (k - 2) + ("u", "d")
    return None


class Frames(Domain):
    """Kinds of the axes of a value: a tuple with one kind per axis, or None."""
    TOP = None
    KEEP = {"neg", "abs", "u:abs", "u:absolute", "u:fabs", "cast", "copy", "u:floor", "u:round", "u:rint", "u:ceil", "u:trunc", "round", "trunc", "cumsum", "sort", "u:sign", "not", "u:sqrt", "u:square",
            "u:isnan", "u:isfinite", "u:logical_not", "u:negative", "u:exp", "u:cos", "u:sin", "u:log", "u:real", "u:conj", "roll", "flip", "cumprod"}
    PAIRS = {"add", "sub", "u:maximum", "u:minimum", "u:hypot", "u:arctan2", "isclose"}
    REDUCE = {"sum", "mean", "max", "min", "prod", "any", "all", "var", "std", "norm", "median", "argmax", "argmin", "count_nonzero", "logsumexp"}

    def __init__(self, I, marks=None, rot=("u", "d"), lines=None):
        super().__init__(I)
        self.bad, self.good, self.marks, self.dots, self.rot, self.lines = {}, 0, marks or {}, {}, rot, lines or {}

    # -- helpers
    def unknown(self, n): return ("?",) * len(n.shape) if n.shape is not None else None

    def one(self, a, b):
        if a == b: return a
        if a == "*": return b
        if b == "*": return a
        if "?" in (a, b): return "?" if not (SPATIAL & {a, b}) else (a if a in SPATIAL else b)
        if a == "-" or b == "-": return a if b == "-" else b
        return None

    def join(self, a, b):
        if a is None or b is None or len(a) != len(b): return None
        r = []
        for x, y in zip(a, b):
            k = self.one(x, y)
            r.append("!" if k is None else k)
        return tuple(r)

    def clash(self, n, what, ks):
        self.bad.setdefault(n.id, (n, what, ks))

    def broadcast(self, vs):
        k = max((len(v) for v in vs), default=0)
        return [("*",) * (k - len(v)) + tuple(v) for v in vs]

    def op_leaf(self, n):
        m = self.marks.get(n.id)
        if m is not None: return m
        r = kinds_of(last(n), n.shape) if isinstance(n.attr, str) and n.dt != "s" else None
        if r is not None and last(n) in ("rotation", "rotations"): r = r[:-2] + self.rot
        return r if r is not None else (("?",) * len(n.shape) if n.shape is not None else None)

    def op_const(self, n): return ("*",) * len(n.shape or ())

    def op_eye(self, n): return ("?", "?")
    def op_uninit(self, n): return ("*",) * len(n.shape) if n.shape is not None else None
    def op_spg_rotations(self, n): return ("-",) + self.rot
    def op_spg_translations(self, n): return ("-", "u")

    def op_full(self, n):
        if n.shape is None: return None
        v = self.val(n.args[0])
        if v: return (("-",) * len(n.shape) + v)[-len(n.shape):] if len(v) <= len(n.shape) else None
        return ("*",) * len(n.shape) if n.args[0].const is not NO else ("-",) * len(n.shape)

    def op_expand(self, n):
        v = self.val(n.args[0])
        if n.shape is None or v is None or len(v) > len(n.shape): return None
        s = n.args[0].shape
        fill = "*" if all(k == "*" for k in v) and n.args[0].const is not NO else "-"
        return (fill,) * (len(n.shape) - len(v)) + v

    def op_transpose(self, n):
        v = self.val(n.args[0])
        if v is None or n.attr is None: return None
        return tuple(v[p] for p in n.attr)

    def op_inv(self, n):
        v = self.val(n.args[0])
        if v is None or len(v) < 2: return None
        return v[:-2] + (DUAL.get(v[-1], "?"), DUAL.get(v[-2], "?"))

    def op_reshape(self, n):
        v = self.val(n.args[0])
        a, b = n.args[0].shape, n.shape
        if v is None or a is None or b is None: return None if b is None else ("?",) * len(b)
        a, v, b = list(a), list(v), list(b)
        out = []
        if len(a) == 1 and len(b) > 1 and b[-1] == Dim.const(3): return ("-",) * (len(b) - 1) + (v[0],)
        while b:
            d = b[-1]
            if d == Dim.const(1) and not (a and a[-1] == d): out.append("-"); b.pop(); continue
            if a and a[-1] == Dim.const(1) and a[-1] != d: a.pop(); v.pop(); continue
            if a and a[-1] == d: out.append(v.pop()); a.pop(); b.pop(); continue
            # merged: d is the product of the trailing extents
            p, j, ks = Dim.const(1), len(a), set()
            while j > 0 and p != d:
                j -= 1; p = p * a[j]; ks |= {v[j]}
            if p == d and j < len(a):
                ks -= {"-"}
                del a[j:], v[j:]; b.pop()
                out.append(ks.pop() if len(ks) == 1 else ("-" if not ks else "?")); continue
            if a:                  # split: the fastest part keeps the kind
                p, j = Dim.const(1), len(b)
                while j > 0 and p != a[-1]:
                    j -= 1; p = p * b[j]
                if p == a[-1] and j < len(b) - 1:
                    k = v.pop(); a.pop(); m = len(b) - j
                    del b[j:]
                    out.append(k); out += ["-"] * (m - 1); continue
            out += ["?"] * len(b); b = []
        return tuple(reversed(out))

    def indexed(self, n, v, spec, args):
        """kinds of x[spec]"""
        if v is None: return None
        out, ax, adv, pos = [], 0, False, None
        for e in spec:
            if e[0] == "n": out.append("-"); continue
            if e[0] == "e" or ax >= len(v): return None
            if e[0] == "s": out.append(v[ax]); ax += 1; continue
            if e[0] in ("c", "i"): ax += 1; continue
            k = args[e[1]]
            if k.shape is None: return None
            if k.dt == "b": ax += len(k.shape); w = 1
            else: ax += 1; w = len(k.shape)
            if not adv: out += ["-"] * w; adv = True
            elif w > 1: return None
        return tuple(out) + tuple(v[ax:])

    def op_index(self, n):
        r = self.indexed(n, self.val(n.args[0]), n.attr, n.args[1:])
        if r is not None and n.shape is not None and len(r) == len(n.shape): r = tuple("-" if d == Dim.const(1) else k for k, d in zip(r, n.shape))
        return r if n.shape is None or r is not None and len(r) == len(n.shape) else ("?",) * len(n.shape)

    def op_update(self, n):
        x, v = self.val(n.args[0]), self.val(n.args[1])
        if x is None or v is None: return self.unknown(n)
        try: slot = self.indexed(n, x, n.attr, n.args[2:])
        except (TypeError, IndexError): slot = None
        if slot is None or len(v) > len(slot): return x if v == () or not SPATIAL & set(v) else self.unknown(n)
        a, b = self.broadcast([slot, v])
        j = self.join(a, b)
        if "!" in j: self.clash(n, "is stored into an array of", (v, slot)); return x
        # refine wildcards of the target from what is stored, when axes line up from the right
        r = list(x)
        k = len(v)
        tail = [i for i, e in enumerate(list(n.attr) + [("s",)] * (len(x) - len([e for e in n.attr if e[0] != "n"]))) if e[0] == "s"] if not any(e[0] == "n" for e in n.attr) else []
        for i, kk in zip(reversed(tail), reversed(v)):
            if i < len(r) and r[i] in "*-?" and kk in SPATIAL: r[i] = kk
        return tuple(r)

    def op_stack(self, n):
        v = self.val(n.args[0])
        if v is None: return self.unknown(n)
        r = self.rows(n, v)
        return r if n.shape is None or len(r) == len(n.shape) else self.unknown(n)

    def rows(self, n, v):
        """kinds of a sequence of values that were read from a file"""
        m = self.source(n) if len(v) < 2 and set(v) <= {"c", "u", "?", "-", "*"} else None
        if m is None: return ("-",) + v
        if v == () : return (m[1],)
        return (m[0], m[1]) if v[0] == m[1] else ("-",) + v

    def source(self, n):
        """(kind of the rows, kind of the numbers in a row) when all of a value was read below one heading or element"""
        ls = {a for a in leaves(n) if a.op == "leaf" and isinstance(a.attr, tuple) and a.attr[0] == "line"}
        ms = {self.lines.get(a.id) for a in ls}
        if not ls:
            todo, seen, ms = [n], set(), set()
            while todo:
                x = todo.pop()
                if x.id in seen: continue
                seen.add(x.id)
                if x.op in ("xml:find", "xml:iterfind", "xml:findall"):
                    p = next((a.const for a in x.args if isinstance(a.const, str)), "")
                    ms.add(next((k for w, k in PATHS if w in p), None))
                elif x.op != "leaf": todo += [a for a in x.args if isinstance(a, Node)]
        return ms.pop() if len(ms) == 1 else None

    def op_stackx(self, n):
        ax = n.attr if isinstance(n.attr, int) else 0
        vs = [self.val(a) for a in n.args]
        if not vs or any(v is None for v in vs): return self.unknown(n)
        r = vs[0]
        for v in vs[1:]:
            r = self.join(r, v)
            if r is None: return self.unknown(n)
        if "!" in r: return self.unknown(n)
        r = self.rows(n, r)
        return r if n.shape is None or len(r) == len(n.shape) else self.unknown(n)

    def op_concat(self, n):
        vs = [self.val(a) for a in n.args]
        if not vs or any(v is None for v in vs): return self.unknown(n)
        r = vs[0]
        for v in vs[1:]:
            r = self.join(r, v)
            if r is None: return self.unknown(n)
        if "!" in r: self.clash(n, "are joined", (vs[0], vs[-1])); return self.unknown(n)
        return r
    op_concatl = op_concat

    def op_iterelem(self, n):
        v = self.val(n.args[0])
        return v[1:] if v else self.unknown(n)
    op_anyelem = op_iterelem

    def same(self, n):
        v = self.val(n.args[0])
        return v if n.shape is None or v is not None and len(v) == len(n.shape) else self.unknown(n)
    op_part = op_tile = op_repeat_interleave = same

    def elementwise(self, n, args, what):
        vs = [self.val(a) for a in args]
        if any(v is None for v in vs): return self.unknown(n)
        vs = self.broadcast(vs)
        r = vs[0]
        for v in vs[1:]:
            j = self.join(r, v)
            if j is None: return self.unknown(n)
            if "!" in j: self.clash(n, what, (r, v)); return tuple(x if x != "!" else y for x, y in zip(j, r))
            r = j
        if sum(bool(SPATIAL & set(v)) for v in vs) > 1: self.good += 1
        return r

    def op_where(self, n):
        c = self.val(n.args[0])
        r = self.elementwise(n, n.args[1:3], "are merged with")
        return r

    def op_mul(self, n):
        vs = [self.val(a) for a in n.args]
        if any(v is None for v in vs): return self.unknown(n)
        a, b = self.broadcast(vs)
        x, y = n.args
        if 0 in [c.const for c in n.args if isinstance(c.const, (int, float))]: return ("*",) * len(a)
        r = []
        for p, q in zip(a, b):
            if p in SPATIAL and q in SPATIAL: r.append("-" if p == q == "c" or DUAL[p] == q else "m")
            else: r.append(self.one(p, q) or "?")
        if "m" in r:
            self.dots[n.id] = self.base(x) is self.base(y)
            return tuple("-" if k == "m" else k for k in r)
        return tuple(r)

    def base(self, n):
        """n up to a scalar factor"""
        while n.op in ("mul", "div", "neg"):
            if n.op == "neg": n = n.args[0]
            elif n.args[1].shape == (): n = n.args[0]
            elif n.op == "mul" and n.args[0].shape == (): n = n.args[1]
            else: break
        return n

    def op_div(self, n):
        vs = [self.val(a) for a in n.args]
        if any(v is None for v in vs): return self.unknown(n)
        a, b = self.broadcast(vs)
        return tuple((p if q not in SPATIAL else ("-" if p == q else q if p == "*" else p if p in SPATIAL else q)) for p, q in zip(a, b))

    def op_pow(self, n): return self.same(n)
    op_mod = op_floordiv = op_u_mod = same

    def contract(self, n, p, q, x, y, swap=None):
        """The kinds p of x and q of y are summed over; returns False on a clash."""
        if p in SPATIAL and q in SPATIAL:
            if DUAL[p] == q: self.good += 1; return True
            if p == q == "u" and n.shape == (): self.dots[n.id] = self.base(x) is self.base(y); return True
            if p == q == "u" and self.base(x) is self.base(y): return True
            return False
        return True

    def op_matmul(self, n):
        x, y = n.args
        a, b = self.val(x), self.val(y)
        if a is None or b is None or not a or not b: return self.unknown(n)
        p, q = a[-1], b[-2] if len(b) > 1 else b[-1]
        if not self.contract(n, p, q, x, y):
            self.clash(n, "is contracted with", (a, b))
            if len(b) > 1 and DUAL[p] == b[-1]: b = b[:-2] + (b[-1], b[-2])
            elif len(a) > 1 and DUAL[a[-2]] == q: a = a[:-2] + (a[-1], a[-2])
        if p not in SPATIAL and len(b) > 1 and {b[-1], b[-2]} == {"u", "d"}: b = b[:-2] + (b[-2], "?")
        if len(a) == 1: return b[:-2] + b[-1:] if len(b) > 1 else ()
        lead = a[:-2]
        if len(b) > 2: lead = self.broadcast([a[:-2], b[:-2]])[0] if len(a) >= len(b) else b[:-2]
        return tuple("-" if k == "*" else k for k in lead) + (a[-2],) + ((b[-1],) if len(b) > 1 else ())

    def op_einsum(self, n):
        if not isinstance(n.attr, str) or "->" not in n.attr: return self.unknown(n)
        ins, out = n.attr.split("->")
        ins = ins.split(",")
        vs = [self.val(a) for a in n.args]
        if "..." in n.attr and all(v is not None for v in vs):
            dots = [len(v) - len(s) + 3 if "..." in s else 0 for v, s in zip(vs, ins)]
            if min(dots) < 0: return self.unknown(n)
            names = [chr(0x3b1 + i) for i in range(max(dots))]
            ins = [s.replace("...", "".join(names[max(dots) - d:])) for s, d in zip(ins, dots)]
            out = out.replace("...", "".join(names))
        if any(v is None or len(v) != len(s) for v, s in zip(vs, ins)): return ("?",) * len(out)
        k = {}
        where = {}
        for i, (s, v) in enumerate(zip(ins, vs)):
            for ch, kk in zip(s, v): where.setdefault(ch, []).append((i, kk))
        r = {}
        for ch, ws in where.items():
            sp = [(i, kk) for i, kk in ws if kk in SPATIAL]
            if ch not in out and len(sp) == 2:
                (i, p), (j, q) = sp
                if not self.contract(n, p, q, n.args[i], n.args[j]): self.clash(n, "is contracted with", (vs[i], vs[j]))
            r[ch] = sp[0][1] if sp else ws[0][1]
        return tuple(r[ch] for ch in out)

    def op_cross(self, n):
        vs = [self.val(a) for a in n.args[:2]]
        if any(v is None for v in vs): return self.unknown(n)
        for v in vs:
            if v and v[-1] in "ud": self.clash(n, "enters a cross product with", (vs[0], vs[1]))
        return self.elementwise(n, n.args[:2], "enters a cross product with")

    def default(self, n):
        op = n.op
        if n.const is not NO: return self.op_const(n)
        if op in self.KEEP: return self.same(n)
        if op in self.PAIRS or op.startswith("cmp:"):
            self.metric(n)
            return self.elementwise(n, n.args[:2], "is compared with" if op.startswith("cmp:") or op == "isclose" else "is combined with")
        if op == "allclose": self.metric(n); self.elementwise(n, n.args[:2], "is compared with"); return ()
        if op in self.REDUCE:
            v = self.val(n.args[0])
            if v is None or n.shape is None: return self.unknown(n)
            if n.attr and n.attr[0] is not None and not n.attr[1]:
                ax = n.attr[0]
                ax = (ax,) if isinstance(ax, int) else ax
                ax = {a % len(v) for a in ax}
                r = tuple(k for i, k in enumerate(v) if i not in ax)
                return r if len(r) == len(n.shape) else self.unknown(n)
            return ("-",) * len(n.shape)
        return self.unknown(n)

    def shifted(self, n):
        """(x, k) with n = x + k"""
        k = 0.0
        while n.op in ("add", "sub") and len(n.args) == 2:
            c = [i for i in (0, 1) if isinstance(n.args[i].const, (int, float))]
            if not c or n.op == "sub" and c[0] == 0: break
            k += n.args[c[0]].const * (1 if n.op == "add" else -1); n = n.args[1 - c[0]]
        return n, k

    def metric(self, n):
        """An inner product of fractional vectors may only be compared with plus or minus one (same direction or not)."""
        for i in (0, 1):
            a, b = n.args[i], n.args[1 - i]
            c = b.const if b.const is not NO else b.args[0].const if b.op == "full" else NO
            if not isinstance(c, (int, float)): continue
            x, k = self.shifted(a)
            size = False
            while x.op in ("abs", "u:abs", "u:absolute", "cast", "item"): size |= "abs" in x.op; x = x.args[0]
            self.val(x)
            src = x if x.id in self.dots else (x.args[0] if x.op == "sum" and x.args and x.args[0].id in self.dots else None)
            if src is None or n.op.startswith("cmp:<") and self.dots[src.id] and not size: continue
            if abs(abs(c - k) - 1) > 1e-6: self.clash(n, "angle between fractional vectors is judged without the lattice:", (("u",), ("u",)))


PASS = {"cast", "reshape", "expand", "index", "u:sqrt", "sqrt", "item", "abs", "u:abs", "float", "full", "stack", "copy", "transpose", "part", "phi"}


def lengths(D, nodes):
    """Euclidean lengths of fractional vectors that are used other than to normalise such a vector."""
    users = {}
    for n in nodes:
        for a in n.args:
            if isinstance(a, Node): users.setdefault(a.id, []).append(n)
    out, good = [], []
    for n in nodes:
        if n.op not in ("norm", "sum") or not n.attr or n.shape is None: continue
        x = n.args[0]
        v = D.val(x)
        if v is None: continue
        ax = n.attr[0]
        ax = set(range(len(v))) if ax is None else {a % len(v) for a in ((ax,) if isinstance(ax, int) else ax)}
        sq = n.op == "sum"
        while sq and x.op in ("cast", "reshape"): x = x.args[0]
        if sq and x.op == "pow" and x.args[1].const == 2 or sq and x.op == "u:square": w = D.val(x.args[0])
        elif sq and x.op == "mul" and x.args[0] is x.args[1]: w = D.val(x.args[0])
        elif sq: continue
        else: w = v
        if w is None or len(w) != len(v) and ax != set(range(len(v))): continue
        if not any(k in "ud" for k in ([w[a] for a in ax] if len(w) == len(v) else w)): continue
        todo, seen, wrong = [n], {n.id}, None
        while todo and wrong is None:
            y = todo.pop()
            for u in users.get(y.id, ()):
                if u.id in seen: continue
                if u.op in PASS or u.op in ("mul", "div") and any(isinstance(a.const, (int, float)) for a in u.args): seen.add(u.id); todo.append(u)
                elif u.op == "div" and u.args[1] is y:
                    k = D.val(u.args[0])
                    if not (k and "u" in k): wrong = u
                elif u.op == "mul" and any(D.val(a) and "u" in D.val(a) for a in u.args): seen.add(u.id); todo.append(u)
                elif (u.op.startswith("cmp:") or u.op in ("isclose", "allclose")) and any(a.const == 0 for a in u.args if isinstance(a, Node)): pass
                elif u.op.startswith("cmp:") and any(isinstance(a.const, (int, float)) and abs(a.const) <= 1e-3 for a in u.args): pass
                elif u.op in ("isclose", "allclose", "mul", "add", "sub", "pow", "where", "matmul", "einsum") or u.op.startswith(("cmp:", "u:")): wrong = u
        (out if wrong is not None else good).append((n, wrong))
    return out, good


def show(v): return "(" + ",".join(NAMES.get(k, "." if k in "-*" else k) for k in v) + ")"


class Owners:
    """Function that contains a source line."""
    def __init__(self, root): self.root, self.memo = root, {}
    def at(self, site):
        if not site: return "?"
        f, line = site[0], site[1]
        if f not in self.memo:
            out = []
            try:
                def walk(x, name):
                    for c in ast.iter_child_nodes(x):
                        nm = name
                        if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                            nm = (name + "." if name else "") + c.name
                            out.append((c.lineno, c.end_lineno, nm))
                        walk(c, nm)
                walk(ast.parse(open(f"{self.root}/{f}").read()), "")
            except OSError: pass
            self.memo[f] = out
        best = max((x for x in self.memo[f] if x[0] <= line <= x[1]), default=None)
        mod = f.removeprefix("ramannoodle/").removesuffix(".py").replace("/", ".")
        return mod + ("." + best[2] if best else "")


# ------------------------------------------------------------------------- C10
# documented frame of results: pattern of the member or function -> expected kinds (last axes)
U1, C1, CC, DC = ("u",), ("c",), ("c", "c"), ("d", "c")
RESULTS = [("ReferenceStructure.get_cart_displacement", C1), ("ReferenceStructure.get_cart_direction", C1), ("ReferenceStructure.get_frac_displacement", U1), ("ReferenceStructure.get_frac_direction", U1),
           ("ReferenceStructure.positions", U1), ("ReferenceStructure.lattice", DC), ("ReferenceStructure.get_equivalent_displacements", {"displacements": U1}),
           ("utils.apply_pbc", U1), ("utils.apply_pbc_displacement", U1), ("utils.calc_displacement", U1), ("utils.displace_positions", U1), ("utils.transform_positions", U1),
           ("_displace.get_displaced_positions", U1), ("_displace.get_ast_displaced_positions", U1), ("Phonons.ref_positions", U1), ("Phonons.displacements", U1), ("Trajectory.positions_ts", U1),
           ("Trajectory.__getitem__(int)", U1), ("Trajectory.__getitem__(slice)", U1), ("InterpolationModel.cart_basis_vectors", C1), ("ARTModel.cart_basis_vectors", C1),
           ("InterpolationModel.calc_polarizabilities", CC), ("ARTModel.calc_polarizabilities", CC), ("InterpolationModel.ref_polarizability", CC),
           ("PhononRamanSpectrum.raman_tensors", CC), ("MDRamanSpectrum.polarizability_ts", CC), ("PolarizabilityDataset.positions", U1), ("PolarizabilityDataset.polarizabilities", CC),
           ("outcar.read_positions", U1), ("vasprun.read_positions", U1), ("outcar.read_trajectory", {"_positions_ts": U1}), ("vasprun.read_trajectory", {"_positions_ts": U1}),
           ("outcar.read_phonons", {"_ref_positions": U1, "_displacements": U1}), ("vasprun.read_phonons", {"_ref_positions": U1, "_displacements": U1}),
           ("outcar.read_ref_structure", {"_positions": U1, "_lattice": DC}), ("vasprun.read_ref_structure", {"_positions": U1, "_lattice": DC}),
           ("outcar.read_positions_and_polarizability", {"[0]": U1, "[1]": CC}), ("vasprun.read_positions_and_polarizability", {"[0]": U1, "[1]": CC}),
           ("outcar.read_structure_and_polarizability", {"[0]": DC, "[2]": U1, "[3]": CC}), ("vasprun.read_structure_and_polarizability", {"[0]": DC, "[2]": U1, "[3]": CC}),
           ("pymatgen.get_positions", U1), ("pymatgen.construct_trajectory", {"_positions_ts": U1}), ("pymatgen.construct_ref_structure", {"_positions": U1, "_lattice": DC}),
           ("pymatgen.get_structure", {"[0]": DC, "[2]": U1})]


def compare(got, want):
    """True/False/None: the last axes have the expected kinds"""
    if got is None or len(got) < len(want): return None
    t = got[-len(want):]
    if any(a != b and a in "cud!" for a, b in zip(t, want)): return False
    return True if all(a == b for a, b in zip(t, want)) else None


def headed(E, r):
    """marks of the lines of an OUTCAR by the heading they follow in the order in which the file is read"""
    lines, cur, seen = {}, None, set()
    heads = {}
    for n in list(E.g.table.values()):
        if n.op != "str:contains": continue
        k = next((m for w, m in HEADINGS for a in n.args if isinstance(a.const, str) and (w in a.const or len(a.const) > 3 and a.const in w)), None)
        if k is None: continue
        for x in leaves(n):
            if x.op == "leaf" and isinstance(x.attr, tuple) and x.attr[0] == "line": heads[x.id] = k
    for e in r.events:
        if e.kind != "read": continue
        n = e.data["node"]
        if n.id in heads: cur = heads[n.id]
        elif cur is not None and n.id not in seen: lines[n.id] = cur
        seen.add(n.id)
    return lines


def parts(E, r, key):
    """nodes of the result under a label such as '[0]' or a field '_positions'"""
    out, walk = sinks(E, r, r.st)
    return [n for lab, n in out if key is None or (lab.startswith("result" + key) if key.startswith("[") else lab.endswith("." + key) or f"[{key!r}]" in lab)]


def c10(chk):
    from .checks_interp import rotated
    rotated(chk)
    E = chk.entries("plain")
    rs = E.all()
    ow = Owners(REPO)
    lines = {}
    for r in rs:
        if ".io." in r.name: lines.update(headed(E, r))
    worlds = []
    for rot in (("u", "d"), ("d", "u")):
        D = Frames(E.I, rot=rot, lines=lines)
        known, partial = {}, set()
        for n in list(E.g.table.values()):
            D.val(n)
            if n.op in ("matmul", "einsum", "add", "sub", "where", "cross") and len(n.args) > 1:
                ks = [D.val(a) for a in (n.args[1:] if n.op == "where" else n.args)]
                if sum(bool(k and SPATIAL & set(k)) for k in ks) > 1:
                    known.setdefault((ow.at(n.site), n.op), []).append(n)
        worlds.append((D, known))
    (D1, k1), (D2, k2) = worlds
    D, known = (D2, k2) if len(D2.bad) < len(D1.bad) else (D1, k1)
    bad, seen = {}, set()
    for n, what, ks in D.bad.values(): bad.setdefault(ow.at(n.site), []).append((n, what, ks))
    for con, v in sorted(bad.items()):
        n, what, ks = v[0]
        chk.bad("mixed frames", con, n.site, f"{' '.join(show(k) + (' ' + what if i == 0 else '') for i, k in enumerate(ks))} ({n.op}; {len(v)} place(s))")
    for (con, op), ns in sorted(known.items()):
        if con not in bad: chk.ok("mixed frames", f"{con}: {op}")
    wrong, fine = lengths(D, list(E.g.table.values()))
    wrong_at = {ow.at(n.site) for n, _ in wrong}
    for n, u in wrong: chk.bad("length", ow.at(n.site), n.site, f"the Euclidean length of fractional components is used as a length ({u.op} at {u.site})")
    for n, _ in fine:
        if ow.at(n.site) not in wrong_at: chk.ok("length", ow.at(n.site))
    rot = [n for n in E.g.table.values() if n.op == "spg:rotations"]
    if rot:
        used = sorted({ow.at(n.site) for n, _, _ in D1.bad.values() if any(x.op == "spg:rotations" or last(x) in ("rotation", "rotations") for x in deps(n))})
        if D is D2 and used:
            chk.bad("rotation-convention", "spglib rotations", rot[0].site, "spglib's rotations act on column vectors of fractional coordinates (x' = W x + w) but are used on row vectors (x W + w) in " + ", ".join(used))
        else: chk.ok("rotation-convention", "spglib rotations")
    found = set()
    for r in rs:
        if r.name.endswith(":dummy"): continue
        hit = [(k, w) for k, w in RESULTS if r.name.endswith("." + k)]
        if not hit: continue
        k, want = hit[0]
        found.add(k)
        where = (r.fn.mod.rel, r.fn.node.lineno) if getattr(r, "fn", None) is not None and hasattr(r.fn, "mod") else ""
        if r.st is None: continue
        for key, kinds in (want.items() if isinstance(want, dict) else [(None, want)]):
            con = short(r.name) + (f" {key}" if key else "")
            ns = parts(E, r, key)
            if not ns: chk.unknown("documented frame", con, where, "result not found"); continue
            vs = [(compare(D.val(n), kinds), n) for n in ns if n.shape is None or len(n.shape) >= len(kinds)]
            if not vs: chk.unknown("documented frame", con, where, "no array in the result"); continue
            v = next((v for v in vs if v[0] is False), None) or next((v for v in vs if v[0] is None), None) or vs[0]
            chk.decide(v[0], "documented frame", con, where, f"documented as {show(kinds)}, found {show(D.val(v[1])) if D.val(v[1]) is not None else 'an unknown kind'}")
    for k, _ in RESULTS:
        if k not in found: chk.unknown("documented frame", k, "", "operation not found")
    poscar(chk)


class Chars(Text):
    """Example texts down to single characters and lengths."""
    def step(self, n):
        if n.op in ("str:char", "str:index") and len(n.args) == 2:
            a, k = (self.val(x) for x in n.args)
            return a[int(k)] if isinstance(a, str) and k is not None else None
        if n.op == "floatstr":
            a = self.val(n.args[0])
            return None if a is None else float(a)
        return super().step(n)


class Token(Scale):
    """Degree in a number of a text line."""
    def special(self, n, vs):
        if n.op.startswith("str:") or n.op in ("floatstr", "iterelem"): return vs[0]
        if n.op in ("det", "call:det"): return vs[0] * 3 if isinstance(vs[0], (int, Fraction)) and not isinstance(vs[0], bool) and vs[0] not in (X, Z) else NO
        return super().special(n, vs)


MODES = {"Direct": "Direct\n", "direct": "direct\n", "Cartesian": "Cartesian\n", "cartesian": "cartesian coordinates\n"}


def poscar(chk):
    """POSCAR and XDATCAR: the position lines are fractional in Direct mode and scaled Cartesian in Cartesian mode."""
    for name in ("poscar.read_positions", "poscar.read_ref_structure", "xdatcar.read_positions_ts"):
        for mode, text in MODES.items():
            for scale in ("2.0", "-2.0"): poscar_file(chk, name, mode, text, scale)


def poscar_file(chk, name, mode, text, scale):
    E = chk.entries("plain")
    f = chk.anchor("ramannoodle.io.vasp." + name)
    where = (f.mod.rel, f.node.lineno)
    con = f"{name} [{mode}, scale factor {scale}]"
    labels, ev0 = set(), len(E.I.events)
    def any_line(n): return n.op == "leaf" and isinstance(n.attr, tuple) and n.attr[0] == "line"
    def assume(n, st):
        ls = {m.id for m in deps(n) if any_line(m)}
        if not ls: return None
        if any(isinstance(a.const, str) and a.const.lower() in ("s", "c", "d", "k") for a in deps(n)): labels.update(ls)
        second = {x.id for x in lines_in(E.I.events[ev0:])[1:2]}
        if not ls <= labels | second: return None
        v = Chars(lambda m: text if m.id in labels else scale if m.id in second else None).val(n)
        return bool(v) if isinstance(v, (bool, int, float)) else None
    E.I.assume = assume
    q = E.call_method(f"frames {name} {mode} {scale}", f, None, E.st)
    E.I.assume = None
    if q.st is None: chk.unknown("file frames", con, where, q.error or "no result"); return
    if not labels: chk.unknown("file frames", con, where, "mode line not recognised"); return
    data = [x for x in lines_in(q.events) if x.id not in labels]
    sec, lat, pos = ({x.id for x in part} for part in (data[1:2], data[2:5], data[-1:]))
    if len(data) < 6 or pos & lat: chk.unknown("file frames", con, where, "lines not recognised"); return
    D = Frames(E.I, lines={**{i: ("d", "c") for i in lat}, **{i: ("-", "u" if mode.lower() == "direct" else "c") for i in pos}})
    for key, kinds, deg in ([("_positions", U1, 0), ("_lattice", DC, 1)] if "structure" in name else [(None, U1, 0)]):
        ns = [n for n in parts(E, q, key) if n.shape is not None and len(n.shape) >= 2]
        c2 = con + (f" {key}" if key else "")
        if not ns: chk.unknown("file frames", c2, where, "result not found"); continue
        v = compare(D.val(ns[0]), kinds)
        clash = next(iter(D.bad.values()), None)
        chk.decide(False if clash else v, "file frames", c2, clash[0].site if clash else where, f"documented as {show(kinds)}, found {D.val(ns[0])}")
        def degree(marked, want, con, what):
            T = Token(E.I, lambda n: 1 if n.id in marked else 0)
            d = T.val(ns[0])
            chk.decide(None if d is None else d == want or d not in (X, Z) and abs(float(d) - float(want)) < 1e-9, "scale factor", con, where, f"responds to {what} with degree {d}, not {want} {T.why[:1] + T.bad[:1]}")
        degree(sec, deg if scale == "2.0" else Fraction(deg) / 3, c2, "the scale factor")
        if deg: degree(lat, 1 if scale == "2.0" else 0, c2 + " lengths", "the length of the listed vectors")


def lines_in(events):
    out, seen = [], set()
    for e in events:
        if e.kind == "read" and e.data["node"].id not in seen: seen.add(e.data["node"].id); out.append(e.data["node"])
    return out
