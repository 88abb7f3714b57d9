"""How results respond to a change of description of the inputs: whole-cell shifts (C09), scale of directions (C11)."""
import itertools
from fractions import Fraction
from collections import namedtuple
from .framework import *
from .domains import Domain
from .elem import *
from .checks_spectra import verdict, prop

X = "X"          # depends on the change in a way that is not one of the tracked responses
Z = "zero"       # the constant zero


Mv = namedtuple("Mv", "c whole")


class Response(Domain):
    """Bottom-up propagation of how each value responds to a one-parameter change of marked leaves.

    ``0`` unaffected, other tracked responses per subclass, ``X`` affected otherwise, ``None`` not known."""
    TOP = None
    DATA = {"index", "reshape", "transpose", "expand", "full", "stack", "cast", "part", "concatl", "tile", "iterelem", "stackx", "concat", "item", "squeeze", "update",
            "fmt", "strcat", "list", "tuple", "dict", "obj", "listsum", "repeat_interleave", "roll", "flip", "diag", "triu", "anyelem", "lookup", "swapaxes", "copy"}
    MULTI = {"stackx", "concat", "concatl", "list", "tuple", "strcat", "dict", "obj", "listsum"}
    INDEXED = {"update": 2}
    MINMAX = {"max", "min", "amax", "amin", "u:maximum", "u:minimum", "sort", "median"}

    def __init__(self, I, marked):
        super().__init__(I); self.marked, self.why, self.bad = marked, [], []

    def join(self, a, b):
        if a == b: return a
        if a is None or b is None: return None
        if a == Z: return b
        if b == Z: return a
        return X

    def unknown(self, n, why=""):
        self.why.append(f"{n.op} at {n.site} {why}".strip()); return None

    def affected(self, n, why=""):
        self.bad.append((n.site, f"{n.op} {why}".strip())); return X

    def op_leaf(self, n): return self.marked(n)
    def op_const(self, n):
        return Z if isinstance(n.const, (int, float)) and not isinstance(n.const, bool) and n.const == 0 else 0

    def free(self, v): return v == 0 or v == Z

    def data(self, n):
        k = len(n.args) if n.op in self.MULTI else self.INDEXED.get(n.op, 1)
        r = Z
        for a in n.args[:k]: r = self.join(r, self.val(a))
        if not n.args: r = 0
        for a in n.args[k:]:
            v = self.val(a)
            if v is None: return self.unknown(n, "index")
            if not self.free(v): return self.affected(n, "the index depends on it")
        return r

    def default(self, n):
        if n.const is not NO: return self.op_const(n)
        if n.op == "top": return self.unknown(n, str(n.attr))
        if n.op in self.DATA: return self.data(n)
        vs = [self.val(a) for a in n.args if isinstance(a, Node)]
        if all(self.free(v) for v in vs): return 0
        r = self.special(n, vs)
        if r is not NO: return r
        if any(v is None for v in vs): return None
        return self.other(n, vs)

    def special(self, n, vs): return NO

    OPAQUE = ("top", "call:", "opaque", "lookup", "anyelem")
    def other(self, n, vs):
        if X in vs: return X
        if any(n.op.startswith(o) for o in self.OPAQUE): return self.unknown(n)
        return self.affected(n)

    def op_uninit(self, n): return Z
    def op_update(self, n):
        if n.args[0].op == "uninit" or n.args[0].op == "full" and self.val(n.args[0]) == Z: pass
        return self.data(n)

    def op_where(self, n):
        c = self.val(n.args[0])
        a, b = self.val(n.args[1]), self.val(n.args[2])
        if c is None: return None
        if not self.free(c): return self.affected(n, "the condition depends on it") if c != X else X
        return self.join(a, b)

    def control(self, n, r):
        """phi: the choice between the values must not depend on the change."""
        if r is None or all(a is n.args[0] for a in n.args): return r
        for c in n.ctrl:
            v = self.val(c)
            if v is None: return None
            if not self.truth(v): return X
        return r

    def truth(self, v): return self.free(v)


class Shift(Response):
    """Responses to adding integers to marked values.

    Besides 0 (none) a value is ``Mv(combination, whole)``: it moves by a linear combination of unknown
    rigid offsets (such as the change of a mean over the atoms) and, if ``whole``, by integers."""

    def __init__(self, I, marked):
        super().__init__(I, marked); self.K = Mv((), True)

    def join(self, a, b):
        if isinstance(a, Mv) and isinstance(b, Mv) and a.c == b.c: return Mv(a.c, a.whole or b.whole)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Mv) and not x.c and self.free(y): return x
        return super().join(a, b)

    def whole(self, n):
        if n.const is not NO: return isinstance(n.const, (int, float)) and float(n.const).is_integer()
        if n.op in ("cast", "index", "iterelem", "stack", "item", "transpose", "reshape", "expand", "neg"): return self.whole(n.args[0])
        if n.op == "inv": return self.whole(n.args[0])      # unimodular
        if n.op in ("add", "sub", "mul", "matmul"): return all(self.whole(a) for a in n.args)
        return n.dt in ("i", "b") or n.op in ("spg:rotations", "u:floor", "u:round", "u:rint", "u:ceil", "u:around", "round", "floordiv") or n.op == "leaf" and str(n.attr).split(".")[-1].replace("[]", "") in ("rotation", "rotations")

    def affected(self, n, why=""):
        if self.whole(n) and n.op not in ("add", "sub", "mul", "matmul"):
            self.bad.append((n.site, f"{n.op} {why}".strip()))
            return self.K
        return super().affected(n, why)

    FLOORS = ("u:floor", "u:round", "u:rint", "u:ceil", "round", "floor", "ceil", "u:around")

    def cells(self, n, x):
        """n is an integer-valued value that moves exactly like x: floor(x), x // 1, round(x) ..."""
        while n.op in ("cast",): n = n.args[0]
        if n.op == "floordiv" and n.args[1].const == 1 or n.op in self.FLOORS: return self.still(n.args[0]) is self.still(x)
        return False

    def still(self, n):
        """n without added or subtracted values that do not move"""
        while n.op in ("add", "sub"):
            x, y = n.args
            if self.free(self.val(y)): n = x
            elif n.op == "add" and self.free(self.val(x)): n = y
            else: break
        return n

    def combine(self, a, b, sg):
        if a is None or b is None: return None
        if X in (a, b): return X
        if self.free(a) and self.free(b): return Z if a == b == Z else 0
        c = dict(a.c) if isinstance(a, Mv) else {}
        for k, v in (b.c if isinstance(b, Mv) else ()): c[k] = c.get(k, 0) + sg * v
        w = isinstance(a, Mv) and a.whole or isinstance(b, Mv) and b.whole
        c = tuple(sorted((k, v) for k, v in c.items() if v))
        return Mv(c, w) if c or w else 0

    def times(self, v, k):
        if k == 0: return Z
        if v.whole and not float(k).is_integer(): return X
        return Mv(tuple((s, k * c) for s, c in v.c), v.whole)

    def op_add(self, n): return self.combine(self.val(n.args[0]), self.val(n.args[1]), 1)
    def op_sub(self, n):
        x, y = n.args
        v = self.val(x)
        if self.cells(y, x) and isinstance(v, Mv): return Mv(v.c, True) if v.c else 0
        return self.combine(v, self.val(y), -1)

    def op_neg(self, n):
        v = self.val(n.args[0])
        return self.times(v, -1) if isinstance(v, Mv) else v

    def base(self, n):
        """n without added or subtracted whole numbers"""
        while n.op in ("add", "sub"):
            x, y = n.args
            if y.const is not NO and self.whole(y): n = x
            elif n.op == "add" and x.const is not NO and self.whole(x): n = y
            else: break
        return n

    def op_where(self, n):
        c, a, b = (self.val(x) for x in n.args[:3])
        if c is not None and not self.free(c) and self.base(n.args[1]) is self.base(n.args[2]):
            r = self.join(a, b)
            return r if r is None or r == X else self.combine(r, self.K, 1)
        return super().op_where(n)

    def special(self, n, vs):
        op = n.op
        if None in vs: return NO
        if op == "spglib": return 0        # symmetry of a crystal does not depend on the cell its atoms are listed in
        v = vs[0]
        if op in ("len", "dim", "shape"): return 0
        if not isinstance(v, Mv) and not (len(vs) > 1 and isinstance(vs[1], Mv)): return NO
        if op in ("mod", "u:mod", "u:remainder", "remainder") and isinstance(v, Mv) and n.args[1].const in (1, -1): return Mv(v.c, True) if v.c else 0
        if op in ("call:fmod", "u:fmod", "fmod") and isinstance(v, Mv) and n.args[1].const in (1, -1): return Mv(v.c, True)      # takes the sign of its operand
        if op in ("floordiv",) and n.args[1].const == 1 or op in self.FLOORS: return self.K
        if op in ("mul", "matmul", "einsum", "dot") and len(vs) == 2 and X not in vs:
            if Z in vs: return Z
            for v, w, o in ((vs[0], vs[1], n.args[1]), (vs[1], vs[0], n.args[0])):
                if isinstance(v, Mv) and self.free(w):
                    if o.const is not NO:
                        r = self.times(v, o.const)
                        return self.affected(n) if r == X else r
                    return self.K if self.whole(o) and not v.c else self.affected(n)
        if op == "div" and isinstance(v, Mv) and n.args[1].const is not NO and n.args[1].const:
            r = self.times(v, 1 / n.args[1].const)
            return self.affected(n) if r == X else r
        if op == "mean" and isinstance(v, Mv): return Mv(((n.id, 1),), False)
        if op in ("sum", "cumsum", "diff") and isinstance(v, Mv): return self.K if not v.c else self.affected(n)
        if op in ("u:sin", "u:cos", "u:tan", "u:exp", "u:sinc") and isinstance(v, Mv) and not v.c: return self.periodic(n)
        return NO

    def periodic(self, n):
        """sin, cos (2 pi k x), exp(2 pi i k x) do not notice whole numbers"""
        import math
        x, k = n.args[0], 1.0
        while x.op in ("mul", "neg"):
            if x.op == "neg": x = x.args[0]; continue
            c = [a for a in x.args if a.const is not NO]
            if len(c) != 1: return self.unknown(n)
            k *= c[0].const; x = [a for a in x.args if a is not c[0]][0]
        q = (k.imag if isinstance(k, complex) else k) / (2 * math.pi)
        return 0 if abs(q - round(q)) < 1e-9 else self.affected(n)


class Scale(Response):
    """Degree of homogeneity in a positive factor of the marked values."""
    LINEAR = {"neg", "abs", "u:abs", "u:fabs", "u:absolute", "u:real", "u:imag", "u:negative", "u:conj", "sum", "mean", "std", "cumsum", "diff", "trace", "max", "min", "amax", "amin", "sort", "median",
              "norm", "norm2", "fft", "ifft", "flip", "ptp", "average"}
    ORDER = {"argmax", "argmin", "argsort", "u:sign", "sign", "u:isfinite", "u:isnan", "argwhere", "nonzero", "count_nonzero", "u:signbit", "isfinite", "isnan"}
    SUMS = {"add", "sub", "u:maximum", "u:minimum", "u:hypot", "call:maximum", "call:minimum", "call:fmax", "call:fmin", "call:hypot", "call:clip", "u:add", "u:subtract"}
    PRODUCTS = {"mul", "matmul", "einsum", "dot", "cross", "outer", "u:multiply", "tensordot"}

    def truth(self, v): return v != X          # a value is zero or not whatever its scale

    def special(self, n, vs):
        op = n.op
        if None in vs and op not in self.PRODUCTS: return NO
        if X in vs and not (op in self.PRODUCTS and Z in vs): return X if None not in vs else NO
        num = [v for v in vs if v != Z]
        if op in self.SUMS:
            return self.degree(num, n) if len(set(num)) <= 1 else self.affected(n, "adds values of different scale")
        if op in self.PRODUCTS:
            if Z in vs: return Z
            return sum(vs) if None not in vs else None
        if op == "div":
            if vs[0] == Z: return Z
            return vs[0] - vs[1] if vs[1] != Z else X
        if op == "inv": return -vs[0] if vs[0] != Z else 0
        if op in ("u:sqrt", "sqrt"): return Z if vs[0] == Z else Fraction(vs[0]) / 2
        if op in ("u:square", "square"): return Z if vs[0] == Z else vs[0] * 2
        if op in ("u:reciprocal",): return -vs[0]
        if op in ("pow", "u:power") and self.free(vs[1]):
            e = n.args[1].const
            if isinstance(e, (int, float)) and not isinstance(e, bool): return Z if vs[0] == Z else vs[0] * Fraction(e)
            return self.affected(n)
        if op in ("mod", "floordiv") and len(set(num)) <= 1 and vs[1] != 0: return (vs[0] if op == "mod" else 0)
        if op.startswith("cmp:"):
            return 0 if len(set(num)) <= 1 else self.affected(n, "compares with something of another scale")
        if op in ("isclose", "allclose"):
            pos, kw = n.attr
            at = dict(kw).get("atol", pos[1] if len(pos) > 1 else None)
            if at == 0 and len(set(num)) <= 1: return 0
            return self.affected(n, "compares with an absolute tolerance")
        if op in self.ORDER: return 0
        if op in self.LINEAR: return vs[0] if not (op == "norm" and n.attr and n.attr[-1] == 0) else 0
        if op in ("any", "all", "not", "and", "or", "anyof", "allof", "u:logical_not", "u:logical_and", "u:logical_or"): return 0
        if op in ("len", "dim"): return 0
        return NO

    def degree(self, num, n): return num[0] if num else Z


# ------------------------------------------------------------------------- sinks
def sinks(E, r, st, stop=lambda n: False):
    """(label, node) of everything an operation hands out: result, objects it changed."""
    out = []
    seen = set()
    def walk(v, lab, depth=0):
        if isinstance(v, Node): out.append((lab, v)); return
        if isinstance(v, Union):
            for y in v.vals: walk(y, lab, depth)
        elif isinstance(v, TupleV):
            for i, y in enumerate(v.items): walk(y, f"{lab}[{i}]", depth)
        elif isinstance(v, Ref):
            if v.oid in seen or depth > 12: return
            seen.add(v.oid)
            o = st.heap.get(v.oid)
            if isinstance(o, ArrO): out.append((lab, E.I.content(st, v) if o.base is not None else o.content))
            elif isinstance(o, ListO):
                for i, y in enumerate(o.items or ()): walk(y, f"{lab}[{i}]", depth + 1)
                if o.items is None and o.elem is not None: walk(o.elem, lab + "[*]", depth + 1)
            elif isinstance(o, DictO):
                for k, y in o.items.items(): walk(y, f"{lab}[{k!r}]", depth + 1)
                for y in (o.key, o.val):
                    if y is not None: walk(y, lab + "[*]", depth + 1)
            elif isinstance(o, InstO):
                for k, y in o.fields.items(): walk(y, f"{lab}.{k}", depth + 1)
    if r.value is not None: walk(r.value, "result")
    return out, walk


def conditions(r):
    """(condition, polarity, what) of everything that decided whether an operation is accepted."""
    for e, s in r.raises:
        for c, p in pc_list(s.pc): yield c, p, e.key()[0]
    if r.st is not None:
        for c, p in pc_list(r.st.pc): yield c, p, "return"


POSITIONS = {"positions", "positions_1", "positions_2", "ref_positions", "positions_ts", "positions_batch", "displacement", "frac_coords", "reference_positions", "permuted_positions"}
CELL = ("structure.utils.apply_pbc", "structure.utils.displace_positions", "structure.utils.transform_positions", "dynamics._trajectory.Trajectory.positions_ts")


def last(n): return n.attr.split(".")[-1].replace("[]", "") if isinstance(n.attr, str) else None


def copied(n, seen=()):
    """n is one of the given arrays, rearranged at most"""
    while n.op in ("index", "reshape", "transpose", "expand", "cast", "copy", "iterelem", "item") and n.args: n = n.args[0]
    if n.id in seen or n.op == "full": return True
    seen = (*seen, n.id)
    if n.op in ("stackx", "list", "loopphi", "phi", "concat"): return bool(n.args) and all(copied(a, seen) for a in n.args)
    if n.op == "stack": return copied(n.args[0], seen)
    if n.op == "update": return all(copied(a, seen) for a in n.args[:2])
    return n.op == "leaf"


def moved_marks(n): return Mv((), True) if last(n) in POSITIONS and n.dt != "i" else 0


def report(chk, rule, con, where, v, D, text, ok=lambda v: v in (0, Z)):
    if v is None: chk.unknown(rule, con, where, f"{text}: not known ({'; '.join(D.why[:2])})")
    elif ok(v): chk.ok(rule, con, where)
    else:
        at = next((s for s, _ in D.bad if s), None)
        chk.bad(rule, con, at[:2] if at else where, f"{text} ({'; '.join(w for _, w in D.bad[:3]) or 'moves with the input'})")


def file_hooks(E, names=("read_positions_and_polarizability", "read_positions")):
    I = E.I
    def hook(pair):
        def h(I_, f, args, kw, st):
            I.cur = ("<input>", "file", 0)
            p = E.S.arr(st, "file.positions", (E.N, Dim.const(3)), "f")
            return TupleV([p, E.S.arr(st, "file.polarizability", (3, 3), "f")]) if pair else p
        return h
    for nm in names: I.hooks["ramannoodle.io.generic." + nm] = hook("polarizability" in nm)


SHORTEST = ("structure.utils.calc_displacement", "structure.utils.apply_pbc_displacement", "structure._reference.ReferenceStructure.get_frac_displacement")


GRID = (0.0, 0.3, 0.6, 0.9, -0.2, 1.3, -1.7, 2.45)


def escapes(E, n, st, lo, hi):
    """(inputs, value) for which the closed form of an element of n is a number outside [lo, hi], else None."""
    if n.shape is None: return None
    names = sorted({x.attr for x in deps(n) if x.op == "leaf" and isinstance(x.attr, str) and x.dt in ("f", "i", None)})
    if not names or len(names) > 2: return None
    idx = tuple(Dim.sym(f"e{k}") for k in range(len(n.shape)))
    for vals in itertools.product(GRID, repeat=len(names)):
        el = Elem(E.I, st)
        el.leafmap = {a: (lambda ix, v=v: P.const(v)) for a, v in zip(names, vals)}
        try: p = el.at(n, idx)
        except Exception: return None
        if p.is_const() and not lo - 1e-9 <= p.value() <= hi + 1e-9: return dict(zip(names, vals)), p.value()
    return None


def half(chk, E, con, where, n, st):
    v = E.I.ranges.val(n)
    ok = None if v is None else v[0] >= -0.5 and v[1] <= 0.5
    if ok is None:
        v = escapes(E, n, st, -0.5, 0.5)
        if v: ok = False
    chk.decide(ok, "shortest displacement", con, where, f"components are not confined to half a cell ({v})")


def c09(chk):
    E = chk.entries("plain")
    F = chk.entries("files")
    file_hooks(F)
    runs = [(E, r) for r in E.all()]
    for cn in ("InterpolationModel", "ARTModel"):
        c = chk.anchor(f"ramannoodle.pmodel.{cn}")
        for ref, st, tag in F.instance(c):
            for n, kind, f in F.class_members(c):
                if n.endswith("_from_files"):
                    for r in F.run_member(f"ramannoodle.pmodel.{cn}", c, ref, st, tag, n, kind, f):
                        r.name += " (files with shifted atoms)"; runs.append((F, r))
    reached = 0
    for E_, r in runs:
        if "train_single_epoch" in r.name or short(r.name).split(".")[-1].startswith("write_") or r.error and r.st is None and not r.raises: continue
        where = (r.fn.mod.rel, r.fn.node.lineno) if r.fn is not None else ""
        D = Shift(E_.I, moved_marks)
        con = short(r.name)
        if r.st is not None:
            out, walk = sinks(E_, r, r.st)
            ref = getattr(r, "self_ref", None)
            if ref is not None and getattr(r, "kind", "") != "get" and short(r.name).split(".")[-1].startswith("add_"):
                walk(ref, "self")
            hit = {}
            for lab, n in out:
                if not any(last(x) in POSITIONS for x in leaves(n)): continue
                reached += 1
                v = D.val(n)
                if isinstance(v, Mv) and not v.c and copied(n) and con.split(":")[0].split("(")[0] not in CELL: v = 0     # positions handed back as they were given
                hit.setdefault(lab, []).append(v)
            for lab, vs in hit.items():
                v = None if any(x is None for x in vs) and not any(x not in (0, Z, None) for x in vs) else next((x for x in vs if x not in (0, Z, None)), 0)
                report(chk, "whole-cell shift", f"{con} {lab}", where, v, D, "changes when atoms are moved by whole lattice vectors")
        D2 = Shift(E_.I, moved_marks)
        done = set()
        worst = 0
        for c, p, what in conditions(r):
            if not isinstance(c, Node) or c.id in done: continue
            done.add(c.id)
            v = D2.val(c)
            if v not in (0, Z) and not (v is None and worst not in (0, None)): worst = v if worst in (0, None) else worst
        if done: report(chk, "decision", con, where, worst, D2, "whether it is accepted changes when atoms are moved by whole lattice vectors")
    for name in CELL:
        rs = [r for _, r in runs if short(r.name).split("@")[0].split(":")[0] == name and r.st is not None]
        if not rs: raise Vanished("ramannoodle." + name)
        for r in rs:
            where = (r.fn.mod.rel, r.fn.node.lineno)
            for lab, n in sinks(E, r, r.st)[0]:
                v = E.I.ranges.val(n)
                ok = None if v is None else v[0] >= 0 and v[1] <= 1
                if ok is None and copied(n): ok = False
                if ok is None:
                    v = escapes(E, n, r.st, 0, 1)
                    if v: ok = False
                chk.decide(ok, "inside the cell", f"{name} {lab}", where, f"coordinates are not confined to the unit cell ({v})")
    for name in SHORTEST:
        rs = [r for _, r in runs if short(r.name).split("@")[0].split(":")[0] == name and r.st is not None]
        if not rs: raise Vanished("ramannoodle." + name)
        for r in rs:
            for lab, n in sinks(E, r, r.st)[0]:
                half(chk, E, f"{name} {lab}", (r.fn.mod.rel, r.fn.node.lineno), n, r.st)
    near, gnn_at = {}, ""
    for r in (r for _, r in runs if "PotGNN.calc_polarizabilities" in r.name and r.st is not None):
        gnn_at = (r.fn.mod.rel, r.fn.node.lineno)
        todo, seen = [n for _, n in sinks(E, r, r.st)[0]], set()
        while todo:
            n = todo.pop()
            if n.id in seen: continue
            seen.add(n.id); todo.extend(a for a in n.args if isinstance(a, Node))
            if n.op in ("matmul", "einsum") and len(n.args) == 2:
                for x, y in (n.args, n.args[::-1]):
                    lx, ly = {last(z) for z in leaves(x)}, {last(z) for z in leaves(y)}
                    if lx & POSITIONS and ly and all(str(z).endswith("lattice") for z in ly): near[x.id] = x
    for x in near.values(): half(chk, E, "PotGNN interatomic vectors", x.site[:2] if x.site else gnn_at, x, None)
    chk.info["affected_results"] = reached


# ------------------------------------------------------------------------- C11
DIRECTIONS = {
    "pmodel._interpolation.InterpolationModel.add_dof": "cart_displacement",
    "pmodel._art.ARTModel.add_art": "cart_direction",
    "structure._displace.get_displaced_positions": "cart_displacement",
    "structure._displace.get_ast_displaced_positions": "cart_direction",
    "structure._displace.write_displaced_structures": "cart_displacement",
    "structure._displace.write_ast_displaced_structures": "cart_direction",
}


class Cells(Elem):
    """Element values up to whole numbers: floor(x) is an integer unknown that moves by k when x moves by the integer k."""
    def integral(self, m, c):
        return abs(c - round(c)) < 1e-9 and all(float(e).is_integer() and e > 0 and (AT.vals[k][0] == "ind" or AT.vals[k][0] == "fn" and AT.vals[k][1] == "whole") for k, e in m)

    def split(self, p):
        w = {m: c for m, c in p.d.items() if self.integral(m, c)}
        return P(w), P({m: c for m, c in p.d.items() if m not in w})

    def floor(self, p):
        w, y = self.split(p)
        return w if not y.d else w + P.atom(("fn", "whole", (y.key(),)))

    def one(self, n): return n.args[1].const is not NO and n.args[1].const == 1
    def e_floordiv(self, n, idx, env): return self.floor(self.bc(n.args[0], n, idx, env)) if self.one(n) else self.arith(n, idx, env)
    def e_mod(self, n, idx, env):
        if not self.one(n): return self.arith(n, idx, env)
        x = self.bc(n.args[0], n, idx, env)
        return x - self.floor(x)
    def e_floor(self, n, idx, env): return self.floor(self.bc(n.args[0], n, idx, env))
    e_u_floor = e_u_rint = e_u_round = e_u_ceil = e_round = e_u_around = e_floor
    def fraction(self, p): return self.split(p)[1]


def amplitude(chk, E, r):
    """generated positions are the reference ones plus the amplitude along the unit direction, up to whole cells"""
    base = short(r.name).split("@")[0]
    where = (r.fn.mod.rel, r.fn.node.lineno)
    st = r.st
    el = Cells(E.I, st)
    i, n, k, j = (Dim.sym(fresh_sym()) for _ in range(4))
    lst = st.heap.get(getattr(r.value, "oid", None))
    arr = lambda v: E.I.content(st, v) if isinstance(v, Ref) else v
    if isinstance(lst, ArrO): got = el.at(lst.content, (k, n, i), {})
    else:
        x = arr(lst.elem) if isinstance(lst, ListO) and lst.elem is not None else None
        il = [y for y in deps(x) if y.op == "leaf" and isinstance(y.attr, tuple) and y.attr[0] == "loopidx"] if isinstance(x, Node) else []
        if len(il) != 1: return chk.unknown("amplitude", base, where, "the list of generated positions is not filled by one loop")
        s = (il[0].meta or {}).get("sym") or next(iter(il[0].ival.syms()))
        got = el.at(x, (n, i), {s: k})
    got = el.fraction(got)
    ref = next((v for v in list(r.args["args"]) + list(r.args["kw"].values()) if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), InstO) and st.heap[v.oid].cls.name == "ReferenceStructure"), None)
    fields = st.heap[ref.oid].fields
    par = r.args["kw"].get(DIRECTIONS[base]); amps = r.args["kw"].get("amplitudes")
    pos, lat = (arr(prop(E, ref, nm, st)[0]) for nm in ("positions", "lattice"))
    d = arr(par)
    inv = E.g.mk("inv", [lat], None, lat.shape, "f")
    if base.endswith("get_displaced_positions"):
        direction = lambda row, j: el.at(d, (row, j), {})
        norm = el.sumover(d, (Dim.sym("s1"), Dim.sym("s2")), [("s1", E.N), ("s2", Dim.const(3))], {}, lambda b: b * b)
    else:
        a = r.args["kw"]["atom_index"]
        direction = lambda row, j: el.at(d, (j,), {})
        norm = el.sumover(d, (Dim.sym("s2"),), [("s2", Dim.const(3))], {}, lambda b: b * b)
    body = P({})
    for j in range(3): body = body + direction(n, Dim.const(j)) * el.at(inv, (Dim.const(j), i), {})
    moved = body * el.at(arr(amps), (k,), {}) * power(norm, -0.5)
    if not base.endswith("get_displaced_positions"):
        moved = moved * indicator(("eq", (el.at(a, (), {}) - dim_poly(n)).key()))
    want = el.at(pos, (n, i), {}) + moved
    verdict(chk, "amplitude", base, where, got, want, el, "generated positions are displaced by amplitude x unit direction")


def c11(chk):
    E = chk.entries("plain")
    for dotted in DIRECTIONS: chk.anchor("ramannoodle." + dotted)
    seen = set()
    for r in E.all():
        base = short(r.name).split("@")[0].split(":")[0].split("(")[0]
        if base not in DIRECTIONS: continue
        par = DIRECTIONS[base]
        where = (r.fn.mod.rel, r.fn.node.lineno)
        con = short(r.name)
        D = Scale(E.I, lambda n: 1 if last(n) == par else 0)
        if r.error: chk.unknown("scale", con, where, r.error); continue
        if r.st is None: chk.unknown("scale", con, where, "no normal outcome") if "write" not in base else None; continue
        seen.add(base)
        if "get_" in base: amplitude(chk, E, r)
        out, walk = sinks(E, r, r.st)
        ref = getattr(r, "self_ref", None)
        if ref is not None: walk(ref, "self")
        for e in r.events:
            if e.kind in ("write", "writelines") and isinstance(e.data.get("node"), Node): out.append((f"file contents at line {e.site[1]}", e.data["node"]))
        hit = {}
        for lab, n in out:
            if not any(last(x) == par for x in leaves(n)): continue
            hit.setdefault(lab, []).append(D.val(n))
        if not hit: chk.unknown("scale", con, where, "nothing depends on the direction")
        for lab, vs in hit.items():
            bad = next((x for x in vs if x not in (0, Z, None)), None)
            v = bad if bad is not None else None if None in vs else 0
            report(chk, "scale", f"{con} {lab}", where, v, D, f"depends on the length of {par}")
        D2 = Scale(E.I, lambda n: 1 if last(n) == par else 0)
        worst, done = 0, set()
        for c, p, what in conditions(r):
            if not isinstance(c, Node) or c.id in done: continue
            done.add(c.id)
            v = D2.val(c)
            if v == X: worst = X
            elif v is None and worst != X: worst = None
        report(chk, "decision", con, where, worst, D2, f"whether it is accepted depends on the length of {par}", ok=lambda v: v != X)
    for d in DIRECTIONS:
        if d not in seen: chk.unknown("scale", d, "", "not interpreted")
