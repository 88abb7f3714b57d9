"""Predictions of fitted models at the structures they were fitted to (C41)."""
from .framework import *
from .checks_rules import *
from .elem import P, equal


class Fit(Concrete):
    """Constant propagation in which an interpolation is only known at its nodes: there it takes the supplied value
    (which is what the interpolation routine guarantees)."""
    def e_splineval(self, n, idx, env):
        s = n.args[0]
        if s.op != "spline" or len(n.args) > 2 or not idx: return self.top(n, "interpolation")
        if s.attr[0].split(".")[-1] not in ("make_interp_spline", "CubicSpline", "interp1d") or not set(s.attr[1]) <= {"bc_type", "check_finite"}:
            return self.top(n, "kind of interpolation")
        xs = self.flat(s.args[0], {})
        k = self.shape(n.args[1])
        if not xs or k is None or len(k) > len(idx): return self.top(n, "interpolation nodes")
        a = self.const_of(n.args[1], tuple(idx[:len(k)]), env)
        if a is None: return self.top(n, "interpolation argument")
        hit = [i for i, x in enumerate(xs) if abs(x - a) <= 1e-7 * max(1.0, abs(x))]
        if len(hit) == 1: return self.at(s.args[1], (Dim.const(hit[0]),) + tuple(idx[len(k):]), {})
        self.missed = (a, tuple(round(x, 6) for x in xs))
        return self.top(n, "not at a node")


def mul(a, b): return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))) for i in range(len(a)))
def tr(a): return tuple(zip(*a))
def inv(a): return tuple(map(tuple, inv3(a)))


def turn(axis, deg):
    """rotation of row vectors about an axis"""
    n = math.sqrt(sum(x * x for x in axis)); x, y, z = (v / n for v in axis)
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    R = ((c + x * x * (1 - c), x * y * (1 - c) - z * s, x * z * (1 - c) + y * s), (y * x * (1 - c) + z * s, c + y * y * (1 - c), y * z * (1 - c) - x * s),
         (z * x * (1 - c) - y * s, z * y * (1 - c) + x * s, c + z * z * (1 - c)))
    return tr(R)


ID = ((1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0))
INVERSION = tuple(tuple(-x for x in r) for r in ID)
TILT = turn((1.0, 2.0, -0.5), 33.0)
Q3 = 3.0 * math.sqrt(3.0) / 2.0
# lattices in general orientation, with Cartesian symmetry operations of the lattice (row vectors: cart' = cart Q)
HEX = ((3.0, 0.0, 0.0), (-1.5, Q3, 0.0), (0.0, 0.0, 5.0))
TET = ((3.0, 0.0, 0.0), (0.0, 3.0, 0.0), (0.0, 0.0, 5.0))
RHO = ((1.7, 0.0, 2.1), (-0.85, 0.85 * math.sqrt(3.0), 2.1), (-0.85, -0.85 * math.sqrt(3.0), 2.1))
def tilted(q): return mul(mul(inv(TILT), q), TILT)
CELLS = {
    "triclinic": (LATTICE, {"1": ID, "-1": INVERSION}),
    "hexagonal": (mul(HEX, TILT), {"1": ID, "-1": INVERSION, "3": tilted(turn((0, 0, 1), 120)), "6": tilted(turn((0, 0, 1), 60)), "-3": mul(INVERSION, tilted(turn((0, 0, 1), 240))),
                                   "m": mul(INVERSION, tilted(turn((1, 0, 0), 180)))}),
    "tetragonal": (mul(TET, TILT), {"1": ID, "-1": INVERSION, "4": tilted(turn((0, 0, 1), 90)), "2": tilted(turn((0, 0, 1), 180)), "-4": mul(INVERSION, tilted(turn((0, 0, 1), 90)))}),
    "rhombohedral": (mul(RHO, TILT), {"1": ID, "-1": INVERSION, "3": tilted(turn((0, 0, 1), 120)), "-3": mul(INVERSION, tilted(turn((0, 0, 1), 240)))}),
}


class Fitted(World):
    """A model fitted to constant displacements; polarizabilities stay symbolic."""
    def __init__(self, chk, E, cn, cell):
        self.cell = cell
        L, self.ops = CELLS[cell]
        super().__init__(chk, E, cn, L)
        self.column = None

    def fractional(self, op):
        """the matrix W of an operation, for row vectors: frac' = frac W"""
        return mul(mul(self.lattice, self.ops[op.rstrip("s")]), inv(self.lattice))

    def orbit(self, spec):
        """hook: images of the displacement under operations of the lattice (s: the two atoms change places)"""
        I, E, g = self.I, self.E, self.E.g
        def hook(I_, ff, args, kw, st):
            d = args[1] if len(args) > 1 else next(iter(kw.values()))
            outs = []
            for j, ops in enumerate(spec):
                ds, ts = [], []
                for t, op in enumerate(ops.split(",")):
                    W = self.fractional(op)
                    I.cur = ("<input>", f"orbit{self.n}.{j}.{t}", 0)
                    x = d
                    if op.endswith("s"): x = I.lib.getitem(x, SliceV(g.const(None), g.const(None), g.const(-1)), st)
                    row = self.arr(st, f"row{self.n}_{j}_{t}", W)
                    x = I.lib.np_binop("MatMult", x, row, st)
                    rot = self.arr(st, f"rot{self.n}_{j}_{t}", tr(W) if self.column else W)
                    ds.append(x)
                    ts.append(TupleV([rot, self.arr(st, f"trans{self.n}_{j}_{t}", (0.0, 0.0, 0.0))]))
                lst = lambda tag, xs: I.alloc(st, ListO(xs, None, Dim.const(len(xs)), "list"), ("in", f"{tag}{self.n}.{j}"))
                outs.append(I.alloc(st, DictO({"displacements": lst("D", ds), "transformations": lst("T", ts)}), ("in", f"orbit{self.n}.{j}")))
            return I.alloc(st, ListO(outs, None, Dim.const(len(outs)), "list"), ("in", f"orbits{self.n}"))
        return hook

    def evaluator(self, st):
        el = self.comparator(st)
        el.__class__ = Fit
        el.missed = None
        return el

    def convention(self, chk):
        """Does transform_positions apply a rotation to row vectors (False) or to column vectors (True)?"""
        E, I = self.E, self.I
        f = chk.anchor("ramannoodle.structure.utils.transform_positions")
        st = self.st.fork()
        I.cur = ("<input>", "convention", 0)
        W = ((0.0, 1.0, 0.0), (-1.0, 0.0, 0.0), (0.0, 0.0, 1.0))
        p = ((0.1, 0.2, 0.3), (0.2, 0.35, 0.45))
        given = {"positions": self.arr(st, "conv_p", p), "rotation": self.arr(st, "conv_w", W), "translation": self.arr(st, "conv_t", (0.0, 0.0, 0.0))}
        I.assume = self.assume
        try: r = E.call_method("convention", f, None, st, {}, given, prefix="conv.")
        finally: I.assume = None
        if r.st is None: return None
        n = I.node_of(r.value, r.st)
        el = self.evaluator(r.st)
        got = [[el.const_of(n, (Dim.const(i), Dim.const(j))) for j in range(3)] for i in range(2)]
        if any(v is None for row in got for v in row): return None
        for col, m in ((False, mul(p, W)), (True, mul(p, tr(W)))):
            if all(abs((a - b + .5) % 1 - .5) < 1e-9 for x, y in zip(got, m) for a, b in zip(x, y)): return col
        return None

    def targets(self, c, pol):
        """(label, positions, tensor) for every supplied amplitude and every operation of the orbit"""
        ops = [(j, t, op) for j, o in enumerate(c.orbit) for t, op in enumerate(o.split(","))]
        nrm = norm2(c.disp)
        iL = inv(self.lattice)
        for j, t, op in ops:
            Q = self.ops[op.rstrip("s")]
            for i, a in enumerate(c.amps):
                d = [[x * a / nrm for x in row] for row in (c.disps[i] if c.disps else c.disp)]
                if op.endswith("s"): d = d[::-1]
                fr = mul(mul(d, Q), iL)
                pos = tuple(tuple((self.positions[r][k] + fr[r][k]) % 1.0 for k in range(3)) for r in range(2))
                yield f"amplitude {a}" + (f", image under {op}" if (j, t) != (0, 0) else ""), pos, (i, Q)


def tensor(el, st, pol, ref, i, Q, a, b):
    """element (a, b) of ref + Q^T (pol_i - ref) Q"""
    out = ref(a, b)
    for x in range(3):
        for y in range(3):
            w = Q[x][a] * Q[y][b]
            if abs(w) > 1e-13: out = out + (pol(i, x, y) - ref(x, y)) * P.const(w)
    return out


def predict(chk, W, st, cases, con, where, p, rule):
    E, I = W.E, W.I
    st = st.fork()
    ts = [(c, k) + t for c, k in cases for t in W.targets(c, None)]
    I.cur = ("<input>", "eval", W.n)
    given = {"positions_batch": W.arr(st, f"eval{W.n}", tuple(t[3] for t in ts))}
    I.assume = W.assume
    try: q = E.call_method(f"predict {con}", p, W.m, st, {}, given, prefix="e.")
    finally: I.assume = None
    if q.error or q.st is None:
        chk.unknown(rule, con, where, str(q.error or [e.name() for e, _ in q.raises][:3])); return
    n = I.node_of(q.value, q.st)
    el = W.evaluator(q.st)
    leaf = lambda name, *i: P.atom(("leaf", name, tuple(Dim.const(k) for k in i)))
    sh = el.shape(n)
    if sh is None or len(sh) != 3: chk.unknown(rule, con, where, "shape of the prediction not known"); return
    pols = {x.attr: x for x in deps(n) if x.op == "leaf" and isinstance(x.attr, str)}
    for b, (c, k, label, pos, (i, Q)) in enumerate(ts):
        def pol(i, x, y):
            name = f"pols{k}" if f"pols{k}" in pols else f"pol{k}_{i}"
            if name not in pols: raise KeyError(name)
            return el.at(pols[name], tuple(Dim.const(v) for v in ((i, x, y) if name.startswith("pols") else (x, y))), {})
        def ref(x, y): return el.at(W.refleaf, (Dim.const(x), Dim.const(y)), {})
        ok, msg = True, ""
        for x in range(3):
            for y in range(3):
                el.missed = None
                got = el.at(n, (Dim.const(b), Dim.const(x), Dim.const(y)), {})
                try: want = tensor(el, q.st, pol, ref, i, Q, x, y)
                except KeyError as e: ok, msg = False, f"the prediction does not depend on the supplied polarizability {e}"; break
                v = equal(got, want, 1e-6)
                if el.missed and v is not True:
                    v = False
                    msg = f"amplitude {el.missed[0]:.6g} is not one of the interpolation nodes {el.missed[1]}"
                if v is False: msg = msg or f"element {x}{y} of the prediction is {str(got)[:90]}, supplied: {str(want)[:60]}"
                ok = False if v is False else ok if v else (None if ok else ok)
                if v is None: msg = msg or str(el.why[:2])
            if ok is False: break
        chk.decide(ok, rule, f"{con}: {label}", where, msg if ok is not True else "reproduced")


def scenario(chk, cn, method, cell, label, cases, how, rule="nodes"):
    E = chk.entries(cn)
    m = chk.anchor("ramannoodle.pmodel." + cn)
    f, p = m.lookup(method)[0], m.lookup("calc_polarizabilities")[0]
    if f is None or p is None: raise Vanished(f"{cn}.{method}")
    where = (f.mod.rel, f.node.lineno)
    con = f"{cn}.{method} [{cell}: {label}]"
    W = Fitted(chk, E, cn, cell)
    if W.st is None: chk.unknown(rule, con, where, str(W.r and (W.r.error or W.r.raises[:2]))); return
    W.column = W.convention(chk)
    if W.column is None: chk.unknown(rule, con, where, "how rotations are applied was not determined"); return
    st, ks = W.st, []
    for c in cases:
        r = how(W, st, c)
        if r.error or r.st is None:
            chk.decide(False if not r.error and not W.unsure and r.raises else None, rule, con, where, f"the supplied structures are refused: {r.error or sorted({e.name() for e, _ in r.raises})}" + (f" (depends on {W.unsure[0].op})" if W.unsure else "")); return
        st = r.st
        ks.append(W.n)
    o = st.heap[W.m.oid].fields.get("_ref_polarizability")
    refs = [x for x in deps(W.I.node_of(o, st)) if x.op == "leaf" and str(x.attr).endswith("ref_polarizability")] if o is not None else []
    if len(refs) != 1: chk.unknown(rule, con, where, "reference polarizability not found"); return
    W.refleaf = refs[0]
    predict(chk, W, st, list(zip(cases, ks)), con, where, p, rule)


def c41(chk):
    D = lambda W, st, c: W.add_dof(st, c)
    A = lambda W, st, c: W.add_art(st, c)
    def F(name): return lambda W, st, c: W.from_files(st, c, name)
    def G(name): return lambda W, st, c: W.from_pymatgen(st, c, name)
    e12 = comb((1, E1), (-.5, E2), (.3, F3))
    one = comb((1, E1), (-.5, E2), (.2, E3))
    for cell, (L, ops) in CELLS.items():
        axis = (tuple(TILT[2]), (0.0, 0.0, 0.0)) if cell != "triclinic" else one
        turns = [op for op in ops if op not in ("1", "-1")] or ["-1"]
        flips = [op for op in turns if op.startswith("-")] or ["-1"]
        I, M = "InterpolationModel", "add_dof"
        scenario(chk, I, M, cell, "two amplitudes", [Case("a", e12, (-.1037219, .1512345678), ("1",))], D)
        scenario(chk, I, M, cell, "unsorted amplitudes, second order", [Case("a", comb((30, e12)), (.2098123, -.1037219, .05012347), ("1",), order=2)], D)
        scenario(chk, I, M, cell, "third order with the reference", [Case("a", comb((.01, e12)), (.1037219, -.2098123, .3141593), ("1",), order=3, ref=True)], D)
        scenario(chk, I, M, cell, "inverted", [Case("a", comb((1, E1), (2, E3)), (.1037219, .2543217), ("1,-1",), order=3)], D)
        for op in turns:
            scenario(chk, I, M, cell, f"image on the other atom under {op}", [Case("a", one, (.1037219, -.2098123), ("1", op + "s"), ref=True)], D)
        for op in flips:
            scenario(chk, I, M, cell, f"direction reversed by {op}", [Case("a", axis, (.1037219, .3141593), ("1," + op,), order=2)], D)
            scenario(chk, I, M, cell, f"direction reversed by {op} on both atoms", [Case("a", axis, (.3141593, -.1037219), (f"1,{op}", f"{turns[0]}s,-1s") if cell != "triclinic" else ("1,-1", "1s,-1s"), order=1, ref=True)], D)
        two = [Case("a", e12, (-.1037219, .1512345678), ("1",), ref=True), Case("b", comb((.5, E1), (1, E2)), (.1037219, -.3141593, .2098123), ("1",), order=2, ref=True)]
        scenario(chk, I, M, cell, "two degrees of freedom", two, D)
        scenario(chk, I, M + "_from_files", cell, "three files", [Case("a", e12, (-.1037219, .1512345678, .2098123), ("1",), order=2)], F(M + "_from_files"))
        scenario(chk, I, M + "_from_files", cell, f"files and an image under {turns[0]}", [Case("a", one, (.2098123, -.1037219), ("1", turns[0] + "s"), order=2)], F(M + "_from_files"))
        scenario(chk, I, M + "_from_pymatgen", cell, "three structures", [Case("a", e12, (-.1037219, .1512345678, .2098123), ("1",), order=2)], G(M + "_from_pymatgen"))
        scenario(chk, I, M + "_from_pymatgen", cell, f"structures and an image under {turns[0]}", [Case("a", one, (.2098123, -.1037219), ("1", turns[0] + "s"), order=2)], G(M + "_from_pymatgen"))
        I, M = "ARTModel", "add_art"
        scenario(chk, I, M, cell, "two amplitudes", [Case("a", comb((7, one)), (.1037219, -.2098123), ("1",))], A)
        scenario(chk, I, M + "_from_files", cell, "two files", [Case("a", one, (.1037219, -.2098123), ("1",))], F(M + "_from_files"))
        scenario(chk, I, M + "_from_pymatgen", cell, "two structures", [Case("a", one, (.1037219, -.2098123), ("1",))], G(M + "_from_pymatgen"))
        for op in flips:
            scenario(chk, I, M, cell, f"direction reversed by {op}", [Case("a", axis, (.1037219,), ("1," + op,))], A)
            scenario(chk, I, M + "_from_files", cell, f"direction reversed by {op}", [Case("a", axis, (.1037219,), ("1," + op,))], F(M + "_from_files"))


def rotated(chk):
    """C10: polarizabilities of symmetry images are rotated in the Cartesian frame, in the direction of the positions"""
    D = lambda W, st, c: W.add_dof(st, c)
    one = comb((1, E1), (-.5, E2), (.2, E3))
    for cell in ("hexagonal", "tetragonal", "rhombohedral"):
        for op in CELLS[cell][1]:
            if op not in ("1", "-1"):
                scenario(chk, "InterpolationModel", "add_dof", cell, f"image on the other atom under {op}", [Case("a", one, (.1037219, -.2098123), ("1", op + "s"), ref=True)], D, "tensor-rotation")
