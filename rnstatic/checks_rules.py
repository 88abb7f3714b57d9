"""C30: degrees of freedom respect the restrictions of the model."""
import itertools, math
from .framework import *
from .elem import *
from .checks_data import Numeric

LATTICE = ((4.0, 0.0, 0.0), (1.0, 5.0, 0.0), (0.5, -1.0, 6.0))
POSITIONS = ((0.0, 0.0, 0.0), (0.5, 0.25, 0.5))


def det3(m): return sum(m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]) for i in range(3))


def inv3(m):
    d = det3(m)
    if d == 0: return None
    return [[(m[(j + 1) % 3][(i + 1) % 3] * m[(j + 2) % 3][(i + 2) % 3] - m[(j + 1) % 3][(i + 2) % 3] * m[(j + 2) % 3][(i + 1) % 3]) / d for j in range(3)] for i in range(3)]


class Concrete(Numeric):
    """Constant propagation through linear algebra and order statistics of small constant arrays."""
    def matrix(self, x, idx, env, r=3, c=3):
        m = [[self.const_of(x, tuple(idx) + (Dim.const(i), Dim.const(j)), env) for j in range(c)] for i in range(r)]
        return None if any(v is None for row in m for v in row) else m

    def e_inv(self, n, idx, env):
        if all(d.is_const() for d in idx[-2:]):
            m = self.matrix(n.args[0], idx[:-2], env)
            m = m and inv3(m)
            if m: return P.const(m[idx[-2].value()][idx[-1].value()])
        return super().e_inv(n, idx, env)

    def flat(self, x, env):
        sh = self.shape(x)
        if sh is None or not all(d.is_const() for d in sh): return None
        out = []
        for t in itertools.product(*[range(d.value()) for d in sh]):
            v = self.const_of(x, tuple(map(Dim.const, t)), env)
            if v is None: return None
            out.append(v)
        return out

    def arg(f):
        def e(self, n, idx, env):
            x = n.args[0]
            attr = n.attr if isinstance(n.attr, tuple) else (None, False, None)
            if attr[0] is None:
                v = self.flat(x, env)
                if v: return P.const(float(f(range(len(v)), key=lambda i: (v[i], -i) if f is max else (v[i], i))))
                return self.top(n, "argmax")
            ax = attr[0]
            if len(ax) != 1: return self.top(n, "argmax")
            src, syms = self.over(n, idx, attr[0], attr[1])
            if src is None or not all(d is not None and d.is_const() for _, d in syms): return self.top(n, "argmax")
            (s, d), = syms
            v = [self.const_of(x, tuple(y.subst({s: Dim.const(k)}) for y in src), env) for k in range(d.value())]
            if None in v: return self.top(n, "argmax")
            return P.const(float(f(range(len(v)), key=lambda i: (v[i], -i) if f is max else (v[i], i))))
        return e
    e_argmax, e_argmin = arg(max), arg(min)

    def order(self, n, idx, env):
        v = self.flat(n.args[0], env)
        if v is None or len(idx) != 1 or not idx[0].is_const(): return None
        return sorted(range(len(v)), key=lambda i: v[i])[idx[0].value()], v

    def e_call_argsort(self, n, idx, env):
        r = self.order(n, idx, env)
        return self.top(n, "argsort") if r is None else P.const(float(r[0]))

    def e_call_sort(self, n, idx, env):
        r = self.order(n, idx, env)
        return self.top(n, "sort") if r is None else P.const(float(r[1][r[0]]))

    e_argsort, e_sort = e_call_argsort, e_call_sort

    def e_unravel(self, n, idx, env):
        i, dims = n.attr
        k = self.const_of(n.args[0], idx, env)
        if k is None or dims is None or not all(self.norm(d).is_const() for d in dims): return self.top(n, "unravel")
        k = int(k)
        for d in reversed(dims[i + 1:]): k //= self.norm(d).value()
        return P.const(float(k % self.norm(dims[i]).value()))


def norm2(v): return math.sqrt(sum(x * x for r in v for x in r))


class Case:
    """One update: a displacement, amplitudes, the orbit symmetry gives it and whether it must be accepted."""
    def __init__(self, name, disp, amps, orbit=("+",), order=1, ref=False, accept=True, why="", disps=None):
        self.name, self.disp, self.amps, self.orbit, self.order, self.ref, self.accept, self.why, self.disps = name, disp, amps, orbit, order, ref, accept, why, disps


E1 = ((1.0, 0.0, 0.0), (0.0, 0.0, 0.0))
E2 = ((0.0, 1.0, 0.0), (0.0, 0.0, 0.0))
E3 = ((0.0, 0.0, 1.0), (0.0, 0.0, 0.0))
F1 = ((0.0, 0.0, 0.0), (1.0, 0.0, 0.0))
F2 = ((0.0, 0.0, 0.0), (0.0, 1.0, 0.0))
F3 = ((0.0, 0.0, 0.0), (0.0, 0.0, 1.0))


def comb(*cs): return tuple(tuple(sum(c * m[i][j] for c, m in cs) for j in range(3)) for i in range(2))


class World:
    """A reference structure with given lattice and positions, and a model to which updates are applied; numbers are
    propagated as constants, the symmetry equivalents of a displacement are scripted."""
    def __init__(self, chk, E, cn, lattice=LATTICE, positions=POSITIONS):
        self.chk, self.E, self.cn, self.I = chk, E, cn, E.I
        self.lattice, self.positions = lattice, positions
        self.eq, _ = chk.anchor("ramannoodle.structure.ReferenceStructure").lookup("get_equivalent_displacements")
        if self.eq is None: raise Vanished("ReferenceStructure.get_equivalent_displacements")
        self.vals = {"lattice": lattice, "positions": positions}
        self.unsure = []
        self.n = 0
        st0 = E.st.fork()
        for s in E.N.syms(): st0.dims[s] = Dim.const(2)
        rref, st, r = E.build("ramannoodle.structure.ReferenceStructure", st0, None, {}, prefix="w.")
        self.m = self.st = None
        self.r = r
        if st is None: return
        self.m, self.st, self.r = E.build("ramannoodle.pmodel." + cn, st, None, {"ref_structure": rref}, prefix="w.")

    def comparator(self, st):
        el = Concrete(self.I, st)
        def val(v):
            def f(idx):
                x = v
                for i in idx:
                    if not i.is_const(): return P.atom(("top", "row", tuple(idx)))
                    x = x[i.value()]
                return P.const(float(x))
            return f
        el.leafmap = {k: val(v) for k, v in self.vals.items()}
        el.leafmap.update({"w." + k: val(v) for k, v in self.vals.items()})
        return el

    def assume(self, n, st):
        if n.shape not in ((), None): return None
        ls = leaves(n)
        if not ls or not all(l.attr in self.vals or isinstance(l.attr, str) and l.attr[2:] in self.vals for l in ls): return None
        if any(x.op in ("spglib", "top", "anyelem") for x in deps(n)): return None
        v = self.comparator(st).const_of(n)
        if v is None: self.unsure.append(n); return None
        return bool(v)

    def orbit(self, spec):
        """hook: the equivalents of the displacement that is passed in"""
        I, E, g = self.I, self.E, self.E.g
        def hook(I_, ff, args, kw, st):
            d = args[1] if len(args) > 1 else next(iter(kw.values()))
            outs = []
            for j, ops in enumerate(spec):
                ds, ts = [], []
                for t, op in enumerate(ops.split(",")):
                    I.cur = ("<input>", f"orbit{self.n}.{j}.{t}", 0)
                    x = d
                    if "s" in op: x = I.lib.getitem(x, SliceV(g.const(None), g.const(None), g.const(-1)), st)
                    x = I.lib.np_binop("Mult", x, g.const(-1.0 if "-" in op else 1.0), st)
                    ds.append(x)
                    ts.append(TupleV([E.S.arr(st, f"rot{self.n}_{j}_{t}", (3, 3), "f"), E.S.arr(st, f"trans{self.n}_{j}_{t}", (3,), "f")]))
                lst = lambda tag, xs: I.alloc(st, ListO(xs, None, Dim.const(len(xs)), "list"), ("in", f"{tag}{self.n}.{j}"))
                outs.append(I.alloc(st, DictO({"displacements": lst("D", ds), "transformations": lst("T", ts)}), ("in", f"orbit{self.n}.{j}")))
            return I.alloc(st, ListO(outs, None, Dim.const(len(outs)), "list"), ("in", f"orbits{self.n}"))
        return hook

    def run(self, st, name, given, spec):
        f, _ = st.heap[self.m.oid].cls.lookup(name)
        if f is None: raise Vanished(f"{self.cn}.{name}")
        given = {k: v for k, v in given.items() if k in {a.arg for a in f.node.args.args}}
        key = self.eq.mod.name + "." + self.eq.qual()
        self.I.hooks[key] = self.orbit(spec)
        self.I.assume = self.assume
        del self.unsure[:]
        try: return self.E.call_method(f"{self.cn}.{name} #{self.n}", f, self.m, st, {}, given, prefix=f"u{self.n}.")
        finally: self.I.assume = None; del self.I.hooks[key]

    def arr(self, st, name, v):
        sh = []
        x = v
        while isinstance(x, tuple): sh.append(len(x)); x = x[0]
        self.vals[name] = v
        return self.E.S.arr(st, name, tuple(sh), "f")

    def add_dof(self, st, c):
        self.n += 1
        s = st.fork(); I = self.I
        I.cur = ("<input>", f"case{self.n}", 0)
        k = self.n
        given = {"cart_displacement": self.arr(s, f"cart{k}", c.disp), "amplitudes": self.arr(s, f"amps{k}", tuple(c.amps)),
                 "polarizabilities": self.E.S.arr(s, f"pols{k}", (len(c.amps), 3, 3), "f"), "interpolation_order": self.E.g.const(c.order),
                 "include_ref_polarizability": self.E.g.const(c.ref)}
        return self.run(s, "add_dof", given, c.orbit)


    def add_art(self, st, c):
        self.n += 1
        s = st.fork(); I = self.I
        I.cur = ("<input>", f"case{self.n}", 0)
        k = self.n
        moving = [i for i in range(2) if any(c.disp[i])]
        given = {"atom_index": self.E.g.const(moving[0]), "cart_direction": self.arr(s, f"cart{k}", tuple(c.disp[moving[0]])), "amplitudes": self.arr(s, f"amps{k}", tuple(c.amps)),
                 "polarizabilities": self.E.S.arr(s, f"pols{k}", (len(c.amps), 3, 3), "f")}
        return self.run(s, "add_art", given, c.orbit)

    def moved(self, c):
        """positions of the displaced structures of a case"""
        L = inv3(self.lattice)
        nrm = norm2(c.disp)
        for i, a in enumerate(c.amps):
            d = c.disps[i] if c.disps else c.disp
            cart = [[x * a / nrm for x in row] for row in d]
            fr = [[sum(cart[r][k] * L[k][j] for k in range(3)) for j in range(3)] for r in range(2)]
            yield tuple(tuple((self.positions[r][j] + fr[r][j]) % 1.0 for j in range(3)) for r in range(2))

    def from_files(self, st, c, name):
        self.n += 1
        s = st.fork(); I, E = self.I, self.E
        k = self.n
        paths = [f"case{k}.{i}" for i in range(len(c.amps))]
        pos = list(self.moved(c))
        I.cur = ("<input>", f"case{k}", 0)
        lst = I.alloc(s, ListO([E.g.const(x) for x in paths], None, Dim.const(len(paths)), "list"), ("in", f"paths{k}"))
        reached = set()
        def hook(pair):
            def h(I_, ff, args, kw, st1):
                pn = I.node_of(args[0] if args else next(iter(kw.values())), st1)
                hit = {x.const for x in deps(pn) if x.is_const() and x.const in paths}
                if len(hit) != 1: return NotImplemented
                i = paths.index(hit.pop()); reached.add(i)
                I.cur = ("<input>", f"case{k}.{i}", 0)
                p = self.arr(st1, f"moved{k}_{i}", pos[i])
                return TupleV([p, E.S.arr(st1, f"pol{k}_{i}", (3, 3), "f")]) if pair else p
            return h
        G = "ramannoodle.io.generic."
        I.hooks[G + "read_positions_and_polarizability"] = hook(True)
        I.hooks[G + "read_positions"] = hook(False)
        try: r = self.run(s, name, {"filepaths": lst, "file_format": E.g.const("outcar"), "interpolation_order": E.g.const(c.order)}, c.orbit)
        finally:
            del I.hooks[G + "read_positions_and_polarizability"], I.hooks[G + "read_positions"]
        if len(reached) != len(paths) and not (r.st is None and reached): r.error = r.error or "the files are not read through the generic functions"
        return r

    def from_pymatgen(self, st, c, name):
        self.n += 1
        s = st.fork(); I, E = self.I, self.E
        k = self.n
        ss = []
        for i, p in enumerate(self.moved(c)):
            I.cur = ("<input>", f"case{k}.{i}", 0)
            a = self.arr(s, f"moved{k}_{i}", p)
            lo = I.alloc(s, InstO(ExtV("pymatgen.core.Lattice"), {"matrix": self.arr(s, f"lattice{k}_{i}", self.lattice)}), ("in", f"L{k}_{i}"))
            ss.append(I.alloc(s, InstO(ExtV("pymatgen.core.Structure"), {"lattice": lo, "frac_coords": a}), ("in", f"S{k}_{i}")))
        lst = I.alloc(s, ListO(ss, None, Dim.const(len(ss)), "list"), ("in", f"structures{k}"))
        pols = E.S.arr(s, f"pols{k}", (len(ss), 3, 3), "f")
        return self.run(s, name, {"pymatgen_structures": lst, "polarizabilities": pols, "interpolation_order": E.g.const(c.order)}, c.orbit)


def dof_cases():
    H = 0.5
    e12 = comb((1, E1), (1, E2))
    yield "first", [], [
        Case("two amplitudes", E1, (-.1, .1)), Case("long displacement", comb((30, E1)), (-.1, .1)),
        Case("one amplitude, mirrored", E1, (.1,), ("+,-",)), Case("one amplitude and the reference", E1, (.1,), ref=True),
        Case("one amplitude", E1, (.1,), accept=False, why="fewer amplitudes than the order needs"),
        Case("equal amplitudes", E1, (.1, .1), accept=False, why="amplitudes are not distinct"),
        Case("equal amplitudes far apart", E1, (.1, .2, .1), accept=False, why="amplitudes are not distinct"),
        Case("amplitude mirrored onto another", E1, (-.1, .1), ("+,-",), accept=False, why="amplitudes coincide after symmetry"),
        Case("mirrored amplitude of two", E1, (.1, .2, -.2), ("+,-",), accept=False, why="amplitudes coincide after symmetry"),
        Case("zero amplitude mirrored", E1, (0.0, .1), ("+,-",), accept=False, why="amplitudes coincide after symmetry"),
        Case("zero amplitude and the reference", E1, (0.0, .1), ref=True, accept=False, why="amplitude coincides with the reference"),
        Case("mirror on the second equivalent", E1, (-.1, .1), ("+", "s+,s-"), accept=False, why="amplitudes coincide after symmetry"),
        Case("two equivalents", E1, (-.1, .1), ("+", "s+")),
        Case("two mirrored equivalents", E1, (.1, .2), ("+,-", "s+,s-")),
    ] + [Case(f"order {k} with {m} amplitudes{' mirrored' if q > 1 else ''}{' and the reference' if inc else ''}", E1, tuple((.1, .2, .3, .4, .5)[:m]), ("+,-" if q > 1 else "+",), k, inc,
              m * q + inc > k, "fewer amplitudes than the order needs")
         for k in (1, 2, 3, 4) for q in (1, 2) for inc in (False, True) for m in sorted({max(1, (k - inc) // q), (k - inc) // q + 1}) if m <= 5] + [
        Case(f"order {k!r}", E1, (-.2, -.1, .1, .2), order=k, accept=False, why="the order must be a positive integer") for k in (0, -1, -3, 1.5, 2.0, "1", None)]
    yield "second", [Case("x", E1, (-.1, .1))], [
        Case("orthogonal", E2, (-.1, .1)), Case("orthogonal, other atom", F1, (-.1, .1)), Case("orthogonal combination", comb((1, E2), (1, F1)), (-.1, .1)),
        Case("the same", E1, (-.2, .2), accept=False, why="not orthogonal to the existing one"),
        Case("the opposite", comb((-1, E1)), (-.2, .2), accept=False, why="not orthogonal to the existing one"),
        Case("oblique", e12, (-.1, .1), accept=False, why="not orthogonal to the existing one"),
        Case("obtuse", comb((-1, E1), (1, E2)), (-.1, .1), accept=False, why="not orthogonal to the existing one"),
        Case("slightly oblique", comb((.01, E1), (1, E2)), (-.1, .1), accept=False, why="not orthogonal to the existing one"),
        Case("slightly oblique, other atom", comb((-.01, E1), (1, F2)), (-.1, .1), accept=False, why="not orthogonal to the existing one"),
        Case("oblique and short", comb((.001, E1), (.001, E2)), (-.1, .1), accept=False, why="not orthogonal to the existing one"),
        Case("oblique and long", comb((50, E1), (50, E2)), (-.1, .1), accept=False, why="not orthogonal to the existing one"),
    ]
    prev = [Case("x+y", comb((1, E1), (1, E2)), (-.1, .1)), Case("x-y", comb((1, E1), (-1, E2)), (-.1, .1)), Case("z, other atom", F3, (-.1, .1), ("+",))]
    yield "fourth", prev, [
        Case("orthogonal", E3, (-.1, .1)), Case("orthogonal, other atom", F1, (-.1, .1))] + [
        Case(f"overlaps number {k}", comb((1, E3), (s, v)), (-.1, .1), accept=False, why="not orthogonal to an existing one")
        for s in (1, -1) for k, v in enumerate((prev[0].disp, prev[1].disp, F3))]
    yield "after an orbit", [Case("x on both atoms", E1, (-.1, .1), ("+", "s+"))], [
        Case("orthogonal", F2, (-.1, .1)),
        Case("overlaps the symmetry equivalent", comb((1, F1), (1, F2)), (-.1, .1), accept=False, why="not orthogonal to the symmetry equivalent of an existing one")]


def file_cases():
    X, Y = comb((1, E1), (1, F2)), comb((1, E2), (1, F1))
    yield "first", [], [
        Case("two amplitudes and the reference", X, (-.1, .1)), Case("one amplitude and the reference", X, (.1,)),
        Case("three amplitudes, third order", X, (-.1, .1, .2), order=3), Case("two amplitudes, third order", X, (-.1, .1), order=3, accept=False, why="fewer amplitudes than the order needs"),
        Case("equal amplitudes", X, (.1, .1), accept=False, why="amplitudes are not distinct"),
        Case("equal amplitudes later", X, (.1, .2, .2), accept=False, why="amplitudes are not distinct"),
        Case("amplitude mirrored onto another", X, (-.1, .1), ("+,-",), accept=False, why="amplitudes coincide after symmetry"),
        Case("displacements are not collinear", X, (-.1, .1), disps=(X, Y), accept=False, why="the displacements are not collinear"),
        Case("third displacement is not collinear", X, (-.1, .1, .2), disps=(X, X, comb((1, E1), (.9, F2))), accept=False, why="the displacements are not collinear"),
        Case("order zero", X, (-.1, .1), order=0, accept=False, why="the order must be a positive integer"),
    ]
    yield "second", [Case("x", X, (-.1, .1))], [
        Case("orthogonal", Y, (-.1, .1)), Case("orthogonal combination", comb((1, E1), (-1, F2)), (-.1, .1)),
        Case("the same", X, (-.2, .2), accept=False, why="not orthogonal to the existing one"),
        Case("overlapping", E1, (-.1, .1), accept=False, why="not orthogonal to the existing one"),
        Case("slightly overlapping", comb((1, Y), (.02, E1)), (-.1, .1), accept=False, why="not orthogonal to the existing one")]


def art_cases(files):
    two = "exactly two amplitudes are needed"
    yield "first", [], [
        Case("two amplitudes", E1, (-.1, .1)), Case("two amplitudes, other atom", F2, (-.1, .2)), Case("one amplitude, mirrored", E1, (.1,), ("+,-",)),
        Case("one amplitude", E1, (.1,), accept=False, why=two), Case("one amplitude on an orbit", E1, (.1,), ("+", "s+"), accept=False, why=two),
        Case("two mirrored amplitudes", E1, (.1, .2), ("+,-",), accept=False, why=two),
        Case("three amplitudes", E1, (-.1, .1, .2), accept=False, why=two), Case("two amplitudes on an orbit", E1, (-.1, .1), ("+", "s+")),
        Case("equal amplitudes", E1, (.1, .1), accept=False, why="amplitudes are not distinct"),
        Case("amplitude mirrored onto another", E1, (-.1, .1), ("+,-",), accept=False, why="amplitudes coincide after symmetry"),
    ] + ([
        Case(f"two atoms move ({nm})", d, (-.1, .1), accept=False, why="more than one atom moves")
        for nm, d in (("equally", comb((1, E1), (1, F1))), ("the first a little", comb((.02, E1), (1, F1))), ("the second a little", comb((1, E1), (.02, F2))),
                      ("oppositely", comb((1, E1), (-1, F1))), ("perpendicularly", comb((-1, E2), (1, F3))))
    ] + [Case("two atoms move, mirrored", comb((1, E1), (1, F1)), (.1,), ("+,-",), accept=False, why="more than one atom moves"),
         Case("displacements are not collinear", E1, (-.1, .1), disps=(E1, E2), accept=False, why="the displacements are not collinear"),
         Case("the second structure moves another atom", E1, (-.1, .1), disps=(E1, F1), accept=False, why="the displacements are not collinear")] if files else [])
    yield "second", [Case("x", E1, (-.1, .1))], [
        Case("orthogonal", E2, (-.1, .1)), Case("other atom", F1, (-.1, .1)),
        Case("the same", E1, (-.2, .2), accept=False, why="not orthogonal to the existing one"),
        Case("the opposite", comb((-1, E1)), (-.2, .2), accept=False, why="not orthogonal to the existing one"),
        Case("oblique", comb((1, E1), (1, E2)), (-.1, .1), accept=False, why="not orthogonal to the existing one"),
        Case("slightly oblique", comb((-.02, E1), (1, E2)), (-.1, .1), accept=False, why="not orthogonal to the existing one")]
    yield "after an orbit", [Case("x on both atoms", E1, (-.1, .1), ("+", "s+"))], [
        Case("orthogonal", F2, (-.1, .1)), Case("overlaps the symmetry equivalent", comb((1, F1), (1, F2)), (-.1, .1), accept=False, why="not orthogonal to the symmetry equivalent of an existing one")]


def outcome(chk, con, where, r, c, unsure, E, ok_exc=("InvalidDOFException", "ValueError", "TypeError")):
    if r.error: chk.unknown("restriction", con, where, r.error); return
    if c.accept:
        if r.st is None: chk.decide(None if unsure else False, "restriction", con, r.raises[0][0].site if r.raises else where, f"a valid degree of freedom is refused: {sorted({e.name() for e, _ in r.raises})}")
        else: chk.ok("restriction", con, where, "accepted")
        return
    if r.st is not None:
        chk.decide(None if unsure else False, "restriction", con, where, f"accepted although {c.why}" + (f" (depends on {unsure[0].op})" if unsure else ""))
        return
    names = {e.name() for e, _ in r.raises}
    chk.decide(True if names & set(ok_exc) else None, "restriction", con, where, f"refused with {sorted(names)}")


def play(chk, cn, method, cases, how):
    E = chk.entries(cn)
    W = World(chk, E, cn)
    f, _ = chk.anchor("ramannoodle.pmodel." + cn).lookup(method)
    if f is None: raise Vanished(f"{cn}.{method}")
    where = (f.mod.rel, f.node.lineno)
    if W.st is None:
        chk.unknown("restriction", f"{cn}.{method}", where, str(W.r and (W.r.error or W.r.raises[:2]))); return 0
    n = 0
    for label, prev, cs in cases:
        st = W.st
        for c in prev:
            r = how(W, st, c)
            if r.st is None or r.error: chk.unknown("restriction", f"{cn}.{method} [{label}: {c.name}]", where, f"history could not be built {r.error or [e.name() for e, _ in r.raises][:2]}"); st = None; break
            st = r.st
        if st is None: continue
        for c in cs:
            n += 1
            r = how(W, st, c)
            outcome(chk, f"{cn}.{method} [{label}: {c.name}]", where, r, c, list(W.unsure), E)
    return n


def refused(chk):
    """inherited ways of adding degrees of freedom are closed on atomic Raman tensor models"""
    E = chk.entries("ARTModel")
    base = chk.anchor("ramannoodle.pmodel.InterpolationModel")
    art = chk.anchor("ramannoodle.pmodel.ARTModel")
    for name in [m for m in base.attrs if m.startswith("add_")]:
        f, _ = art.lookup(name)
        con = f"ARTModel.{name}"
        if not isinstance(f, FuncV): chk.unknown("bypass", con, "", "no such method"); continue
        where = (f.mod.rel, f.node.lineno)
        for ref, st, tag in E.instance(art):
            for v in E.variants(f):
                given, st1 = E.special(f"ramannoodle.pmodel.ARTModel.{name}", f, {}, st)
                r = E.call_method(f"bypass {name} {tag} {v}", f, ref, st1, v, given)
                if r.error: chk.unknown("bypass", con, where, r.error)
                else: chk.decide(r.st is None and bool(r.raises), "bypass", con, where, f"accepted on an atomic Raman tensor model {tag} {v or str()}")


def c30(chk):
    n = play(chk, "InterpolationModel", "add_dof", dof_cases(), lambda W, st, c: W.add_dof(st, c))
    n += play(chk, "ARTModel", "add_art", art_cases(False), lambda W, st, c: W.add_art(st, c))
    for cn, pre, cases in (("InterpolationModel", "add_dof", file_cases), ("ARTModel", "add_art", lambda: art_cases(True))):
        n += play(chk, cn, pre + "_from_files", cases(), lambda W, st, c: W.from_files(st, c, pre + "_from_files"))
        n += play(chk, cn, pre + "_from_pymatgen", cases(), lambda W, st, c: W.from_pymatgen(st, c, pre + "_from_pymatgen"))
    refused(chk)
    chk.info["scenarios"] = n
