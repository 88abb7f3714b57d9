"""C29: datasets are only assembled from compatible files or structures."""
import itertools, math
from .framework import *
from .elem import *
from .checks_spectra import verdict, prop, leaf

NF = 4
NAMES = [f"file{i}" for i in range(NF)]
ZS = (22, 8, 8)
READERS = ("outcar", "vasprun")


L0 = ((4.0, 0.1, 0.0), (0.2, 5.0, 0.3), (0.0, 0.4, 6.0))
_c, _s = math.cos(0.5), math.sin(0.5)
LATTICES = {
    "the same": L0,
    "larger": tuple(tuple(1.1 * x for x in r) for r in L0),
    "sheared": (L0[0], (0.2, 5.0, 0.31), L0[2]),
    "stretched slightly": (L0[0], L0[1], (0.0, 0.4, 6.01)),
    "rotated": tuple((x * _c - y * _s, x * _s + y * _c, z) for x, y, z in L0),
    "permuted": (L0[1], L0[0], L0[2]),
}


class Numeric(Elem):
    """Values of conditions when the lattices are the given constants."""
    def const_of(self, x, idx=(), env=None):
        r = self.at(x, idx, env or {})
        return r.value() if r.is_const() else None

    def all_of(self, x):
        """Every element of a small array, or None."""
        sh = self.shape(x)
        if sh is None or not all(d.is_const() for d in sh): return None
        out = []
        for t in itertools.product(*[range(d.value()) for d in sh]):
            v = self.const_of(x, tuple(map(Dim.const, t)))
            if v is None: return None
            out.append(v)
            if len(out) > 400: return None
        return out

    def tol(self, n):
        pos, kw = n.attr
        kw = dict(kw)
        pos = list(pos) + [None] * 4
        out = []
        for k, nm, d in ((0, "rtol", 1e-5), (1, "atol", 1e-8)):
            v = kw.get(nm, pos[k] if pos[k] is not None else d)
            out.append(float(v) if isinstance(v, (int, float)) else None)
        return out

    def e_isclose(self, n, idx, env):
        x, y = (self.bc(a, n, idx, env) for a in n.args)
        rt, at = self.tol(n)
        if not x.is_const() or not y.is_const() or rt is None or at is None: return self.top(n, "closeness")
        return P.const(1.0 if abs(x.value() - y.value()) <= at + rt * abs(y.value()) else 0.0)

    def e_allclose(self, n, idx, env):
        x, y = (self.all_of(a) for a in n.args)
        rt, at = self.tol(n)
        if not x or not y or rt is None or at is None: return self.top(n, "closeness")
        if len(x) == 1: x = x * len(y)
        if len(y) == 1: y = y * len(x)
        if len(x) != len(y): return self.top(n, "closeness")
        return P.const(1.0 if all(abs(p - q) <= at + rt * abs(q) for p, q in zip(x, y)) else 0.0)

    def e_array_equal(self, n, idx, env):
        x, y = (self.all_of(a) for a in n.args)
        return P.const(1.0 if x == y else 0.0) if x and y else self.top(n, "equality")

    def red(f):
        def e(self, n, idx, env):
            attr = n.attr if isinstance(n.attr, tuple) else (None, False, None)
            src, syms = self.over(n, idx, attr[0], attr[1])
            if src is None or not all(d is not None and d.is_const() for _, d in syms): return self.top(n, "reduction")
            out = []
            for t in itertools.product(*[range(d.value()) for _, d in syms]):
                m = {s: Dim.const(v) for (s, _), v in zip(syms, t)}
                v = self.const_of(n.args[0], tuple(x.subst(m) for x in src), env)
                if v is None: return self.top(n, "reduction")
                out.append(v)
            return P.const(float(f(out)))
        return e
    e_max, e_min, e_sum, e_mean = red(max), red(min), red(sum), red(lambda v: sum(v) / len(v))

    def e_norm(self, n, idx, env):
        if n.attr[2] not in (None, 2, "fro", 2.0): return self.top(n, "norm")
        return self.length(n, idx, env)

    length = red(lambda v: math.sqrt(sum(x * x for x in v)))
    e_all, e_any = red(lambda v: all(x != 0 for x in v)), red(lambda v: any(x != 0 for x in v))

    def e_call_det(self, n, idx, env):
        m = [[self.const_of(n.args[0], tuple(idx) + (Dim.const(i), Dim.const(j)), env) for j in range(3)] for i in range(3)]
        if any(v is None for r in m for v in r): return self.top(n, "determinant")
        return P.const(sum(m[0][i] * (m[1][(i + 1) % 3] * m[2][(i + 2) % 3] - m[1][(i + 2) % 3] * m[2][(i + 1) % 3]) for i in range(3)))


# (name, lattices, atomic numbers per file, must be refused)
def scenarios():
    same, zs = ["the same"] * NF, [ZS] * NF
    put = lambda base, k, v: [v if i == k else x for i, x in enumerate(base)]
    yield "all compatible", same, zs, False
    for k in range(1, NF):
        for v in list(LATTICES)[1:]: yield f"lattice of file {k} {v}", put(same, k, v), zs, True
        for nm, z in (("permuted", (8, 22, 8)), ("different", (22, 8, 16)), ("with other counts", (22, 22, 8))):
            yield f"elements of file {k} {nm}", same, put(zs, k, z), True
    yield "first lattice differs from all others", put(same, 0, "sheared"), zs, True
    yield "first elements differ from all others", same, put(zs, 0, (40, 8, 8)), True
    yield "lattices alternate", ["the same", "larger"] * (NF // 2), zs, True
    yield "lattice and elements of the last file differ", put(same, NF - 1, "rotated"), put(zs, NF - 1, (8, 8, 22)), True


def c29(chk):
    E = chk.entries()
    I, g = E.I, E.g
    n3 = (Dim.const(3), Dim.const(3))
    entries = [("ramannoodle.io.vasp.outcar.read_polarizability_dataset", {}), ("ramannoodle.io.vasp.vasprun.read_polarizability_dataset", {})]
    entries += [("ramannoodle.io.generic.read_polarizability_dataset", {"file_format": x}) for x in ("outcar", "vasprun.xml")]
    def objects(st, lat, zs, i):
        I.cur = ("<input>", f"file{i}", 0)
        L = E.S.arr(st, f"lattice{i}", n3)
        Z = I.alloc(st, ListO([g.const(z) for z in zs[i]], None, Dim.const(len(zs[i])), "list"), ("in", f"Z{i}"))
        p = E.S.arr(st, f"positions{i}", (Dim.const(len(zs[i])), Dim.const(3)))
        return L, Z, p, E.S.arr(st, f"polarizability{i}", n3)
    for nm, lat, zs, refuse in scenarios():
        unsure = []
        vals = {f"lattice{i}": LATTICES[lat[i]] for i in range(NF)}
        def assume(n, st):
            if n.shape not in ((), None) or not any(l.attr in vals for l in leaves(n)): return None
            el = Numeric(I, st)
            el.leafmap = {k: (lambda idx, v=v, k=k: P.const(v[idx[0].value()][idx[1].value()]) if all(i.is_const() for i in idx) else P.atom(("top", "row", tuple(idx)))) for k, v in vals.items()}
            r = el.const_of(n)
            if r is None: unsure.append(n)
            return None if r is None else bool(r)
        for dotted, given in entries:
            f = chk.anchor(dotted)
            tag = given.get("file_format", "")
            con = f"{short(dotted)}({tag}): {nm}" if tag else f"{short(dotted)}: {nm}"
            seen = []
            def hook(I_, ff, args, kw, st):
                pn = I.node_of(args[0] if args else list(kw.values())[0], st)
                ks = {x.const for x in deps(pn) if x.is_const() and isinstance(x.const, str) and x.const in NAMES}
                if len(ks) != 1: return NotImplemented
                i = NAMES.index(ks.pop()); seen.append(i)
                return TupleV(list(objects(st, lat, zs, i)))
            st = E.st.fork()
            I.cur = ("<input>", "filepaths", 0)
            paths = I.alloc(st, ListO([g.const(x) for x in NAMES], None, Dim.const(NF), "list"), ("in", "filepaths4"))
            kw = {"filepaths": paths, **{k: g.const(v) for k, v in given.items()}}
            for rd in READERS: I.hooks[f"ramannoodle.io.vasp.{rd}.read_structure_and_polarizability"] = hook
            I.assume = assume; del unsure[:]
            try: r = E.run(f"C29 {con}", f, [], kw, st)
            finally:
                I.assume = None
                for rd in READERS: del I.hooks[f"ramannoodle.io.vasp.{rd}.read_structure_and_polarizability"]
            judge(chk, E, f, con, r, refuse, zs, unsure, set(seen) == set(range(NF)) or refuse and 0 in seen)
        # structures
        dotted = "ramannoodle.io.pymatgen.construct_polarizability_dataset"
        try: f = E.I.get(dotted)
        except KeyError: raise Vanished(dotted)
        st = E.st.fork()
        ss = []
        for i in range(NF):
            L, Z, p, a = objects(st, lat, zs, i)
            lo = I.alloc(st, InstO(ExtV("pymatgen.core.Lattice"), {"matrix": L}), ("in", f"L{i}"))
            ss.append(I.alloc(st, InstO(ExtV("pymatgen.core.Structure"), {"lattice": lo, "frac_coords": p, "cart_coords": E.S.arr(st, f"cart{i}", (Dim.const(len(zs[i])), Dim.const(3))), "atomic_numbers": Z}), ("in", f"S{i}")))
        I.cur = ("<input>", "structures", 0)
        lst = I.alloc(st, ListO(ss, None, Dim.const(NF), "list"), ("in", "structures4"))
        pol = E.S.arr(st, "polarizabilities", (Dim.const(NF),) + n3)
        I.assume = assume; del unsure[:]
        con = f"{short(dotted)}: {nm}"
        try: r = E.run(f"C29 {con}", f, [], {"pymatgen_structures": lst, "polarizabilities": pol}, st)
        finally: I.assume = None
        judge(chk, E, f, con, r, refuse, zs, unsure, True, pmg=True)
    chk.info["rule"] = f"scenarios of {NF} files with symbolic numbers; truth of lattice comparisons fixed by class; element lists compared exactly"


def judge(chk, E, f, con, r, refuse, zs, unsure, complete, pmg=False):
    where = (f.mod.rel, f.node.lineno)
    if r.error or not complete: chk.unknown("compatibility", con, where, str(r.error or "readers not reached")); return
    if refuse:
        if r.st is not None:
            if unsure: chk.unknown("compatibility", con, where, f"depends on {unsure[0].op}")
            else: chk.bad("compatibility", con, where, "a dataset is assembled from incompatible files")
            return
        names = {e.name() for e, _ in r.raises}
        chk.decide("IncompatibleStructureException" in names and (True if names == {"IncompatibleStructureException"} else None) if "IncompatibleStructureException" in names else False,
                   "compatibility", con, r.raises[0][0].site if r.raises else where, f"refused with {sorted(names)}")
        return
    if r.st is None:
        names = {e.name() for e, _ in r.raises}
        chk.decide(None if unsure else False, "compatibility", con, where, f"compatible files are refused: {sorted(names)}")
        return
    chk.ok("compatibility", con, where, "accepted")
    for nm, src in (("positions", "positions"), ("polarizabilities", "polarizability")):
        n, st1 = prop(E, r.value, nm, r.st)
        for k in range(NF):
            if n is None: chk.unknown("samples", f"{con}: {nm}[{k}]", where, "no value"); continue
            el = Elem(E.I, st1)
            a, b = Dim.sym("a"), Dim.sym("b")
            want = leaf("polarizabilities", Dim.const(k), a, b) if pmg and nm == "polarizabilities" else leaf(f"{src}{k}", a, b)
            verdict(chk, "samples", f"{con}: {nm}[{k}]", where, el.at(n, (Dim.const(k), a, b)), want, el, f"sample {k} is file {k}")
