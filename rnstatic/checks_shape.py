"""C22: arguments of the wrong shape are rejected, arguments of every valid size are accepted."""
from . import core
from .framework import *
from .checks_io import public_callables, params, runs

# element-wise helpers: they follow NumPy broadcasting by design
ELEMENTWISE = {"apply_pbc", "apply_pbc_displacement", "calc_displacement", "displace_positions"}
# a leading axis (a batch) is documented
BATCHED = {("get_cart_displacement", "displacement")}
# methods that ignore parts of their input when the model is a dummy model
DUMMY = {"polarizabilities", "amplitudes"}
EXTRA = {"out_wavenumbers": "Q"}


def wrong_shapes(code, shared):
    """(label, shape -> shape) for one documented shape."""
    two, one = Dim.const(2), Dim.const(1)
    out = [("an extra axis in front", lambda s: (two,) + s), ("an extra axis behind", lambda s: s + (two,)), ("no axes", lambda s: ()),
           ("an extra axis of one in front", lambda s: (one,) + s), ("an extra axis of one behind", lambda s: s + (one,))]
    if len(code) > 1:
        out += [("without the first axis", lambda s: s[1:]), ("without the last axis", lambda s: s[:-1])]
    for i, c in enumerate(code):
        nm = f"axis {i}"
        def put(i, d): return lambda s: s[:i] + (d(s[i]),) + s[i + 1:]
        if c.isdigit():
            out += [(f"{nm} has {int(c) + 1}", put(i, lambda d: d + D1)), (f"{nm} has {int(c) - 1}", put(i, lambda d: d - D1)), (f"{nm} has 1", put(i, lambda d: one))]
        elif c in shared:
            out += [(f"{nm} is longer", put(i, lambda d: d + D1)), (f"{nm} is shorter", put(i, lambda d: d - D1)), (f"{nm} has 1", put(i, lambda d: one)),
                    (f"{nm} is twice as long", put(i, lambda d: d + d))]
    return out


def codes(E, owner, names):
    """{parameter: documented shape} of a function."""
    out = {}
    for p in names:
        c = E.OVERRIDE.get((owner, p), E.SHAPES.get(p)) or EXTRA.get(p)
        if c: out[p] = c
    return out


class Target:
    """One public operation with array arguments."""
    def __init__(self, E, dotted, c, member, f):
        self.dotted, self.c, self.member, self.f = dotted, c, member, f
        names = [a.arg for a in f.node.args.args[(1 if c is not None else 0):]]
        self.owner = c.name if member == "__init__" else f.name
        self.codes = codes(E, self.owner, names)
        ex = set()
        cn = c.name if c is not None else ""
        if member and member != "__init__" and cn in ("ReferenceStructure", "InterpolationModel", "ARTModel", "PotGNN"): ex.add("N")
        if "atomic_numbers" in names or "ref_structure" in names: ex.add("N")
        if "pymatgen_structures" in names: ex.add("F")
        if "filepaths" in names and "amplitudes" in names: ex.add("A")
        self.extents = ex
        self.name = short(dotted + (f".{member}" if member and member != "__init__" else ""))

    def run(self, E):
        """[(tag, Result)]"""
        f = E.I.get(self.dotted)
        if self.member is None: return runs(E, self.dotted, None, f, {})
        if self.member == "__init__":
            st, given = E.st, {}
            if any(a.arg == "ref_structure" for a in self.f.node.args.args):
                rr, st, _ = E.ref(); given = {"ref_structure": rr}
            m, s, r = E.build(self.dotted, st, None, given)
            return [({}, r)]
        m, _ = f.lookup(self.member)
        return [(x[0], x[1]) for x in runs(E, self.dotted + "." + self.member, f, m, {})]

    def base(self, E, names=()):
        E._res.clear(); E.tweak = None
        return self.run(E)


def targets(E):
    out = []
    for d, f in E.public_functions():
        if f.name in ELEMENTWISE: continue
        out.append(Target(E, d, None, None, f))
    for d, c in E.public_classes():
        i, _ = c.lookup("__init__")
        ms = [("__init__", "method", i)] if i is not None else []
        for n, kind, f in ms + list(E.class_members(c)):
            if n == "forward" or kind == "set": continue     # network layers are C18/C19
            out.append(Target(E, d, c, n, f))
    return [t for t in out if t.codes]


def fails(r):
    """Exceptions that may leave a run: set of class names, None if the run could not be interpreted."""
    return None if r.error else {e.name() for e, _ in r.raises}


def c22(chk):
    old = dict(core._SYM_MIN)
    for x in ("N", "A", "M", "T", "B", "F", "SamplesN"): core._SYM_MIN[x] = 4
    try: rejected(chk)
    finally:
        core._SYM_MIN.clear(); core._SYM_MIN.update(old)
    masks(chk)
    accepted(chk)


ART = {"add_art", "add_art_from_files", "add_art_from_pymatgen"}


def rejected(chk):
    E = chk.entries("reject")
    E.I.get("ramannoodle.structure.ReferenceStructure")
    for t in targets(E):
        if t.f.name in ART: E.A, savedA = Dim.const(2), E.A
        else: savedA = E.A
        try: reject_one(chk, E, t)
        finally: E.A = savedA


def reject_one(chk, E, t):
    base = t.base(E)
    keys = {e.key() for _, r in base for e, _ in r.raises}
    usable = {i for i, (v, r) in enumerate(base) if r.st is not None and not r.error}
    for p, code in t.codes.items():
        shared = set(t.extents)
        for q, c in t.codes.items():
            if q != p: shared |= {x for x in c if x.isalpha()}
        for label, fn in wrong_shapes(code, shared):
            if (t.f.name, p) in BATCHED and "in front" in label: continue
            if t.f.name in ART and p == "amplitudes" and code == "A" and label == "axis 0 has 1": continue   # (1,) is documented
            E._res.clear()
            E.tweak = lambda name, shape: fn(shape) if name == p else None
            try: rr = t.run(E)
            finally: E.tweak = None
            for i, (v, r) in enumerate(rr):
                if not offered(t, v) or p in DUMMY and tag_dummy(r) or v.get(p) == "none": continue
                con = f"{t.name}({p}) {label}" + "".join(f" {k}={x}" for k, x in v.items())
                where = (t.f.mod.path.split("/repo/")[-1], t.f.node.lineno)
                if i not in usable or r.error: chk.unknown("rejected", con, where, r.error or "no valid run to compare with"); continue
                new = {e.name(): e for e, _ in r.raises if e.key() not in keys}
                if r.st is not None:
                    und = [n for n in undecided_shapes(r)]
                    (chk.unknown if und else chk.bad)("rejected", con, where, f"a {p} with {label} is accepted: no check rejects it" + (f" ({und[0]})" if und else ""))
                    continue
                odd = {n: e for n, e in new.items() if not ok_kind(E, e)}
                if odd:
                    n, e = next(iter(odd.items()))
                    chk.bad("rejected", con, e.site, f"a {p} with {label} fails with {n} instead of ValueError or TypeError")
                else: chk.ok("rejected", con, where)
    kinds = (("None", E.g.const(None)), ("a number", E.g.leaf("number", (), "f")), ("a string", E.g.leaf("string", (), "s")))
    for p in t.codes:
        for label, x in kinds:
            if p in EXTRA and label == "None": continue      # documented default
            E._res.clear(); E.replace = {p: x}
            try: rr = t.run(E)
            finally: E.replace = None
            for i, (v, r) in enumerate(rr):
                if not offered(t, v) or p in DUMMY and tag_dummy(r) or v.get(p) == "none": continue
                con = f"{t.name}({p}) {label} instead of an array" + "".join(f" {k}={x}" for k, x in v.items())
                where = (t.f.mod.path.split("/repo/")[-1], t.f.node.lineno)
                if i not in usable or r.error: chk.unknown("rejected", con, where, r.error or "no valid run to compare with"); continue
                new = [e for e, _ in r.raises if e.key() not in keys and not ok_kind(E, e)]
                if r.st is not None: chk.bad("rejected", con, where, f"{label} is accepted instead of an array")
                elif new: chk.bad("rejected", con, new[0].site, f"{label} instead of an array fails with {new[0].name()} instead of TypeError or ValueError")
                else: chk.ok("rejected", con, where)


def masks(chk):
    """A mask has exactly one element per degree of freedom."""
    from .checks_model import dofs
    CASES = (([1, 2], 3, (("no axes", ()), ("no elements", (0,)), ("one element", (1,)), ("an element too few", (2,)), ("an element too many", (4,)), ("right", (3,)),
                          ("an extra axis in front", (1, 3)), ("an extra axis behind", (3, 1)), ("square", (3, 3)))),
             ([], 0, (("no axes", ()), ("right", (0,)), ("one element", (1,)), ("two elements", (2,)), ("an extra axis in front", (1, 0)))),
             ([1], 1, (("no axes", ()), ("no elements", (0,)), ("right", (1,)), ("an element too many", (2,)), ("square", (1, 1)))))
    for cn, adder in (("InterpolationModel", "add_dof"), ("ARTModel", "add_art")):
        for groups, nd, shapes in CASES:
            E = chk.entries(f"masks-{cn}-{nd}" if nd != 3 else "masks-" + cn)
            m, st, r = dofs(chk, E, cn, adder, groups)
            pv = None
            if st is not None: pv, _ = st.heap[m.oid].cls.lookup("mask")
            if st is None or not isinstance(pv, PropV) or not isinstance(pv.fset, FuncV): chk.unknown("rejected", f"{cn}.mask", "", "no model"); continue
            f = pv.fset
            where = (f.mod.rel, f.node.lineno)
            for label, sh in shapes:
                s = st.fork()
                x = E.S.arr(s, "mask " + label, tuple(Dim.const(k) for k in sh), "b")
                r = E.run(f"{cn}.mask {label}", f, [m, x], {}, s)
                con = f"{cn}.mask {label}" + (f" of {nd}" if nd != 3 else "")
                if r.error: chk.unknown("rejected", con, where, r.error)
                elif label == "right": chk.decide(r.st is not None, "accepted", con, where, "a mask with one element per degree of freedom is refused")
                else: chk.decide(r.st is None and all(ok_kind(E, e) for e, _ in r.raises), "rejected", con, where, f"a mask of shape {sh} is accepted for {nd} degrees of freedom, or fails with another exception than ValueError/TypeError")


def tag_dummy(r): return r.name.endswith("dummy")


def ok_kind(E, e):
    n = e.name()
    return n in ("ValueError", "TypeError") or any(k in ("ValueError", "TypeError") for k in bases(e.cls))


def bases(c):
    try: return [getattr(k, "name", str(k)).split(".")[-1] for k in c.mro()]
    except AttributeError: return []


def undecided_shapes(r):
    """Shape questions the engine could not answer on the way."""
    return [m for k, *m in (r.notes or []) if k in ("top", "budget", "nofix")]


SUPPORTED = {"write_structure": {"poscar", "xdatcar"}, "write_trajectory": {"xdatcar"},
             "write_displaced_structures": {"poscar", "xdatcar"}, "write_ast_displaced_structures": {"poscar", "xdatcar"}}
UNSUPPORTED = {("ARTModel", "add_dof"), ("ARTModel", "add_dof_from_files"), ("ARTModel", "add_dof_from_pymatgen")}


def offered(t, v):
    """The operation is offered for this choice of format and class."""
    if t.c is not None and (t.c.name, t.member) in UNSUPPORTED: return False
    s = SUPPORTED.get(t.f.name)
    return s is None or "file_format" not in v or v["file_format"] in s


def accepted(chk):
    """Every operation has a successful run when every extent is one, two or three, and raises nothing there that it does not raise in general."""
    ref = {}
    for size in ("any", 1, 2, 3):
        E = chk.entries(f"accept-{size}")
        if size != "any": E.N = E.A = E.M = E.T = E.B = E.F = Dim.const(size)
        for t in targets(E):
            A, F = E.A, E.F
            if t.f.name in ART: E.A = E.F = Dim.const(2 if size == "any" or size > 1 else 1)
            base = t.base(E)
            E.A, E.F = A, F
            for i, (v, r) in enumerate(base):
                if not offered(t, v): continue
                tag = " ".join(f"{k}={x}" for k, x in v.items())
                con = f"{t.name} {tag} extents {size}"
                where = (t.f.mod.path.split("/repo/")[-1], t.f.node.lineno)
                if r.error: chk.unknown("accepted", con, where, r.error); continue
                es = {e.key(): e for e, _ in r.raises}
                if r.st is None:
                    e = list(es.values())
                    chk.bad("accepted", con, e[0].site if e else where, f"no call with extents {size} can succeed: " + ", ".join(sorted({x.name() for x in e})))
                    continue
                k = (t.name, i)
                if size == "any": ref[k] = set(es)
                new = [e for kk, e in es.items() if kk not in ref.get(k, es)]
                if new: chk.bad("accepted", con, new[0].site, f"fails with {new[0].name()} only when the extents are {size}")
                else: chk.ok("accepted", con, where)


# ---------------------------------------------------------------------------- C21
# documented result shapes: a string is an array, ("L", length, element) a list, a tuple a tuple, "?" one free extent
RESULTS = {
    "structure.utils.apply_pbc": "N3", "structure.utils.apply_pbc_displacement": "N3", "structure.utils.displace_positions": "N3",
    "structure.utils.transform_positions": "N3", "structure.utils.calc_displacement": "N3",
    "structure.get_displaced_positions": ("L", "A", "N3"), "structure.get_ast_displaced_positions": ("L", "A", "N3"),
    "spectrum.utils.calc_signal_spectrum": ("h", "h"),
    "spectrum.utils.convolve_spectrum[given]": ("Q", "Q"), "spectrum.utils.convolve_spectrum[none]": ("?", "?"),
    "dataset.torch.utils.polarizability_vectors_to_tensors": "S33", "dataset.torch.utils.polarizability_tensors_to_vectors": "S6",
    "io.pymatgen.get_positions": "N3", "io.pymatgen.get_structure": ("33", ("L", "N", None), "N3"),
    "pmodel.torch.train_single_epoch": (None, None, "6"),
    "ReferenceStructure.atomic_numbers": ("L", "N", None), "ReferenceStructure.lattice": "33", "ReferenceStructure.positions": "N3",
    "ReferenceStructure.get_cart_displacement": "N3", "ReferenceStructure.get_frac_displacement": "N3",
    "ReferenceStructure.get_cart_direction": "3", "ReferenceStructure.get_frac_direction": "3",
    "InterpolationModel.ref_polarizability": "33", "InterpolationModel.calc_polarizabilities": "B33",
    "ARTModel.ref_polarizability": "33", "ARTModel.calc_polarizabilities": "B33",
    "ARTModel.get_specification_tuples": ("L", "?", (None, ("L", "?", None), ("L", "?", "3"))),
    "PotGNN.forward": "S6", "PotGNN.calc_polarizabilities": "B33",
    "Phonons.ref_positions": "N3", "Phonons.wavenumbers": "M", "Phonons.displacements": "MN3",
    "Trajectory.positions_ts": "TN3", "Trajectory.__getitem__[int]": "N3", "Trajectory.__getitem__[slice]": "?N3",
    "PhononRamanSpectrum.phonon_wavenumbers": "M", "PhononRamanSpectrum.raman_tensors": "M33", "PhononRamanSpectrum.measure": ("M", "M"),
    "MDRamanSpectrum.polarizability_ts": "T33", "MDRamanSpectrum.measure": ("H", "H"),
    "PolarizabilityDataset.atomic_numbers": ("L", "N", None), "PolarizabilityDataset.positions": "SN3", "PolarizabilityDataset.polarizabilities": "S33",
    "PolarizabilityDataset.scaled_polarizabilities": "S6", "PolarizabilityDataset.mean_polarizability": "33", "PolarizabilityDataset.stddev_polarizability": "33",
    "PolarizabilityDataset.__getitem__": ("33", "N", "N3", "6"),
}


class Shapes:
    """Comparison of a value with a documented shape."""
    def __init__(self, E, st, size):
        self.E, self.st, self.size = E, st, size
        self.free = {}

    def dim(self, c):
        E = self.E
        m = {"N": E.N, "A": E.A, "M": E.M, "T": E.T, "B": E.B, "F": E.F, "S": E.BT, "Q": E.S.dim("Q")}
        if c in m: return self.st.norm(m[c])
        if c in "hH":        # ceiling(n / 2): half of the frequency axis; without its first element for the Raman spectrum of n + 1 configurations
            n = self.st.norm(E.T) - (D1 if c == "H" else D0)
            if not n.is_const(): return None
            k = (n.value() + 1) // 2
            return Dim.const(max(k - (c == "H"), 0))
        return Dim.const(int(c))

    def shape(self, got, code):
        """True/False/None, message"""
        if got is None: return None, "shape not known"
        if len(got) != len(code): return False, f"has {len(got)} axes instead of {len(code)}"
        res = True
        for i, (g, c) in enumerate(zip(got, code)):
            g = self.st.norm(g)
            w = self.free.setdefault(c, g) if c == "?" or c in "hH" and self.dim(c) is None else self.dim(c)
            w = self.st.norm(w)
            if g == w: continue
            s = dim_sign(g - w, self.st.mins)
            if s in ("+", "-") or (g.is_const() != w.is_const() and self.natural(g) and self.natural(w)): return False, f"axis {i} has {g} elements instead of {w}"
            if self.natural(g) and self.natural(w): return False, f"axis {i} has {g} elements instead of {w}"
            res = None
        return res, "extents cannot be compared" if res is None else ""

    def natural(self, d):
        """Made of input extents only."""
        return not any(str(x).startswith("~") for x in d.syms())

    def check(self, v, code):
        E, st = self.E, self.st
        if code is None: return True, ""
        if isinstance(v, Union): return self.all([self.check(x, code) for x in v.vals])
        if isinstance(code, str):
            if isinstance(v, Ref) and isinstance(st.heap.get(v.oid), ListO):
                return False, "is a list instead of an array"
            if isinstance(v, TupleV): return False, "is a tuple instead of an array"
            n = E.I.node_of(v, st)
            if n.op in ("top", "opaque"): return None, "value not known"
            return self.shape(n.shape, code)
        if code[0] == "L":
            o = st.heap.get(v.oid) if isinstance(v, Ref) else None
            if isinstance(o, ArrO):
                return False, "is an array instead of a list"
            if not isinstance(o, ListO): return None, "list not known"
            out = [self.shape((o.length,) if o.length is not None else None, code[1])]
            if code[1] == "?": out = []
            es = o.items if o.items is not None else [o.elem] if o.elem is not None else []
            return self.all(out + [self.check(e, code[2]) for e in es])
        if not isinstance(v, TupleV): return None, "tuple not known"
        if len(v.items) != len(code): return False, f"{len(v.items)} results instead of {len(code)}"
        return self.all([(r, f"result {i} {m}") for i, (r, m) in enumerate(self.check(x, c) for x, c in zip(v.items, code))])

    def all(self, rs):
        for want in (False, None):
            for r, m in rs:
                if r is want: return r, m
        return True, ""


def operations(E):
    """(name in RESULTS, location, Result) of every run of a documented operation."""
    for d, f in E.public_functions():
        nm = short(d)
        keys = {nm, ".".join(p for p in nm.split(".") if not p.startswith("_"))}
        for r in E.run_function(d, f): yield keys, f, r, f.node.args.args
    for d, c in E.public_classes():
        for ref, st, tag in E.instance(c):
            if tag: continue
            for n, kind, f in E.class_members(c):
                if kind == "set": continue
                for r in E.run_member(d, c, ref, st, tag, n, kind, f): yield {f"{c.name}.{n}"}, f, r, f.node.args.args


def c21(chk):
    for size in ("any", 1, 2, 3, 4, 5):
        E = chk.entries(f"size-{size}")
        if size != "any": E.N = E.A = E.M = E.T = E.B = E.F = E.BT = Dim.const(size)
        found = set()
        for keys, f, r, ps in operations(E):
            keys = set(keys)
            for k in list(keys): keys |= {f"{k}[{v}]" for v in ("given", "none", "int", "slice") if v in r.name.rpartition("(")[2].rstrip(")").split(",")}
            hit = [k for k in RESULTS if k in keys]
            if not hit: continue
            found.add(hit[0])
            con = f"{short(r.name)} [extents {size}]"
            where = (f.mod.rel, f.node.lineno)
            if r.error: chk.unknown("documented shape", con, where, r.error); continue
            if r.st is None:
                if size in (1, 2, 3) and "measure" in r.name or "ART" in r.name: continue     # too short for a spectrum; number of amplitudes
                chk.unknown("documented shape", con, where, "no result"); continue
            ok, msg = Shapes(E, r.st, size).check(r.value, RESULTS[hit[0]])
            chk.decide(ok, "documented shape", con, where, msg)
        for k in RESULTS:
            if k not in found and size == "any": chk.unknown("documented shape", k, "", "operation not found")
    batched(chk)
    grown(chk)


def batched(chk):
    """get_cart_displacement documents leading axes."""
    E = chk.entries("size-any")
    ref, st, r = E.ref()
    if st is None: raise Vanished("ReferenceStructure")
    f, _ = st.heap[ref.oid].cls.lookup("get_cart_displacement")
    if f is None: raise Vanished("get_cart_displacement")
    for code in ("BN3", "TBN3"):
        s = st.fork()
        x = E.S.arr(s, "batch", E.shape(code), "f")
        r = E.run("batch " + code, f, [ref, x], {}, s)
        con = f"ReferenceStructure.get_cart_displacement [leading axes {code[:-2]}]"
        if r.st is None: chk.bad("documented shape", con, (f.mod.rel, f.node.lineno), "leading axes are refused")
        else:
            ok, msg = Shapes(E, r.st, "any").check(r.value, code)
            chk.decide(ok, "documented shape", con, (f.mod.rel, f.node.lineno), msg)


def grown(chk):
    """Per degree of freedom: one basis vector, one interpolation, one flag of the mask."""
    from .checks_model import dofs
    from .checks_spectra import lambda_get
    for cn, adder in (("InterpolationModel", "add_dof"), ("ARTModel", "add_art")):
        for orbits in ([], [1], [1, 3], [2, 1, 4]):
            E = chk.entries("grown-" + cn)
            m, st, r = dofs(chk, E, cn, adder, orbits)
            K = sum(orbits)
            if st is None: chk.unknown("documented shape", f"{cn} {orbits}", "", "no model"); continue
            for name, code in (("cart_basis_vectors", ("L", str(K), "N3")), ("interpolations", ("L", str(K), None)), ("mask", None)):
                r = E.run(f"{cn}.{name} {orbits}", lambda_get(E, m, name, st), [m], {}, st.fork())
                v, s = r.value, r.st
                con = f"{cn}.{name} [{K} degrees of freedom from {len(orbits)} additions]"
                if s is None: chk.unknown("documented shape", con, "", r.error or "no result"); continue
                if code is None:
                    n = E.I.node_of(v, s)
                    sh = [s.norm(d) for d in n.shape] if n.shape is not None else None
                    ok = None if sh is None else len(sh) == 1 and (sh[0] == Dim.const(K) if sh[0].is_const() else None)
                    msg = f"mask has shape {sh}"
                else:
                    sp = Shapes(E, s, "any")
                    o = s.heap.get(v.oid) if isinstance(v, Ref) else None
                    ln = s.norm(o.length) if isinstance(o, ListO) and o.length is not None else Dim.const(len(o.items)) if isinstance(o, ListO) and o.items is not None else None
                    ok, msg = None, "length not known"
                    if ln is not None and ln.is_const(): ok, msg = (ln == Dim.const(K), f"{ln} elements")
                    if ok and code[2]:
                        es = o.items if o.items is not None else [o.elem] if o.elem is not None else []
                        ok, msg = sp.all([sp.check(e, code[2]) for e in es])
                chk.decide(ok, "documented shape", con, "", msg)
