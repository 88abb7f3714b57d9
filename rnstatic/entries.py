"""Public entry points of the package with symbolic, in-contract arguments.

The argument descriptions come from the documented meaning of the parameter names; every public
function, property and method that the tree defines is enumerated from the source, so that new
ones are picked up and vanished ones are noticed.
"""
import ast
from .core import *
from .drive import Session, Result

FORMATS = ("vasprun.xml", "outcar", "poscar", "xdatcar")


class Entries:
    def __init__(self, root="/repo", absent=(), ints=False, budget=3_000_000, tweak=None):
        self.S = Session(root, absent, budget)
        self.I, self.g = self.S.I, self.S.I.g
        self.ints = ints                 # integer-typed numeric arrays (property C26)
        self.tweak = tweak               # function(param, shape) -> shape, to break one argument
        self._inst, self._res = {}, {}
        self.replace = None      # {parameter: value}: something else than the documented argument
        self.st = self.S.st0
        d = self.S.dim
        self.N, self.A, self.M, self.T, self.B, self.F = d("N"), d("A"), d("M"), d("T"), d("B"), d("F")
        self.BT = d("SamplesN", 1)

    # ------------------------------------------------------------------ single arguments
    def arr(self, st, name, shape, dt="f", **kw):
        if self.ints and dt == "f" and kw.pop("intable", True): dt = "i"
        kw.pop("intable", None)
        if self.tweak:
            t = self.tweak(name, tuple(shape))
            shape = shape if t is None else t
        return self.S.arr(st, name, shape, dt, **kw)

    SHAPES = {
        "positions": "N3", "ref_positions": "N3", "positions_1": "N3", "positions_2": "N3",
        "positions_ts": "TN3", "positions_batch": "BN3", "displacement": "N3", "cart_displacement": "N3",
        "direction": "3", "cart_direction": "3", "amplitudes": "A", "polarizabilities": "A33",
        "polarizability_ts": "T33", "wavenumbers": "M", "phonon_wavenumbers": "M", "displacements": "MN3", "raman_tensors": "M33",
        "rotation": "33", "translation": "3", "lattice": "33", "ref_polarizability": "33",
        "mean_polarizability": "33", "stddev_polarizability": "33", "intensities": "M", "signal": "T",
        "mean": "33", "stddev": "33", "vector_1": "3", "vector_2": "3",
        "reference_positions": "N3", "permuted_positions": "N3", "rotations": "R33", "translations": "R3",
        "cart_basis_vector": "N3",
    }
    OVERRIDE = {
        ("PolarizabilityDataset", "positions"): "SN3",
        ("PolarizabilityDataset", "polarizabilities"): "S33",
        ("batch_positions", "positions"): "SN3",
        ("construct_polarizability_dataset", "polarizabilities"): "F33",
        ("add_dof_from_pymatgen", "polarizabilities"): "F33",
        ("add_art_from_pymatgen", "polarizabilities"): "F33",
    }
    BOOLS = {"laser_correction", "bose_einstein_correction", "overwrite", "include_ref_polarizability"}
    FLOATS = {"laser_wavelength", "temperature", "timestep", "sampling_rate", "width", "symprec", "angle_tolerance",
              "cutoff", "gaussian_filter_start", "gaussian_filter_end", "lower_bound", "upper_bound", "laser_wavenumber"}
    INTS = {"atom_index", "interpolation_order", "batch_size", "i", "num_atoms", "num_nodes", "steps",
            "size_node_embedding", "size_edge_embedding", "num_message_passes"}

    def shape(self, code):
        m = {"N": self.N, "A": self.A, "M": self.M, "T": self.T, "B": self.B, "F": self.F, "S": self.BT, "3": Dim.const(3), "6": Dim.const(6),
             "R": self.S.dim("R")}
        return tuple(m[c] for c in code)

    def argument(self, owner, param, st, variant=None, prefix=""):
        """Symbolic value for a parameter of function/class `owner`; None when not known."""
        S, g = self.S, self.g
        code = self.OVERRIDE.get((owner, param), self.SHAPES.get(param))
        name = prefix + param
        if self.replace and param in self.replace: return self.replace[param]
        if code is not None:
            x = self.arr(st, name, self.shape(code))
            return x
        if param in self.BOOLS: return g.leaf(name, (), "b")
        if param in self.FLOATS: return g.leaf(name, (), "f")
        if param in self.INTS:
            n = g.leaf(name, (), "i")
            if n.ival is None: n.ival = new_sym(("in", name), 1 if param not in ("atom_index", "i") else 0)
            return n
        if param == "atomic_numbers":
            ln = self.N
            if self.tweak:
                sh = self.tweak(name, (ln,))
                if sh: ln = sh[0]
            return S.list(st, name, g.leaf(name + "[]", (), "i"), ln)
        if param in ("atom_symbols",): return S.strlist(st, name, S.dim("K"))
        if param == "dof_indexes_to_mask": return S.list(st, name, g.leaf(name + "[]", (), "i"), S.dim("K"))
        if param == "atom_indexes_or_symbols":
            return S.list(st, name, Union([g.leaf(name + "[]i", (), "i"), g.leaf(name + "[]s", (), "s")]), S.dim("K"))
        if param == "filepath": return g.leaf(name, (), "s")
        if param == "filepaths":
            if variant == "str": return g.leaf(name, (), "s")
            if variant == "A": return S.strlist(st, name, self.A)
            return S.strlist(st, name, self.F)
        if param == "file_format": return g.const(variant) if variant else g.leaf(name, (), "s")
        if param == "label": return g.leaf(name, (), "s")
        if param == "orientation":
            if variant == "poly": return g.const("polycrystalline")
            if variant == "str": return g.leaf(name, (), "s")
            return self.arr(st, name, self.shape("33"))
        if param == "function": return g.const(variant) if variant else g.leaf(name, (), "s")
        if param == "out_wavenumbers":
            return self.arr(st, name, (S.dim("Q"),)) if variant == "given" else g.const(None)
        if param == "is_dummy_model": return g.const(variant == "dummy")
        if param == "mask": return S.arr(st, name, (S.dim("D", 0),), "b")
        if param == "key":
            if variant == "slice":
                return SliceV(g.leaf("key.start", (), "i"), g.leaf("key.stop", (), "i"), g.const(None))
            return g.leaf(name, (), "i")
        if param in ("vectors",):
            return S.list(st, name, self.arr(st, name + "[]", self.shape("3")), S.dim("K"))
        return None

    # ------------------------------------------------------------------ objects
    def run(self, name, f, args, kw=None, st=None):
        r = self.S.run(name, f, args, kw, st)
        self._res.setdefault(name, r)
        return r

    def cls(self, dotted):
        try: return self.I.get(dotted)
        except KeyError: return None

    def build(self, dotted, st, variant=None, given=None, prefix=""):
        """Run a public constructor on in-contract arguments. Returns (ref, state, Result)."""
        c = self.cls(dotted)
        r = Result(dotted); r.error = "missing " + dotted
        if not isinstance(c, ClassV): return None, None, r
        init, _ = c.lookup("__init__")
        st = st.fork()
        args, kw = [], {}
        given = given or {}
        for i, p in enumerate(init.node.args.args[1:]):
            if p.arg in given: v = given[p.arg]
            else: v = self.argument(c.name, p.arg, st, variant, prefix)
            nd = len(init.node.args.defaults); pos = i + 1
            if v is None:
                if pos >= len(init.node.args.args) - nd: continue
                r.error = f"no input description for parameter {p.arg} of {dotted}"
                return None, None, r
            kw[p.arg] = v
        r = self.run(dotted + (f"[{variant}]" if variant else "") + (f"<{prefix}>" if prefix else ""), c, [], kw, st)
        if r.st is None: return None, None, r
        return r.value, r.st, r

    def ref(self, prefix=""):
        k = ("ref", prefix)
        if k not in self._inst:
            self._inst[k] = self.build("ramannoodle.structure.ReferenceStructure", self.st, prefix=prefix)
        return self._inst[k]

    def simple(self, dotted, variant=None):
        k = (dotted, variant)
        if k not in self._inst: self._inst[k] = self.build(dotted, self.st, variant)
        return self._inst[k]

    def model(self, cls="InterpolationModel", dummy=False, rounds=2):
        """A potential model after an arbitrary number of updates: fixpoint over its public mutators."""
        k = (cls, dummy, rounds)
        if k in self._inst: return self._inst[k]
        rref, rst, r = self.ref()
        if rst is None:
            self._inst[k] = (None, None, r); return self._inst[k]
        dotted = "ramannoodle.pmodel." + cls
        m, st, r = self.build(dotted, rst, "dummy" if dummy else None, {"ref_structure": rref})
        self._inst[k] = (m, st, r)
        if st is None: return self._inst[k]
        c = st.heap[m.oid].cls
        for it in range(rounds):
            nst = st
            for meth in (("add_art", "add_art_from_files") if cls == "ARTModel" else ("add_dof", "add_dof_from_files")):
                f, _ = c.lookup(meth)
                if f is None: continue
                rr = self.call_method(f"grow{it}:{dotted}.{meth}" + (":dummy" if dummy else ""), f, m, st, variant={"file_format": "outcar"}, prefix=f"g{it}.")
                if rr.st is not None: nst = self.I.join(nst, rr.st)
            st = nst
        st.pc = None
        self._inst[k] = (m, st, r)
        return self._inst[k]

    def call_method(self, name, f, self_ref, st, variant=None, given=None, prefix=""):
        variant, given = variant or {}, given or {}
        st = st.fork()
        kw = {}
        params = f.node.args.args[1:] if self_ref is not None else f.node.args.args
        nd = len(f.defaults); tot = len(f.node.args.args)
        r = Result(name)
        for i, p in enumerate(params):
            pos = i + (1 if self_ref is not None else 0)
            if p.arg in given: v = given[p.arg]
            else:
                v = self.argument(f.name, p.arg, st, variant.get(p.arg), prefix)
            if v is None:
                if pos >= tot - nd: continue
                r.error = f"no input description for parameter {p.arg} of {name}"
                self._res.setdefault(name, r)
                return r
            kw[p.arg] = v
        return self.run(name, f, [self_ref] if self_ref is not None else [], kw, st)

    # ------------------------------------------------------------------ enumeration
    INTERNAL = {"ramannoodle.exceptions", "ramannoodle.abstract", "ramannoodle.constants"}

    def public(self, kind):
        """(dotted name of the definition, value): everything reachable through a module path and a
        name without leading underscores, re-exports included (``:meta private:`` ones excepted)."""
        out = {}
        for n, m in sorted(self.I.mods.items()):
            if m.done is not True or n in self.INTERNAL or any(p.startswith("_") for p in n.split(".")): continue
            for k, v in m.env.items():
                if k.startswith("_") or not isinstance(v, kind) or v.mod.name in self.INTERNAL: continue
                if not v.mod.name.startswith("ramannoodle"): continue
                own = v.mod is m or m.path.endswith("__init__.py")
                doc = ast.get_docstring(v.node) or ""
                if own and ":meta private:" not in doc: out[v.mod.name + "." + v.name] = v
        return sorted(out.items())

    def public_functions(self): return self.public(FuncV)
    def public_classes(self): return self.public(ClassV)

    def class_members(self, c):
        """(name, kind, FuncV) of the public operations of a class, inherited ones included."""
        seen, out = set(), []
        for k in c.mro():
            if not isinstance(k, ClassV): continue
            for n, v in k.attrs.items():
                if n in seen: continue
                seen.add(n)
                if n.startswith("_") and n not in ("__len__", "__getitem__", "__repr__", "__iter__", "__call__"): continue
                if isinstance(v, FuncV): out.append((n, "method", v))
                elif isinstance(v, PropV):
                    if isinstance(v.fget, FuncV): out.append((n, "get", v.fget))
                    if isinstance(v.fset, FuncV): out.append((n, "set", v.fset))
        return out

    VARIANTS = {"file_format": FORMATS, "filepaths": ("list", "str"), "orientation": ("poly", "str"),
                "function": ("gaussian", "lorentzian"), "out_wavenumbers": ("none", "given"), "key": ("int", "slice")}

    def variants(self, f):
        """Discrete argument choices to run separately."""
        ps = [p.arg for p in f.node.args.args]
        vs = [{}]
        for p, alts in self.VARIANTS.items():
            if p in ps:
                alts = [a for a in alts]
                vs = [dict(v, **{p: a}) for v in vs for a in alts]
        if "amplitudes" in ps and "filepaths" in ps:
            vs = [dict(v, filepaths="A") for v in vs if v.get("filepaths") == "list"]
        return vs

    def instance(self, c):
        """(ref, state, tag) list: representative instances of a public class."""
        n = c.name
        dotted = c.mod.name + "." + n
        if n in ("InterpolationModel", "ARTModel"):
            out = []
            for dummy in (False, True):
                m, st, r = self.model(n, dummy)
                if st is not None: out.append((m, st, "dummy" if dummy else ""))
            return out
        if n == "ReferenceStructure":
            m, st, r = self.ref()
            return [(m, st, "")] if st is not None else []
        if n == "PotGNN":
            m, st, r = self.gnn()
            return [(m, st, "")] if st is not None else []
        if n == "BatchTriplets": return []
        if any(isinstance(d, FuncV) and "abstractmethod" in d.decos and c.lookup(d.name)[0] is d
               for k in c.mro() if isinstance(k, ClassV) for d in k.attrs.values()): return []
        init, _ = c.lookup("__init__")
        if init is None: return []
        m, st, r = self.simple(dotted)
        return [(m, st, "")] if st is not None else []

    def gnn(self):
        if "gnn" not in self._inst:
            rref, rst, r = self.ref()
            if rst is None: self._inst["gnn"] = (None, None, r)
            else: self._inst["gnn"] = self.build("ramannoodle.pmodel.torch._gnn.PotGNN", rst, None, {"ref_structure": rref})
        return self._inst["gnn"]

    def instance_args(self, f, st):
        """Arguments that are repository objects, by annotation/parameter name."""
        out = []
        given = {}
        for p in f.node.args.args:
            if p.arg == "ref_structure":
                rref, rst, _ = self.ref()
                if rst is None: return None
                st = self.merge(st, rst); given[p.arg] = rref
            if f.name == "train_single_epoch" and p.arg == "model":
                m, mst, _ = self.gnn()
                if mst is None: return None
                st = self.merge(st, mst); given[p.arg] = m
            if p.arg in ("training_set", "validation_set"):
                k = ("dataset", p.arg)
                if k not in self._inst:
                    self._inst[k] = self.build("ramannoodle.dataset.torch.PolarizabilityDataset", self.st, prefix=p.arg + ".")
                m, mst, _ = self._inst[k]
                if mst is None: return None
                st = self.merge(st, mst); given[p.arg] = m
        if any(p.arg == "polarizability_model" for p in f.node.args.args):
            for cn in ("InterpolationModel", "PotGNN"):
                if cn == "PotGNN": m, mst, _ = self.gnn()
                else: m, mst, _ = self.model(cn)
                if mst is not None: out.append((cn, dict(given, polarizability_model=m), self.merge(st, mst)))
            return out
        return [("", given, st)]

    def merge(self, a, b):
        """Union of two heaps built from the same base (disjoint allocations)."""
        s = a.fork()
        for k, v in b.heap.items(): s.heap.setdefault(k, v)
        for k, v in b.facts.items(): s.facts.setdefault(k, v)
        for k, v in b.dims.items(): s.dims.setdefault(k, v)
        for k, v in b.mins.items(): s.mins.setdefault(k, v)
        return s

    def run_function(self, dotted, f=None):
        """All variants of one public module-level function."""
        if f is None:
            try: f = self.I.get(dotted)
            except KeyError: return []
        out = []
        ins = self.instance_args(f, self.st)
        if ins is None: return []
        for tag, given, st in ins:
            for v in self.variants(f):
                name = dotted + (f"({','.join(str(x) for x in v.values())})" if v else "") + (f"@{tag}" if tag else "")
                if name in self._res: out.append(self._res[name]); continue
                g, st2 = self.special(dotted, f, given, st)
                out.append(self.call_method(name, f, None, st2, v, g))
        return out

    def special(self, dotted, f, given, st):
        """Arguments of the optional-dependency modules."""
        S, g = self.S, self.g
        given = dict(given); st = st.fork()
        short = f.name
        for p in f.node.args.args:
            a = p.arg
            if a in given: continue
            if a == "pymatgen_structure": given[a] = self.pmg_structure(st, a)
            elif a == "pymatgen_structures": given[a] = S.list(st, a, self.pmg_structure(st, a + "[]"), self.F)
            elif a == "pymatgen_trajectory": given[a] = self.pmg_trajectory(st, a)
            elif ".torch" in dotted and short not in ("batch_positions",):
                v = self.tensor_arg(short, a, st)
                if v is not None: given[a] = v
        return given, st

    def pmg_structure(self, st, name):
        S = self.S
        lat = self.I.alloc(st, InstO(ExtV("pymatgen.core.Lattice"), {"matrix": S.arr(st, name + ".lattice.matrix", self.shape("33"))}), ("in", name + ".lattice"), ("arg", name))
        f = {"lattice": lat, "frac_coords": S.arr(st, name + ".frac_coords", self.shape("N3")),
             "cart_coords": S.arr(st, name + ".cart_coords", self.shape("N3")),
             "atomic_numbers": S.list(st, name + ".atomic_numbers", self.g.leaf(name + ".Z", (), "i"), self.N)}
        self.I.cur = ("<input>", name, 0)
        return self.I.alloc(st, InstO(ExtV("pymatgen.core.Structure"), f), ("in", name), ("arg", name))

    def pmg_trajectory(self, st, name):
        S = self.S
        self.I.cur = ("<input>", name, 0)
        f = {"coords": S.arr(st, name + ".coords", self.shape("TN3")),
             "coords_are_displacement": self.g.leaf(name + ".coords_are_displacement", (), "b")}
        return self.I.alloc(st, InstO(ExtV("pymatgen.core.trajectory.Trajectory"), f), ("in", name), ("arg", name))

    TENSORS = {"polarizability_vectors": "S6", "polarizability_tensors": "S33", "targets": "S3", "polarizabilities": "S33"}

    def tensor_arg(self, fn, a, st):
        S = self.S
        if a in self.TENSORS: return S.arr(st, a, self.shape(self.TENSORS[a]), "f", lib="torch")
        if a in ("cart_displacement",): return S.arr(st, a, (S.dim("E"), Dim.const(3)), "f", lib="torch")
        if a in ("edge_indexes", "ref_edge_indexes"): return S.arr(st, a, (Dim.const(3 if fn == "get_graph_info" else 2), S.dim("E")), "i", lib="torch")
        if a == "cart_distance_matrix": return S.arr(st, a, (self.B, self.N, self.N), "f", lib="torch")
        if a == "num_atoms": 
            n = self.g.leaf("num_atoms", (), "i"); n.ival = self.N; return n
        if fn == "verify_tensor_size" or fn == "get_tensor_size_error":
            if a == "tensor": return S.arr(st, a, self.shape("S3"), "f", lib="torch")
            if a == "name": return self.g.leaf(a, (), "s")
            if a == "size": return TupleV([self.g.dim(self.BT), self.const(3)])
            if a == "desired_size": return self.g.leaf(a, (), "s")
        if fn == "train_single_epoch":
            self.I.cur = ("<input>", a, 0)
            if a == "optimizer": return self.I.alloc(st, InstO(ExtV("torch.Optimizer"), {}), ("in", a), ("arg", a))
            if a == "loss_function": return self.I.alloc(st, InstO(ExtV("torch.Loss"), {}), ("in", a), ("arg", a))
        if fn == "forward":
            if a == "lattice": return S.arr(st, a, self.shape("S33"), "f", lib="torch")
            if a == "atomic_numbers": return S.arr(st, a, self.shape("SN"), "i", lib="torch")
            if a == "positions": return S.arr(st, a, self.shape("SN3"), "f", lib="torch")
        return None

    def const(self, v): return self.g.const(v)

    def all(self):
        """Every public operation on in-contract inputs; list of Results."""
        if "all" in self._inst: return self._inst["all"]
        out = []
        for dotted, f in self.public_functions():
            out += self.run_function(dotted, f)
        for dotted, c in self.public_classes():
            insts = self.instance(c)
            if not insts:
                r = self._inst.get((dotted, None), (None, None, None))[2] or Result(dotted)
                r.error = r.error or "no instance could be constructed"
                if r.raises: r.error += " " + str(r.raises[0][0])
                out.append(r)
            for ref, st, tag in insts:
                for n, kind, f in self.class_members(c):
                    out += self.run_member(dotted, c, ref, st, tag, n, kind, f)
        self._inst["all"] = out
        return out

    def run_member(self, dotted, c, ref, st, tag, n, kind, f):
        out = []
        ins = self.instance_args(f, st)
        if ins is None: return out
        for itag, given, st1 in ins:
            for v in self.variants(f):
                name = f"{dotted}.{n}" + ("=" if kind == "set" else "") + (f"({','.join(str(x) for x in v.values())})" if v else "") \
                    + (f"@{itag}" if itag else "") + (f":{tag}" if tag else "")
                if name in self._res: out.append(self._res[name]); continue
                g, st2 = self.special(dotted, f, given, st1)
                if kind == "set":
                    p = f.node.args.args[1].arg
                    if p not in g: g[p] = self.argument(c.name, n, st2)
                r = self.call_method(name, f, ref, st2, v, g)
                r.self_ref, r.member, r.kind, r.cls = ref, n, kind, c
                out.append(r)
        return out
