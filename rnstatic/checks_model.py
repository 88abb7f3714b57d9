"""C17: masking."""
from .framework import *
from .elem import *
from .checks_spectra import verdict, leaf, prop, lambda_get


def dofs(chk, E, cn, adder, orbits):
    """A model of class cn to which len(orbits) degrees of freedom are added, the k-th of which has orbits[k] symmetry
    equivalents. The equivalent displacements are arbitrary."""
    I = E.I
    eq, _ = chk.anchor("ramannoodle.structure.ReferenceStructure").lookup("get_equivalent_displacements")
    if eq is None: raise Vanished("ReferenceStructure.get_equivalent_displacements")
    rref, st, r = E.ref()
    if st is None: return None, None, r
    m, st, r = E.build("ramannoodle.pmodel." + cn, st, None, {"ref_structure": rref})
    if st is None: return None, None, r
    for k, q in enumerate(orbits):
        st, r = add(E, m, st, adder, k, q, eq)
        if st is None: return None, None, r
    return m, st, r


def add(E, m, st, adder, k, q, eq):
    I = E.I
    f, _ = st.heap[m.oid].cls.lookup(adder)
    if f is None: raise Vanished(adder)
    c2, n3 = Dim.const(2), Dim.const(3)

    def hook(I_, ff, args, kw, s):
        ds = []
        for j in range(q):
            I.cur = ("<input>", f"orbit{k}.{j}", 0)
            d = E.S.arr(s, f"disp{k}_{j}", (E.N, n3), "f")
            t = TupleV([E.S.arr(s, f"rot{k}_{j}", (n3, n3), "f"), E.S.arr(s, f"trans{k}_{j}", (n3,), "f")])
            lst = lambda tag, x: I.alloc(s, ListO([x], None, D1, "list"), ("in", f"{tag}{k}.{j}"))
            ds.append(I.alloc(s, DictO({"displacements": lst("D", d), "transformations": lst("T", t)}), ("in", f"orbit{k}.{j}")))
        return I.alloc(s, ListO(ds, None, Dim.const(q), "list"), ("in", f"orbits{k}"))
    key = eq.mod.name + "." + eq.qual()
    I.hooks[key] = hook
    s = st.fork()
    I.cur = ("<input>", f"dof{k}", 0)
    given = {"amplitudes": E.S.arr(s, f"amplitudes{k}", (c2,), "f"), "polarizabilities": E.S.arr(s, f"polarizabilities{k}", (c2, n3, n3), "f"),
             "interpolation_order": E.g.const(1), "include_ref_polarizability": E.g.const(False)}
    given = {x: v for x, v in given.items() if x in {a.arg for a in f.node.args.args}}
    try: r = E.call_method(f"{adder} {k}", f, m, s, {}, given, prefix=f"d{k}.")
    finally: del I.hooks[key]
    return r.st, r


def predict(E, m, st, tag=""):
    """((element (s, a, b) of the prediction), comparator)."""
    f, _ = st.heap[m.oid].cls.lookup("calc_polarizabilities")
    if f is None: raise Vanished("calc_polarizabilities")
    r = E.call_method(f"predict {tag}", f, m, st, {})
    if r.error or r.st is None: return None, None, r
    el = Elem(E.I, r.st)
    n = E.I.node_of(r.value, r.st)
    return el.at(n, (Dim.sym("s"), Dim.sym("a"), Dim.sym("b"))), el, r


class Dofs(Elem):
    """Elements of a prediction in terms of the contributions of the degrees of freedom."""
    def __init__(self, I, st):
        super().__init__(I, st)
        self.leafmap = {("op", "splineval"): lambda n, idx, env: self.contribution(n, idx)}

    def e_any(self, n, idx, env): return self.truth(n, idx, env, "e_any")
    def e_all(self, n, idx, env): return self.truth(n, idx, env, "e_all")

    def truth(self, n, idx, env, how):
        """any() and all() of constants."""
        from .checks_data import Numeric
        r = getattr(Numeric(self.I, self.st), how)(n, idx, env)
        return r if r.is_const() else self.top(n, how)

    def contribution(self, n, idx):
        sp, x = n.args[0], n.args[1]
        names = lambda z, pre: {l.attr[len(pre):] for l in leaves(z) if isinstance(l.attr, str) and l.attr.startswith(pre)}
        amp, pol, arg = names(sp, "amplitudes"), names(sp, "polarizabilities"), names(x, "disp")
        own = {a.split("_")[0] for a in arg}
        ok = len(arg) == 1 and amp == pol == own and names(sp, "disp") <= arg
        label = next(iter(arg)) if ok else f"mixed: amplitudes {sorted(amp)} polarizabilities {sorted(pol)} direction {sorted(arg)}"
        return P.atom(("leaf", "dof " + label, tuple(idx)))


def flags(n, st, I):
    """The entries of a mask, [True/False/None]."""
    from .checks_data import Numeric
    if n is None: return None
    sh = [st.norm(d) for d in n.shape] if n.shape is not None else None
    if not sh or len(sh) != 1 or not sh[0].is_const(): return None
    el = Numeric(I, st)
    out = []
    for k in range(sh[0].value()):
        v = el.const_of(n, (Dim.const(k),))
        out.append(None if v is None else bool(v))
    return out


class Script:
    """A history of operations on models and what must be predicted after each of them."""
    def __init__(self, chk, E, cn, adder, eq):
        self.chk, self.E, self.cn, self.adder, self.eq = chk, E, cn, adder, eq
        self.n = 0

    def member(self, st, m, name):
        f, _ = st.heap[m.oid].cls.lookup(name)
        if f is None: raise Vanished(f"{self.cn}.{name}")
        return f

    def call(self, st, m, name, **given):
        self.n += 1
        f = self.member(st, m, name)
        r = self.E.call_method(f"{name} {self.n}", f, m, st, {}, given)
        return r.value, r.st, r

    def numbers(self, st, ks):
        I = self.E.I
        I.cur = ("<input>", f"list {ks} {self.n}", 0)
        return I.alloc(st, ListO([self.E.g.const(k) for k in ks], None, Dim.const(len(ks)), "list"), ("in", f"list {ks} {self.n}"))

    def masked(self, st, m, ks):
        st = st.fork()
        x = self.numbers(st, ks)
        f = self.member(st, m, "get_masked_model")
        return self.call(st, m, "get_masked_model", **{f.node.args.args[1].arg: x})

    def expect(self, st, m, labels, mask, con, why):
        chk, E = self.chk, self.E
        f = self.member(st, m, "calc_polarizabilities")
        where = (f.mod.rel, f.node.lineno)
        self.n += 1
        r = E.call_method(f"predict {self.n}", f, m, st, {})
        if r.error: chk.unknown("contributions", con, where, r.error); return
        if r.st is None: chk.bad("contributions", con, where, f"no prediction: {[e.name() for e, _ in r.raises][:3]}"); return
        el = Dofs(E.I, r.st)
        n = E.I.node_of(r.value, r.st)
        s, a, b = (Dim.sym(x) for x in "sab")
        want = leaf("ref_polarizability", a, b)
        for k, x in enumerate(labels):
            if not mask[k]: want = want + leaf("dof " + x, s, a, b)
        verdict(chk, "contributions", con, where, el.at(n, (s, a, b)), want, el, why)
        v, st1 = prop(E, m, "mask", st)
        got = flags(v, st1, E.I)
        chk.decide(None if got is None or None in got else got == mask, "mask", con, where, f"mask is {got}, expected {mask}")


def c17(chk):
    for cn, adder in (("InterpolationModel", "add_dof"), ("ARTModel", "add_art")):
        E = chk.entries(cn)
        from .checks_data import Numeric
        E.I.assume = lambda n, st: assumed(E.I, n, st)
        try: history(chk, E, cn, adder)
        finally: E.I.assume = None


def assumed(I, n, st):
    from .checks_data import Numeric
    if n.shape not in ((), None) or has_top(n) or leaves(n) or any(x.op in ("spglib", "loopphi") for x in deps(n)): return None
    v = Numeric(I, st).const_of(n)
    return None if v is None else bool(v)


def history(chk, E, cn, adder):
    eq, _ = chk.anchor("ramannoodle.structure.ReferenceStructure").lookup("get_equivalent_displacements")
    c = chk.anchor("ramannoodle.pmodel." + cn)
    orbits = [1, 2, 1]
    labels = [f"{k}_{j}" for k, q in enumerate(orbits) for j in range(q)]
    K = len(labels)
    m, st, r = dofs(chk, E, cn, adder, orbits)
    f, _ = c.lookup("get_masked_model")
    if f is None: raise Vanished(cn + ".get_masked_model")
    where = (f.mod.rel, f.node.lineno)
    if st is None: chk.unknown("contributions", cn, where, f"no model {r and (r.error or r.raises[:2])}"); return
    S = Script(chk, E, cn, adder, eq)
    no = [False] * K
    S.expect(st, m, labels, no, f"{cn} [no mask]", "every degree of freedom contributes")
    sets = [[], [0], [1], [2], [K - 1], [0, 2], [K - 1, 1], [1, 2, 3], list(range(K))]
    def step(res, con):
        v, s, r = res
        if r.error: chk.unknown("contributions", con, where, r.error)
        elif s is None: chk.bad("contributions", con, where, f"always fails: {[e.name() for e, _ in r.raises][:3]}")
        else: return v, s
        return None, None
    for ks in sets:
        mask = [k in ks for k in range(K)]
        con = f"{cn} [masked copy {ks}]"
        x, s = step(S.masked(st, m, ks), con)
        if s is None: continue
        S.expect(s, x, labels, mask, con, f"exactly {ks} are masked")
        S.expect(s, m, labels, no, con + " original", "masking a copy leaves the original")
        for ks2 in ([0, 3], []):
            mask2 = [k in ks2 for k in range(K)]
            con2 = f"{con} masked copy of the copy {ks2}"
            y, s2 = step(S.masked(s, x, ks2), con2)
            if s2 is None: continue
            S.expect(s2, y, labels, mask2, con2, "exactly the requested ones are masked")
            S.expect(s2, x, labels, mask, con2 + ": first copy", "the first copy keeps its mask")
        _, s3 = step(S.call(s, x, "unmask"), con)
        if s3 is not None:
            S.expect(s3, x, labels, no, con + " unmasked", "unmasking restores all")
            S.expect(s3, m, labels, no, con + " unmasked: original", "")
        # growth after copying
        for nm, a, b in (("copy", x, m), ("original", m, x)):
            s4, r4 = add(E, a, s, adder, 7, 2, eq)
            con4 = f"{con} {nm} grown"
            if s4 is None: chk.unknown("contributions", con4, where, f"{r4.error or r4.raises[:2]}"); continue
            ma, mb = (mask, no) if a is x else (no, mask)
            S.expect(s4, a, labels + ["7_0", "7_1"], ma + [False, False], con4, "new degrees of freedom start unmasked, others keep their mask")
            S.expect(s4, b, labels, mb, con4 + ": the other model", "unaffected")
        # handing a mask from one model to another
        con5 = f"{con} mask given to the original"
        s5 = give(E, s, x, m)
        if s5 is None: chk.unknown("contributions", con5, where, "no result"); continue
        S.expect(s5, m, labels, mask, con5, "the same mask masks the same degrees of freedom")
        _, s6 = step(S.call(s5, m, "unmask"), con5)
        if s6 is not None:
            S.expect(s6, x, labels, mask, con5 + " unmasked: copy", "unaffected")
            S.expect(s6, m, labels, no, con5 + " unmasked", "unmasking restores all")
    chk.info["rule"] = f"models with {K} degrees of freedom (three additions, one of them with two symmetry equivalents)"


def give(E, st, x, m):
    """m.mask = x.mask"""
    r = E.run("mask of the copy", lambda_get(E, x, "mask", st), [x], {}, st.fork())
    if r.st is None: return None
    pv, _ = r.st.heap[m.oid].cls.lookup("mask")
    if not isinstance(pv.fset, FuncV): raise Vanished("mask setter")
    return E.run("mask given", pv.fset, [m, r.value], {}, r.st.fork()).st
