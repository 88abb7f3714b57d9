"""C12, C13, C14, C27, C28: spectra as element-wise expressions compared with what the documentation says."""
from .framework import *
from .checks_io import params
from .elem import *

I3 = [Dim.const(k) for k in range(3)]
i_, j_, k_ = Dim.sym("i"), Dim.sym("j"), Dim.sym("k")
SPEC = {"phonon": ("ramannoodle.spectrum._raman.PhononRamanSpectrum", "raman_tensors"),
        "md": ("ramannoodle.spectrum._raman.MDRamanSpectrum", "polarizability_ts")}
CM_PER_FS = 1e15 / 29979245800.0
HC_OVER_K = 1.438776877


def leaf(name, *idx): return P.atom(("leaf", name, tuple(idx)))


def symmetric(name):
    """Interpretation of a leaf as an array of symmetric tensors."""
    def h(idx):
        a, b = idx[-2], idx[-1]
        if a.is_const() and b.is_const() and a.value() > b.value(): a, b = b, a
        return leaf(name, *idx[:-2], a, b)
    return h


def run_measure(E, kind, **flags):
    """measure() of one spectrum class with given switches; Result or None."""
    dotted, _ = SPEC[kind]
    try: c = E.I.get(dotted)
    except KeyError: raise Vanished(dotted)
    f, _ = c.lookup("measure")
    if f is None: raise Vanished(dotted + ".measure")
    ref, st, r0 = E.simple(dotted)
    if st is None: return None, f
    given = {"orientation": E.g.const("polycrystalline"), "laser_correction": E.g.const(False), "bose_einstein_correction": E.g.const(False)}
    given.update({k: E.g.const(v) if not isinstance(v, (Node, Ref)) else v for k, v in flags.items()})
    name = f"measure:{kind}:" + ",".join(f"{k}={v}" for k, v in sorted(flags.items(), key=lambda x: x[0]))
    return E.call_method(name, f, ref, st, {"orientation": "poly"}, given), f


def pair(E, r):
    """(wavenumbers node, intensities node) of a result, or None."""
    if r is None or r.st is None or r.error: return None
    n = E.I.node_of(r.value, r.st)
    if n.op != "tuple" or len(n.args) != 2: return None
    return n.args


def verdict(chk, rule, con, where, got, want, el, msg, tol=1e-9):
    e = equal(got, want, tol)
    if e is True: chk.ok(rule, con, where, msg)
    elif e is None: chk.unknown(rule, con, where, "not in closed form: " + "; ".join(dict.fromkeys(el.why)) + " " + str(got)[:200])
    else: chk.bad(rule, con, where, f"{msg}; computed: {str(got)[:300]}; expected: {str(want)[:300]}")
    return e


def run_signal(E, node, ts, st):
    f = E.I.get("ramannoodle.spectrum.utils.calc_signal_spectrum")
    st = st.fork()
    E.I.cur = ("<input>", "spec", 0)
    a = E.I.new_arr(st, node, ("spec", node.id))
    r = E.run(f"spec signal {node.id}", f, [a, ts], {}, st)
    return r


def raw_spec(E, el, kind, leafname, st, n):
    """Expected raw intensity at index n."""
    if kind == "phonon":
        t = lambda a, b: symmetric("raman_tensors")((n, I3[a], I3[b]))
        mean = (t(0, 0) + t(1, 1) + t(2, 2)) * P.const(1 / 3)
        sq = lambda p: p * p
        g2 = (sq(t(0, 0) - t(1, 1)) + sq(t(1, 1) - t(2, 2)) + sq(t(2, 2) - t(0, 0)) + P.const(6.0) * (sq(t(0, 1)) + sq(t(0, 2)) + sq(t(1, 2)))) * P.const(0.5)
        return P.const(45.0) * mean * mean + P.const(7.0) * g2
    # molecular dynamics: the same form with the quadratic functional "spectrum of a signal"
    g = E.g
    T1 = E.T - D1
    x = E.g.leaf("polarizability_ts", E.shape("T33"), "f")
    d = g.mk("diff", [x], 0, (T1, Dim.const(3), Dim.const(3)), "f")
    comp = lambda a, b: g.mk("index", [d], (("s", None, None, None), ("c", a), ("c", b)), (T1,), "f")
    ts = E.g.leaf("timestep", (), "f")
    op = lambda o, *a: g.mk(o, list(a), None, (T1,), "f")
    def S(sig):
        r = run_signal(E, sig, ts, st)
        p = pair(E, r)
        if p is None: return P.atom(("top", "signal spectrum"))
        e2 = Elem(E.I, r.st); e2.leafmap = el.leafmap
        return e2.at(p[1], (n,))
    xx, yy, zz = comp(0, 0), comp(1, 1), comp(2, 2)
    s = P.const(5.0) * S(op("add", op("add", xx, yy), zz))
    g2 = P.const(0.5) * (S(op("sub", xx, yy)) + S(op("sub", yy, zz)) + S(op("sub", zz, xx))) \
        + P.const(3.0) * (S(comp(0, 1)) + S(comp(0, 2)) + S(comp(1, 2)))
    return s + P.const(7.0) * g2


OTHER = ["parallel", "", "poly", "Polycrystalline", "xx", "powder", "polycrystal", "polycrystalline ", None, 0]


def c12(chk):
    E = chk.entries()
    for kind, (dotted, src) in SPEC.items():
        r, f = run_measure(E, kind)
        con = short(dotted) + ".measure"
        where = (f.mod.rel, f.node.lineno)
        p = pair(E, r)
        if p is None:
            chk.unknown("invariants", con, where, f"no result: {r and (r.error or r.raises[:1])}")
        else:
            el = Elem(E.I, r.st); el.leafmap = {src: symmetric(src)}
            got = el.at(p[1], (i_,))
            off = offset(E, el, kind, p[0], r.st, chk)
            want = raw_spec(E, el, kind, src, r.st, i_ + Dim.const(off or 0))
            verdict(chk, "invariants", con, where, got, want, el, "intensity = 45 a^2 + 7 g^2 of the tensor / derivative signal belonging to the same wavenumber")
        if kind == "md": quadratic(chk, E)
        for o in OTHER:
            r, _ = run_measure(E, kind, orientation=o)
            k = f"{con}: orientation={o!r}"
            if r is None or r.error: chk.unknown("orientation", k, where, str(r and r.error)); continue
            if r.st is not None: chk.bad("orientation", k, where, "an orientation other than polycrystalline is not refused"); continue
            names = {e.name() for e, s in r.raises}
            chk.decide(names <= {"NotImplementedError", "TypeError", "ValueError"} and bool(names), "orientation", k, where, f"raises {sorted(names)}")
        # an arbitrary string: every return is under orientation == "polycrystalline"
    chk.info["rule"] = "element-wise normal form of the intensities equals the rotation-invariant combination; constants other than 'polycrystalline' never return"


def offset(E, el, kind, wn, st, chk):
    """How many leading entries of the signal spectrum were dropped."""
    if kind == "phonon": return 0
    got = el.at(wn, (i_,))
    x = E.g.leaf("polarizability_ts", E.shape("T33"), "f")
    T1 = E.T - D1
    d = E.g.mk("diff", [x], 0, (T1, Dim.const(3), Dim.const(3)), "f")
    c = E.g.mk("index", [d], (("s", None, None, None), ("c", 0), ("c", 0)), (T1,), "f")
    r = run_signal(E, c, E.g.leaf("timestep", (), "f"), st)
    p = pair(E, r)
    if p is None: return None
    e2 = Elem(E.I, r.st)
    for k in range(4):
        if equal(got, e2.at(p[0], (i_ + Dim.const(k),))) is True: return k
    return None


def quadratic(chk, E):
    """The spectrum of a signal is a quadratic form of the signal (needed for invariance)."""
    f = chk.anchor("ramannoodle.spectrum.utils.calc_signal_spectrum")
    where = (f.mod.rel, f.node.lineno)
    r = E.run_function("ramannoodle.spectrum.utils.calc_signal_spectrum")[0]
    p = pair(E, r)
    if p is None:
        chk.unknown("quadratic", "spectrum.utils.calc_signal_spectrum", where, "no result"); return
    el = Elem(E.I, r.st)
    one = el.at(p[1], (i_,))
    el2 = Elem(E.I, r.st)
    base = el2.leafmap
    el2.leafmap = {"signal": lambda idx: leaf("u", *idx) + leaf("v", *idx)}
    el3 = Elem(E.I, r.st); el3.leafmap = {"signal": lambda idx: leaf("u", *idx) - leaf("v", *idx)}
    eu = Elem(E.I, r.st); eu.leafmap = {"signal": lambda idx: leaf("u", *idx)}
    evv = Elem(E.I, r.st); evv.leafmap = {"signal": lambda idx: leaf("v", *idx)}
    lhs = el2.at(p[1], (i_,)) + el3.at(p[1], (i_,))
    rhs = P.const(2.0) * (eu.at(p[1], (i_,)) + evv.at(p[1], (i_,)))
    verdict(chk, "quadratic", "spectrum.utils.calc_signal_spectrum", where, lhs, rhs, el2, "parallelogram law: S(u+v)+S(u-v) = 2S(u)+2S(v)")


# ------------------------------------------------------------------ C14
def c14(chk):
    E = chk.entries()
    lc = chk.anchor("ramannoodle.spectrum._raman.get_laser_correction")
    bc = chk.anchor("ramannoodle.spectrum._raman.get_bose_einstein_correction")
    # the factors themselves
    w = leaf("wavenumbers", i_)
    factor = {}
    for f, nm in ((lc, "laser"), (bc, "bose")):
        r = E.run_function(f.mod.name + "." + f.name)[0]
        where = (f.mod.rel, f.node.lineno)
        con = f"spectrum._raman.{f.name}"
        if r.error or r.st is None:
            chk.unknown("factor", con, where, str(r.error or r.raises[:1])); continue
        el = Elem(E.I, r.st)
        n = E.I.node_of(r.value, r.st)
        if n.shape is None or len(n.shape) != 1: chk.unknown("factor", con, where, "result is not one array"); continue
        got = el.at(n, (i_,))
        factor[nm] = (n, r.st)
        if nm == "laser":
            lw = leaf("laser_wavenumber")
            want = power(w - lw, 4) * power(w, -1)
            # an overall positive constant is a choice of unit
            s = ratio(got, want)
            if s is not None and s > 0: want = want * P.const(s)
            verdict(chk, "factor", con, where, got, want, el, "laser factor is proportional to (w - w_laser)^4 / w")
        else:
            want = power(P.const(1.0) - fn("exp", P.const(-HC_OVER_K) * w * power(leaf("temperature"), -1)), -1)
            verdict(chk, "factor", con, where, got, want, el, "Bose-Einstein factor is 1/(1 - exp(-h c w / k T))", 1e-3)
        # non-positive parameters
        refused(chk, E, f, "laser_wavenumber" if nm == "laser" else "temperature", con)
    for kind, (dotted, src) in SPEC.items():
        con = short(dotted) + ".measure"
        raw, f = run_measure(E, kind)
        where = (f.mod.rel, f.node.lineno)
        p0 = pair(E, raw)
        for lz in (False, True):
            for be in (False, True):
                k = f"{con}: laser_correction={lz}, bose_einstein_correction={be}"
                r, _ = run_measure(E, kind, laser_correction=lz, bose_einstein_correction=be)
                p = pair(E, r)
                if p is None or p0 is None:
                    chk.unknown("switch", k, where, f"no result: {r and (r.error or r.raises[:1])}"); continue
                banned = ([] if lz else ["laser_wavelength"]) + ([] if be else ["temperature"])
                bad = False
                for n in p:
                    for l in leaves(n):
                        if l.attr in banned:
                            bad = True
                            chk.bad("switch", k, l.site or where, f"the result depends on {l.attr} although the correction is switched off")
                for e, s in r.raises:
                    for b in banned:
                        if any(c is not None and any(l.attr == b for l in leaves(c)) for c, pol in pc_list(s.pc)) or e.args and b in str(e.args[0:1]):
                            bad = True
                            chk.bad("switch", k, e.site, f"fails because of {b} although the correction is switched off")
                if not bad: chk.ok("switch", k, where, "no dependence on parameters of corrections that are off")
                el, el0 = Elem(E.I, r.st), Elem(E.I, raw.st)
                a0 = el0.at(p0[0], (i_,)); a1 = el.at(p[0], (i_,))
                verdict(chk, "axis unchanged", k, where, a1, a0, el, "corrections leave the wavenumbers alone")
                want = el0.at(p0[1], (i_,))
                if lz:
                    if "laser" not in factor: chk.unknown("applied", k, where, "laser factor not known"); continue
                    n, st = factor["laser"]
                    ef = Elem(E.I, st)
                    ef.leafmap = {"wavenumbers": lambda idx: el0.at(p0[0], idx), "laser_wavenumber": lambda idx: P.const(1e7) * power(leaf("laser_wavelength"), -1)}
                    want = want * ef.at(n, (i_,))
                if be:
                    if "bose" not in factor: chk.unknown("applied", k, where, "Bose-Einstein factor not known"); continue
                    n, st = factor["bose"]
                    ef = Elem(E.I, st); ef.leafmap = {"wavenumbers": lambda idx: el0.at(p0[0], idx)}
                    want = want * ef.at(n, (i_,))
                got = el.at(p[1], (i_,))
                verdict(chk, "applied", k, where, got, want, el, "corrected intensity = raw intensity x the requested factors at that wavenumber")
        # wavenumber axis
        if p0 is not None:
            el0 = Elem(E.I, raw.st)
            if kind == "phonon":
                verdict(chk, "axis", con, where, el0.at(p0[0], (i_,)), leaf("phonon_wavenumbers", i_), el0, "wavenumbers are those of the phonons")
    f = chk.anchor("ramannoodle.spectrum.utils.calc_signal_spectrum")
    where = (f.mod.rel, f.node.lineno)
    r = E.run_function("ramannoodle.spectrum.utils.calc_signal_spectrum")[0]
    p = pair(E, r)
    if p is None: chk.unknown("axis", "spectrum.utils.calc_signal_spectrum", where, "no result")
    else:
        el = Elem(E.I, r.st)
        got = el.at(p[0], (i_,))
        pos = plain_axis(got)
        if pos is None: chk.unknown("axis", "spectrum.utils.calc_signal_spectrum", where, "axis is not a Fourier frequency axis " + str(got)[:200])
        else:
            coef, rate, n = pos
            ok = abs(coef / CM_PER_FS - 1) < 1e-3 and rate == -1
            chk.decide(ok, "axis", "spectrum.utils.calc_signal_spectrum", where, f"frequency axis is {coef:.6g} x fftfreq(n, 1) x sampling_rate^{rate:g}; expected {CM_PER_FS:.6g} and power -1")
            T = el.norm(E.st.dims.get("T", E.T)) if hasattr(E.st, "dims") else E.T
            ff = fft_lengths(el.at(p[1], (i_,)))
            if ff and n is not None:
                chk.decide(all(equal(dim_poly(x), n) is True for x in ff), "axis", "spectrum.utils.calc_signal_spectrum: length", where, f"axis for {n} samples, transform of {[str(x) for x in ff]}")


def fft_lengths(p):
    out = set()
    def walk(x):
        if isinstance(x, tuple):
            if x and x[0] == "poly":
                for m, c in x[1]:
                    for k, e in m: walk(AT.vals[k])
                return
            if x and x[0] == "app" and x[1] == "fft" and isinstance(x[2], Dim): out.add(x[2])
            for y in x: walk(y)
    for k in p.atoms(): walk(AT.vals[k])
    return out


def plain_axis(p):
    """coefficient, power of the sampling rate, and length, when p is const * rate^e * fftfreq(n)[i]."""
    if len(p.d) != 1: return None
    (m, c), = p.d.items()
    rate, n = 0, None
    for k, e in m:
        a = AT.vals[k]
        if a[0] == "leaf" and a[1] in ("sampling_rate", "timestep"): rate = e
        elif a[0] == "app" and a[1] == "fftfreq" and e == 1: n = unkey(a[2])
        else: return None
    return (c, rate, n) if n is not None else None


def ratio(a, b):
    """Constant factor between two expressions with the same monomials."""
    if not a.d or not b.d: return None
    s = None
    for m, c in a.d.items():
        if m in b.d and b.d[m]: return c / b.d[m]
    return None


def refused(chk, E, f, par, con):
    """A non-positive parameter never returns."""
    for v in (0, -1, -300.5):
        r = E.call_method(f"{f.name}:{par}={v}", f, None, E.st, {}, {par: E.g.const(v)})
        where = (f.mod.rel, f.node.lineno)
        if r.error: chk.unknown("parameters", f"{con}: {par}={v}", where, r.error)
        else: chk.decide(r.st is None and all(e.name() in ("ValueError", "TypeError") for e, s in r.raises), "parameters", f"{con}: {par}={v}", where, "non-positive parameter is refused")


# ------------------------------------------------------------------ C28
def c28(chk):
    E = chk.entries()
    f = chk.anchor("ramannoodle.spectrum.utils.convolve_spectrum")
    where = (f.mod.rel, f.node.lineno)
    w, s = leaf("width"), P.const(1.0)
    for r in E.run_function("ramannoodle.spectrum.utils.convolve_spectrum"):
        con = short(r.name)
        p = pair(E, r)
        if p is None: chk.unknown("line shape", con, where, f"no result {r.error or r.raises[:1]}"); continue
        el = Elem(E.I, r.st)
        x = el.at(p[0], (i_,))
        got = el.at(p[1], (i_,))
        t = fresh_sym()
        d = leaf("wavenumbers", Dim.sym(t)) - x
        if "gaussian" in r.name:
            body = P.const(1 / math.sqrt(2 * math.pi)) * power(w, -1) * fn("exp", P.const(-0.5) * d * d * power(w, -2))
        else:
            body = P.const(0.5 / math.pi) * w * power(d * d + P.const(0.25) * w * w, -1)
        want = summation(body * leaf("intensities", Dim.sym(t)), t, el.norm(E.M))
        verdict(chk, "line shape", con, where, got, want, el, "sum over lines of intensity x unit-area line shape centred at the line")
        if "given" in r.name:
            verdict(chk, "output axis", con, where, x, leaf("out_wavenumbers", i_), el, "evaluated and returned on the requested axis")
    for nm, vals in (("width", (0, -1, -2.5)), ("function", ("", "voigt", "Gaussian", "gauss", "lorentz", None))):
        for v in vals:
            base = {"function": "gaussian"}
            given = {nm: E.g.const(v), "out_wavenumbers": E.arr(E.st, "out_wavenumbers", (E.S.dim("Q"),))}
            for fnm in (("gaussian", "lorentzian") if nm == "width" else (None,)):
                g = dict(given)
                st = E.st.fork()
                g["out_wavenumbers"] = E.arr(st, "out_wavenumbers", (E.S.dim("Q"),))
                r = E.call_method(f"convolve:{nm}={v!r}:{fnm}", f, None, st, {"function": fnm or "gaussian"}, g)
                con = f"spectrum.utils.convolve_spectrum: {nm}={v!r}" + (f" {fnm}" if fnm else "")
                if r.error: chk.unknown("refused", con, where, r.error)
                else: chk.decide(r.st is None and bool(r.raises) and all(e.name() in ("ValueError", "TypeError") for e, _ in r.raises), "refused", con, where, "refused with ValueError")


# ------------------------------------------------------------------ C27
def stub_model(E, st):
    E.I.cur = ("<input>", "stub model", 0)
    return E.I.alloc(st, InstO(ExtV("stub.Model"), {}), ("in", "stub"), ("arg", "polarizability_model"))


def dynamics_spectrum(E, dotted):
    c = E.I.get(dotted)
    f, _ = c.lookup("get_raman_spectrum")
    if f is None: raise Vanished(dotted + ".get_raman_spectrum")
    ref, st, r0 = E.simple(dotted)
    if st is None: return None, f, None
    st = st.fork()
    m = stub_model(E, st)
    r = E.call_method(dotted + ".get_raman_spectrum[stub]", f, ref, st, {}, {"polarizability_model": m})
    return r, f, ref


def prop(E, ref, name, st):
    """Value of a public property of an object, as a node."""
    st = st.fork()
    r = E.run(f"prop {name} {ref.oid}", lambda_get(E, ref, name, st), [ref], {}, st)
    return (E.I.node_of(r.value, r.st), r.st) if r.st is not None else (None, None)


def lambda_get(E, ref, name, st):
    c = st.heap[ref.oid].cls
    pv, _ = c.lookup(name)
    if not isinstance(pv, PropV): raise Vanished(f"{c.name}.{name}")
    return pv.fget


def decompose(p):
    """[(coefficient, positions polynomial data, component index)] when p is a linear combination of model values."""
    out = []
    for m, c in p.d.items():
        if len(m) != 1 or m[0][1] != 1: return None
        a = AT.vals[m[0][0]]
        if a[0] != "app" or a[1] != "nn": return None
        out.append((c, a[2], a[3]))
    return out


def c27(chk):
    E = chk.entries()
    dotted = "ramannoodle.dynamics._phonon.Phonons"
    try: r, f, ref = dynamics_spectrum(E, dotted)
    except KeyError: raise Vanished(dotted)
    con = "dynamics._phonon.Phonons.get_raman_spectrum"
    where = (f.mod.rel, f.node.lineno)
    if r is None or r.error or r.st is None: chk.unknown("central difference", con, where, f"no result {r and (r.error or r.raises[:1])}")
    else:
        t, st1 = prop(E, r.value, "raman_tensors", r.st)
        w, st2 = prop(E, r.value, "phonon_wavenumbers", r.st)
        el = Elem(E.I, st1)
        got = el.at(t, (i_, j_, k_))
        central(chk, E, el, con, where, got)
        el = Elem(E.I, st2)
        verdict(chk, "pairing", con, where, el.at(w, (i_,)), leaf("wavenumbers", i_), el, "tensor i belongs to wavenumber i")
        lens(chk, con, where, r.st, t, w)
    dotted = "ramannoodle.dynamics._trajectory.Trajectory"
    try: r, f, ref = dynamics_spectrum(E, dotted)
    except KeyError: raise Vanished(dotted)
    con = "dynamics._trajectory.Trajectory.get_raman_spectrum"
    where = (f.mod.rel, f.node.lineno)
    if r is None or r.error or r.st is None: chk.unknown("time series", con, where, f"no result {r and (r.error or r.raises[:1])}")
    else:
        t, st1 = prop(E, r.value, "polarizability_ts", r.st)
        s, st2 = prop(E, r.value, "timestep", r.st)
        pos, st3 = prop(E, ref, "positions_ts", r.st)
        el = Elem(E.I, st1)
        got = el.at(t, (i_, j_, k_))
        a, c = fresh_sym(), fresh_sym()
        e3 = Elem(E.I, st3)
        names, key = bind(e3.at(pos, (i_, Dim.sym(a), Dim.sym(c))), [a, c])
        want = P.atom(("app", "nn", (names, key), (j_, k_)))
        verdict(chk, "time series", con, where, got, want, el, "polarizability of the configuration with the same index")
        el = Elem(E.I, st2)
        verdict(chk, "timestep", con, where, el.at(s, ()), leaf("timestep"), el, "the trajectory's own timestep")
        chk.decide(None if t.shape is None or pos.shape is None else st1.norm(t.shape[0]) == st1.norm(pos.shape[0]), "time series", con + ": length", where, "one polarizability per configuration")


def lens(chk, con, where, st, t, w):
    chk.decide(None if t.shape is None or w.shape is None else st.norm(t.shape[0]) == st.norm(w.shape[0]), "pairing", con + ": length", where, "as many tensors as wavenumbers")


def central(chk, E, el, con, where, got):
    d = decompose(got)
    if d is None:
        chk.unknown("central difference", con, where, "not a combination of model values: " + str(got)[:300] + " " + "; ".join(el.why[:3]))
        return
    ref = None
    bad = None
    if len(d) != 2: bad = f"{len(d)} model values are combined"
    else:
        (c1, a1, x1), (c2, a2, x2) = d
        if x1 != (j_, k_) or x2 != (j_, k_): bad = "tensor components are permuted"
        elif abs(c1 + c2) > 1e-9 * abs(c1): bad = f"weights {c1:g} and {c2:g} are not opposite"
        else:
            p1, p2 = (unkey(a[1]) for a in (a1, a2))
            nm = a1[0]
            av, cv = Dim.sym(nm[0]), Dim.sym(nm[1])
            base = (p1 + p2) * P.const(0.5)
            half = (p1 - p2) * P.const(0.5)
            refp = leaf("ref_positions", av, cv)
            disp = leaf("displacements", i_, av, cv)
            if opaque(p1) or opaque(p2):
                chk.unknown("central difference", con, where, "positions not in closed form"); return
            if equal(base, refp) is not True: bad = f"the two displaced structures are not centred on the reference positions: {str(base)[:200]}"
            else:
                s = ratio(half, disp)
                if s is None or equal(half, disp * P.const(s)) is not True: bad = f"the displacement is not a fixed multiple of the phonon's own displacement: {str(half)[:200]}"
                elif s * c1 <= 0: bad = "forward and backward displacement are exchanged"
    if bad: chk.bad("central difference", con, where, bad)
    else: chk.ok("central difference", con, where, "(model(ref + s d_i) - model(ref - s d_i)) x constant")


# ------------------------------------------------------------------ C13
def c13(chk):
    E = chk.entries()
    # molecular dynamics
    r, f = run_measure(E, "md")
    con = "spectrum._raman.MDRamanSpectrum.measure"
    where = (f.mod.rel, f.node.lineno)
    p = pair(E, r)
    if p is None: chk.unknown("offset", con, where, f"no result {r and (r.error or r.raises[:1])}")
    else:
        for q, nm in ((0, "wavenumbers"), (1, "intensities")):
            a = Elem(E.I, r.st); b = Elem(E.I, r.st)
            b.leafmap = {"polarizability_ts": lambda idx: leaf("polarizability_ts", *idx) + leaf("offset", *idx[1:])}
            verdict(chk, "offset", f"{con}: {nm}", where, b.at(p[q], (i_,)), a.at(p[q], (i_,)), b, f"{nm} unchanged when a constant tensor is added to every polarizability")
    # dynamics with an arbitrary model
    dotted = "ramannoodle.dynamics._phonon.Phonons"
    try: r, f, ref = dynamics_spectrum(E, dotted)
    except KeyError: raise Vanished(dotted)
    con = "dynamics._phonon.Phonons.get_raman_spectrum"
    where = (f.mod.rel, f.node.lineno)
    if r is None or r.error or r.st is None: chk.unknown("offset", con, where, "no result")
    else:
        t, st1 = prop(E, r.value, "raman_tensors", r.st)
        a = Elem(E.I, st1); b = Elem(E.I, st1)
        b.leafmap = {"model offset": lambda idx: leaf("offset", *idx)}
        verdict(chk, "offset", con, where, b.at(t, (i_, j_, k_)), a.at(t, (i_, j_, k_)), b, "Raman tensors unchanged when every polarizability of the model is shifted")
    models(chk, E)


def models(chk, E):
    """calc_polarizabilities of a fitted model shifts by exactly the offset of its inputs."""
    from .domains import Offset
    for cn, add in (("InterpolationModel", "add_dof"), ("ARTModel", "add_art")):
        con = f"pmodel.{cn}.calc_polarizabilities"
        r = fitted(E, cn, add)
        c = E.I.get(f"ramannoodle.pmodel.{cn}")
        f, _ = c.lookup("calc_polarizabilities")
        if f is None: raise Vanished(con)
        where = (f.mod.rel, f.node.lineno)
        if r is None or r.error or r.st is None: chk.unknown("offset", con, where, str(r and r.error)); continue
        n = E.I.node_of(r.value, r.st)
        o = Offset(E.I, r.st, ("ref_polarizability", "polarizabilities"))
        v = o.val(n)
        chk.decide(None if v is o.TOP else v == frozenset([1]), "offset", con, where, f"prediction shifts by exactly the offset of the polarizabilities the model was built from (found: {v if v is not None else o.why[:4]})")


def fitted(E, cn, *adders, rounds=2, tag=""):
    """Prediction of a model grown by the given update methods."""
    m, st, r0 = grown(E, cn, *adders, rounds=rounds)
    if st is None: return None
    c = st.heap[m.oid].cls
    f, _ = c.lookup("calc_polarizabilities")
    return E.call_method(f"fitted {cn} {adders}{tag}", f, m, st)


def grown(E, cn, *adders, rounds=2):
    rref, rst, r = E.ref()
    if rst is None: return None, None, r
    m, st, r = E.build("ramannoodle.pmodel." + cn, rst, None, {"ref_structure": rref})
    if st is None: return None, None, r
    c = st.heap[m.oid].cls
    for it in range(rounds):
        nst = st
        for a in adders:
            f, _ = c.lookup(a)
            if f is None: raise Vanished(f"pmodel.{cn}.{a}")
            rr = E.call_method(f"grown{it}:{cn}.{a}", f, m, st, prefix=f"g{it}.")
            if rr.st is not None: nst = E.I.join(nst, rr.st)
        st = nst
    st.pc = None
    return m, st, r


# ------------------------------------------------------------------ C16
ORDER = [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]
POS = {}
for _k, (_a, _b) in enumerate(ORDER): POS[_a, _b] = POS[_b, _a] = _k


class RowElem(Elem):
    """Arrays that are filled row block by row block in a loop: an element of such an array is an element of
    some block; which one is the subject of another property."""
    row = Dim.sym("row")

    def e_loopphi(self, n, idx, env):
        if len(n.args) == 2 and n.args[1].op == "update" and n.args[1].args[0].id == n.id: return self.bc(n.args[1], n, idx, env)
        return super().e_loopphi(n, idx, env)

    def e_update(self, n, idx, env):
        sp = n.attr
        if n.args[0].op == "loopphi" and len(sp) == 1 and sp[0][0] in ("s", "i"):
            v = n.args[1]
            if v.shape is not None and len(v.shape) == len(idx): return self.at(v, (self.row,) + tuple(idx[1:]), env)
            if v.shape is not None and len(v.shape) == len(idx) - 1: return self.at(v, tuple(idx[1:]), env)
        return super().e_update(n, idx, env)

    def e_concatl(self, n, idx, env):
        if n.attr in (0, (0,)): return self.at(n.args[0], (self.row,) + tuple(idx[1:]), env)
        return self.top(n, "concatenation")

    def e_net(self, n, idx, env): return P.atom(("leaf", "net", (self.row, idx[1])))


def net_hook(I, f, args, kw, st):
    pos = kw.get("positions", args[3] if len(args) > 3 else None)
    lat = kw.get("lattice", args[1] if len(args) > 1 else None)
    z = kw.get("atomic_numbers", args[2] if len(args) > 2 else None)
    if pos is None or lat is None or z is None: return NotImplemented
    ns = [I.node_of(x, st) for x in (lat, z, pos)]
    I.event("forward", st, args=args, kw=kw, obj=args[0], nodes=ns)
    b = ns[2].shape[0] if ns[2].shape else None
    n = I.g.mk("net", ns, None, (b, Dim.const(6)) if b is not None else None, "f")
    return I.new_arr(st, n, ("net", n.id), lib="torch")


def gnn_prediction(E):
    """calc_polarizabilities of the network with its forward pass left uninterpreted."""
    nm = "ramannoodle.pmodel.torch._gnn.PotGNN"
    try: c = E.I.get(nm)
    except KeyError: raise Vanished(nm)
    fw, _ = c.lookup("forward")
    f, _ = c.lookup("calc_polarizabilities")
    if fw is None or f is None: raise Vanished(nm + ".forward")
    m, st, r0 = E.gnn()
    if st is None: return None, f, None
    key = fw.mod.name + "." + fw.qual()
    E.I.hooks[key] = net_hook
    try: r = E.call_method("gnn prediction", f, m, st)
    finally: del E.I.hooks[key]
    return r, f, m


def c16(chk):
    E = chk.entries()
    s = Dim.sym("s")
    U = "ramannoodle.dataset.torch.utils."
    # vector -> tensor
    for fnm, arg in (("polarizability_vectors_to_tensors", "polarizability_vectors"), ("polarizability_tensors_to_vectors", "polarizability_tensors")):
        f = chk.anchor(U + fnm)
        where = (f.mod.rel, f.node.lineno)
        rs = E.run_function(U + fnm)
        r = rs[0] if rs else None
        if r is None or r.error or r.st is None: chk.unknown("ordering", fnm, where, f"no result {r and (r.error or r.raises[:1])}"); continue
        n = E.I.node_of(r.value, r.st)
        el = Elem(E.I, r.st)
        if fnm.endswith("tensors"):
            for a in range(3):
                for b in range(3):
                    verdict(chk, "ordering", f"{fnm}[{a},{b}]", where, el.at(n, (s, I3[a], I3[b])), leaf(arg, s, Dim.const(POS[a, b])), el, f"element {a}{b} is component {POS[a, b]}")
        else:
            el.leafmap = {arg: symmetric(arg)}
            for k, (a, b) in enumerate(ORDER):
                verdict(chk, "ordering", f"{fnm}[{k}]", where, el.at(n, (s, Dim.const(k))), leaf(arg, s, I3[a], I3[b]), el, f"component {k} is element {a}{b}")
    # dataset
    dotted = "ramannoodle.dataset.torch._dataset.PolarizabilityDataset"
    c = chk.anchor(dotted)
    where = (c.mod.rel, c.node.lineno)
    ref, st, r0 = E.simple("ramannoodle.dataset.torch.PolarizabilityDataset")
    if st is None: chk.unknown("scaling", "PolarizabilityDataset", where, str(r0.error or r0.raises[:1]))
    else:
        scaled(chk, E, ref, st, "PolarizabilityDataset()", where, None)
        f, _ = c.lookup("scale_polarizabilities")
        if f is None: raise Vanished(dotted + ".scale_polarizabilities")
        r = E.call_method("C16 scale", f, ref, st)
        w2 = (f.mod.rel, f.node.lineno)
        if r.st is None: chk.unknown("scaling", "PolarizabilityDataset.scale_polarizabilities", w2, str(r.error or r.raises[:1]))
        else: scaled(chk, E, ref, r.st, "PolarizabilityDataset.scale_polarizabilities", w2, ("mean", "stddev"))
        for nm in ("mean_polarizability", "stddev_polarizability"):
            n, st1 = prop(E, ref, nm, st)
            if n is None: chk.unknown("scaling", "PolarizabilityDataset." + nm, where, "no result"); continue
            el = Elem(E.I, st1); el.leafmap = {"polarizabilities": symmetric("polarizabilities")}
            B = samples(E, ref, st)
            for a in range(3):
                for b in range(a, 3):
                    want = stats(el, E, a, b, B)[0 if nm.startswith("mean") else 1]
                    verdict(chk, "scaling", f"PolarizabilityDataset.{nm}[{a},{b}]", where, el.at(n, (I3[a], I3[b])), want, el, "population statistics of the polarizabilities")
        item(chk, E, c, ref, st)
    # prediction
    r, f, m = gnn_prediction(E)
    where = (f.mod.rel, f.node.lineno)
    con = "PotGNN.calc_polarizabilities"
    if r is None or r.error or r.st is None: chk.unknown("unscaling", con, where, f"no result {r and (r.error or r.raises[:1])}")
    else:
        n = E.I.node_of(r.value, r.st)
        for a in range(3):
            for b in range(3):
                el = RowElem(E.I, r.st)
                el.leafmap = {"mean_polarizability": symmetric("mean_polarizability"), "stddev_polarizability": symmetric("stddev_polarizability")}
                got = el.at(n, (s, I3[a], I3[b]))
                a1, b1 = min(a, b), max(a, b)
                want = leaf("net", RowElem.row, Dim.const(POS[a, b])) * leaf("stddev_polarizability", I3[a1], I3[b1]) + leaf("mean_polarizability", I3[a1], I3[b1])
                verdict(chk, "unscaling", f"{con}[{a},{b}]", where, got, want, el, "network output x standard deviation + mean, element by element")


def samples(E, ref, st):
    n, st1 = prop(E, ref, "polarizabilities", st)
    return n.shape[0] if n is not None and n.shape else E.B


def stats(el, E, a, b, B):
    t = fresh_sym()
    x = leaf("polarizabilities", Dim.sym(t), I3[a], I3[b])
    B = el.norm(B)
    inv = power(dim_poly(B), -1)
    m = summation(x, t, B) * inv
    v = summation(x * x, t, B) * inv - m * m
    return m, power(v, 0.5)


def scaled(chk, E, ref, st, con, where, given):
    n, st1 = prop(E, ref, "scaled_polarizabilities", st)
    if n is None: chk.unknown("scaling", con, where, "no result"); return
    s = Dim.sym("s")
    B = samples(E, ref, st)
    for k, (a, b) in enumerate(ORDER):
        el = Elem(E.I, st1)
        el.leafmap = {x: symmetric(x) for x in ("polarizabilities", "mean", "stddev")}
        if given: m, sd = leaf("mean", I3[a], I3[b]), leaf("stddev", I3[a], I3[b])
        else: m, sd = stats(el, E, a, b, B)
        want = (leaf("polarizabilities", s, I3[a], I3[b]) - m) * power(sd, -1)
        verdict(chk, "scaling", f"{con}[{k}]", where, el.at(n, (s, Dim.const(k))), want, el, f"component {k} is (element {a}{b} - mean) / standard deviation")


def item(chk, E, c, ref, st):
    """Item i of the dataset is sample i."""
    f, _ = c.lookup("__getitem__")
    if f is None: raise Vanished("PolarizabilityDataset.__getitem__")
    where = (f.mod.rel, f.node.lineno)
    i = E.g.leaf("i", (), "i")
    r = E.call_method("C16 item", f, ref, st, {}, {"i": i})
    con = "PolarizabilityDataset.__getitem__"
    if r.error or r.st is None: chk.unknown("items", con, where, str(r.error or r.raises[:1])); return
    n = E.I.node_of(r.value, r.st)
    if n.op != "tuple" or len(n.args) != 4: chk.unknown("items", con, where, "not a tuple of four"); return
    v, st1 = prop(E, ref, "scaled_polarizabilities", r.st)
    el = Elem(E.I, r.st)
    id_ = el.index_dim(i, {})
    k = Dim.sym("k")
    e2 = Elem(E.I, st1)
    verdict(chk, "items", con + "[3]", where, el.at(n.args[3], (k,)), e2.at(v, (id_, k)), el, "scaled polarizability of the same sample")
    a, b = Dim.sym("a"), Dim.sym("b")
    verdict(chk, "items", con + "[2]", where, el.at(n.args[2], (a, b)), leaf("positions", id_, a, b), el, "positions of the same sample")
    verdict(chk, "items", con + "[0]", where, el.at(n.args[0], (a, b)), leaf("lattice", a, b), el, "the lattice")
