"""C15, C20: element tables and optional dependencies."""
from .framework import *
from .checks_io import public_callables

SYMBOLS = """H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag
Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu
Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og""".split()
# standard atomic weights (IUPAC, abridged); elements without one: mass number of a long-lived isotope
WEIGHTS = dict(zip(SYMBOLS, [
    1.008, 4.0026, 6.94, 9.0122, 10.81, 12.011, 14.007, 15.999, 18.998, 20.180, 22.990, 24.305, 26.982, 28.085, 30.974, 32.06, 35.45, 39.95,
    39.098, 40.078, 44.956, 47.867, 50.942, 51.996, 54.938, 55.845, 58.933, 58.693, 63.546, 65.38, 69.723, 72.630, 74.922, 78.971, 79.904,
    83.798, 85.468, 87.62, 88.906, 91.224, 92.906, 95.95, None, 101.07, 102.91, 106.42, 107.87, 112.41, 114.82, 118.71, 121.76, 127.60, 126.90,
    131.29, 132.91, 137.33, 138.91, 140.12, 140.91, 144.24, None, 150.36, 151.96, 157.25, 158.93, 162.50, 164.93, 167.26, 168.93, 173.05,
    174.97, 178.49, 180.95, 183.84, 186.21, 190.23, 192.22, 195.08, 196.97, 200.59, 204.38, 207.2, 208.98, None, None, None, None, None, None,
    232.04, 231.04, 238.03] + [None] * 26))
MASS_NUMBERS = {"Tc": (97, 98, 99), "Pm": (145, 147), "Po": (209, 210), "At": (210, 211), "Rn": (222,), "Fr": (223,), "Ra": (226,), "Ac": (227,),
                "Np": (237,), "Pu": (239, 244), "Am": (241, 243), "Cm": (244, 247), "Bk": (247,), "Cf": (251,), "Es": (252,), "Fm": (257,), "Md": (258,),
                "No": (259,), "Lr": (262, 266), "Rf": (261, 267), "Db": (262, 268, 270), "Sg": (266, 269, 271), "Bh": (264, 267, 270), "Hs": (269, 270, 277),
                "Mt": (268, 276, 278), "Ds": (281,), "Rg": (272, 280, 281, 282), "Cn": (285,), "Nh": (284, 286), "Fl": (289,), "Mc": (288, 289, 290),
                "Lv": (292, 293), "Ts": (292, 293, 294), "Og": (294,)}


def table(chk, E, name):
    """Contents of a module-level dictionary after import: python dict of constants, or None."""
    v = chk.anchor("ramannoodle.constants." + name)
    o = E.st.heap.get(v.oid) if isinstance(v, Ref) else None
    if not isinstance(o, DictO) or o.key is not None or o.val is not None: return None
    out = {}
    for k, x in o.items.items():
        n = E.I.node_of(x, E.st)
        if n is None or not n.is_const(): return None
        out[k] = n.const
    return out


def c15(chk):
    E = chk.entries()
    rel = "ramannoodle/constants.py"
    num, sym, wt = (table(chk, E, n) for n in ("ATOMIC_NUMBERS", "ATOM_SYMBOLS", "ATOMIC_WEIGHTS"))
    for nm, t in (("ATOMIC_NUMBERS", num), ("ATOM_SYMBOLS", sym), ("ATOMIC_WEIGHTS", wt)):
        if t is None: chk.unknown("constant", nm, rel, "contents are not constants after import")
    ref = {s: i + 1 for i, s in enumerate(SYMBOLS)}
    if num is not None:
        for s, z in ref.items(): chk.decide(num.get(s) == z and type(num.get(s)) is int, "numbers", f"ATOMIC_NUMBERS[{s}]", rel, f"is {num.get(s)!r}, element {s} has number {z}")
        for s in num: chk.decide(s in ref, "numbers", f"ATOMIC_NUMBERS[{s}]", rel, "key is an element symbol")
    if sym is not None:
        for s, z in ref.items(): chk.decide(sym.get(z) == s, "symbols", f"ATOM_SYMBOLS[{z}]", rel, f"is {sym.get(z)!r}, element {z} is {s}")
        for z in sym: chk.decide(z in ref.values(), "symbols", f"ATOM_SYMBOLS[{z}]", rel, "key is an atomic number")
    if num is not None and wt is not None:
        for s in num: chk.decide(s in wt, "coverage", f"ATOMIC_WEIGHTS[{s}]", rel, "every readable element has a weight")
    if wt is not None:
        for s in ref:
            w, r = wt.get(s), WEIGHTS[s]
            if w is None: chk.bad("weights", f"ATOMIC_WEIGHTS[{s}]", rel, "missing"); continue
            try: w = float(w)
            except (TypeError, ValueError): chk.bad("weights", f"ATOMIC_WEIGHTS[{s}]", rel, f"is {w!r}"); continue
            if r is not None: chk.decide(abs(w - r) <= 6e-4 * r, "weights", f"ATOMIC_WEIGHTS[{s}]", rel, f"is {w}, standard atomic weight {r}")
            else: chk.decide(any(abs(w - m) < 0.6 for m in MASS_NUMBERS[s]), "weights", f"ATOMIC_WEIGHTS[{s}]", rel, f"is {w}, isotopes {MASS_NUMBERS[s]}")
    # nothing changes the tables at run time
    oids = {v.oid: n for n in ("ATOMIC_NUMBERS", "ATOM_SYMBOLS", "ATOMIC_WEIGHTS") for v in [E.I.get("ramannoodle.constants." + n)] if isinstance(v, Ref)}
    hit = 0
    for r in E.all():
        if r.st is None: continue
        for oid, n in oids.items():
            a, b = E.st.heap.get(oid), r.st.heap.get(oid)
            if a is b: continue
            if isinstance(a, DictO) and isinstance(b, DictO) and (a.items.keys() != b.items.keys() or a.key is not b.key or any(a.items[k] is not b.items[k] for k in a.items)):
                chk.bad("constant", f"{n} in {short(r.name)}", rel, "the table is changed by a public operation"); hit += 1
    if not hit: chk.ok("constant", "tables at run time", rel, "no public operation changes a table")
    chk.info["rule"] = "module-level tables evaluated by the abstract interpreter, compared entry by entry with the periodic table"


# ------------------------------------------------------------------ C20
WORLDS = {"torch": ("torch", "torch_geometric", "torch_scatter", "torch_sparse"), "pymatgen": ("pymatgen",)}
FORBIDDEN = {"ImportError", "ModuleNotFoundError", "NameError", "AttributeError", "UnboundLocalError", "KeyError", "TypeError"}


def c20(chk):
    base = chk.entries()
    for n, ex in base.S.failed.items():
        chk.bad("import", n, n.replace(".", "/"), f"cannot be imported with everything installed: {[e.name() for e in ex]}")
    B = {r.name: r for r in base.all()}
    for pkg, absent in WORLDS.items():
        E = chk.entries(pkg, absent=absent)
        dependent = set()
        for n in E.S.names:
            con = f"import {n} without {pkg}"
            where = n.replace(".", "/") + ".py"
            if n not in E.S.failed: chk.ok("import", con, where, "can be imported"); continue
            ex = E.S.failed[n]
            dependent.add(n)
            names = {e.name() for e in ex}
            site = ex[0].site if ex else where
            if pkg not in n.split("."): chk.bad("import", con, site, f"a module outside the {pkg} packages cannot be imported: {sorted(names)}")
            elif names == {"UserError"} and mentions(E, ex, pkg): chk.ok("import", con, site, "documented user error")
            elif names == {"UserError"}: chk.bad("import", con, site, f"the user error does not name {pkg}")
            else: chk.bad("import", con, site, f"fails with {sorted(names)} instead of the user error")
        mine = {r.name: r for r in E.all()}
        for name, b in B.items():
            home = module_of(base, name)
            if home in dependent: continue
            r = mine.get(name)
            con = f"{short(name)} without {pkg}"
            if r is None:
                if name.split("@")[-1] == "PotGNN" or any(f"@{k}" in name for k in ("PotGNN",)): continue
                chk.bad("availability", con, home, "the operation does not exist in that installation"); continue
            where = (r.fn.mod.rel, r.fn.node.lineno) if isinstance(getattr(r, "fn", None), FuncV) else home
            if r.error or b.error: chk.unknown("availability", con, where, str(r.error or b.error)); continue
            old = {e.key() for e, _ in b.raises}
            new = [(e, s) for e, s in r.raises if e.key() not in old]
            bad = [e for e, s in new if e.name() in FORBIDDEN]
            uses = needs(b, dependent)
            if bad:
                chk.bad("stumble", con, bad[0].site, f"raises {bad[0].name()} {[str(getattr(a, 'const', a)) for a in bad[0].args][:1]} because {pkg} is missing"); continue
            user = [e for e, s in new if e.name() == "UserError"]
            if user and not all(mentions(E, [e], pkg) for e in user):
                chk.bad("stumble", con, user[0].site, f"the user error does not name {pkg}"); continue
            if b.st is not None and r.st is None:
                if not user: chk.unknown("availability", con, where, f"returns only when {pkg} is installed: {[e.name() for e, _ in new]}")
                elif not uses: chk.bad("availability", con, user[0].site, f"refused although nothing of {pkg} is needed")
                else: chk.ok("availability", con, user[0].site, f"needs {pkg}: refused with the user error")
            elif user and not uses and b.st is not None: chk.bad("availability", con, user[0].site, f"may be refused although nothing of {pkg} is needed")
            else: chk.ok("availability", con, where, "unaffected")
    chk.info["rule"] = "the package is interpreted in three installations; imports and outcomes are compared"


def module_of(E, name):
    parts = name.split("(")[0].split("@")[0].split(":")[0].split(".")
    for i in range(len(parts), 0, -1):
        if ".".join(parts[:i]) in E.I.mods: return ".".join(parts[:i])
    return name


def needs(r, dependent):
    """The complete installation enters code of a module that needs the package."""
    return any(e.kind == "enter" and getattr(e.data.get("fn"), "mod", None) is not None and e.data["fn"].mod.name in dependent for e in r.events)


def mentions(E, exs, pkg):
    """The message names the missing package; unknown messages pass."""
    for e in exs:
        for a in e.args or ():
            n = a if isinstance(a, Node) else None
            if n is not None and n.is_const() and pkg not in str(n.const).lower(): return False
    return True
