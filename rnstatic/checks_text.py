"""Checks about what readers make of the text of files (C23)."""
import math
from .framework import *

CM = 0.0299792458      # THz per reciprocal centimetre


class Text:
    """Constant propagation of example texts through string and element-wise operations."""
    def __init__(self, given):
        self.given, self.memo, self.why, self.refused = given, {}, None, None

    def val(self, n):
        if n.id in self.memo: return self.memo[n.id]
        self.memo[n.id] = None
        try: r = self.step(n)
        except (ValueError, IndexError) as e: r, self.refused = None, self.refused or f"{type(e).__name__} at {n.op}"
        except (ArithmeticError, TypeError, KeyError, AttributeError): r = None
        self.memo[n.id] = r
        return r

    def step(self, n):
        g = self.given(n)
        if g is not None: return g
        if n.const is not NO: return n.const
        op = n.op
        if op in ("stack", "iterelem", "expand", "reshape", "cast", "full", "copy", "part") and n.args:
            x = self.val(n.args[0])
            if op == "iterelem" and isinstance(x, (list, str)):
                k = self.val(n.args[1]) if len(n.args) > 1 else None
                return x[int(k)] if k is not None else None
            if op == "cast" and isinstance(x, str): return float(x)
            return x
        if op == "str:substr": a = [self.val(n.args[0]), 0]
        else: a = [self.val(x) for x in n.args]
        if op == "where":
            return None if a[0] is None else a[1] if a[0] else a[2]
        if op == "phi":
            return a[0] if a and all(x == a[0] for x in a) else None
        if op in ("and", "or"):
            if op == "and" and False in a or op == "or" and True in a: return op == "or"
            return None if None in a else (all(a) if op == "and" else any(a))
        if any(x is None for x in a): self.why = self.why or op; return None
        if op == "item" and isinstance(a[0], (tuple, list)): return a[0][n.attr]
        if op in ("call:maximum", "call:minimum", "call:clip") and not n.attr:
            x, r = a[0], a[1:]
            if op == "call:clip": return min(max(x, r[0]), r[1]) if len(r) == 2 else None
            return max(x, r[0]) if op == "call:maximum" else min(x, r[0])
        if op in ("call:sort", "call:asarray", "call:ascontiguousarray") and a: return a[0]     # which value it is, not where
        if op.startswith("str:"):
            m = op[4:]
            if m == "contains": return a[1] in a[0]
            if m in ("slice", "char", "index"): return None
            if m == "substr":
                sl = n.args[1]
                if sl.op != "slice" or len(sl.args) != 3 or not isinstance(a[0], str): return None
                ks = [self.val(x) for x in sl.args]
                if any(k is None and x.const is not None for k, x in zip(ks, sl.args)): return None
                return a[0][slice(*[None if k is None else int(k) for k in ks])]
            return getattr(a[0], m)(*a[1:])
        return NUM[op](*a) if op in NUM else None


def sign(x): return float((x > 0) - (x < 0))


NUM = {"floatstr": float, "intstr": int, "not": lambda x: not x, "neg": lambda x: -x, "u:negative": lambda x: -x, "add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y,
       "div": lambda x, y: x / y, "pow": lambda x, y: x ** y if x >= 0 or float(y).is_integer() else None, "mod": lambda x, y: x % y, "floordiv": lambda x, y: x // y,
       "u:sign": sign, "u:sqrt": lambda x: math.sqrt(x) if x >= 0 else None, "u:abs": abs, "u:fabs": abs, "abs": abs, "u:square": lambda x: x * x, "u:exp": math.exp, "u:log": math.log,
       "cmp:<": lambda x, y: x < y, "cmp:<=": lambda x, y: x <= y, "cmp:==": lambda x, y: x == y, "u:copysign": math.copysign, "u:maximum": max, "u:minimum": min,
       "u:power": lambda x, y: x ** y if x >= 0 or float(y).is_integer() else None, "u:cbrt": lambda x: sign(x) * abs(x) ** (1 / 3), "u:rint": round, "u:round": round, "u:rounded": lambda x, d: round(x, int(d)), "u:floor": math.floor, "u:ceil": math.ceil, "u:trunc": math.trunc, "u:real": lambda x: x.real, "u:imag": lambda x: x.imag}

# OUTCAR: one line per mode; the label of an unstable mode is "f/i=" and of a stable mode "f  ="
OUTCAR = {
    "stable mode": ("   4 f  =   15.100000 THz    94.876098 2PiTHz  503.681787 cm-1    62.448200 meV\n", 503.681787),
    "stable soft mode": (" 318 f  =    0.100000 THz     0.628318 2PiTHz    3.335641 cm-1     0.413567 meV\n", 3.335641),
    "unstable mode": ("   7 f/i=    1.500000 THz     9.424778 2PiTHz   50.034615 cm-1     6.203500 meV\n", -50.034615),
    "unstable mode with a long number": ("1204 f/i=   11.500000 THz    72.256631 2PiTHz  383.598715 cm-1    47.560100 meV\n", -383.598715),
}
MARKS = ("cm-1", "f/i", "THz", "meV")

# vasprun.xml: eigenvalues in THz^2, negative for stable modes
VASPRUN = {"stable mode": (-4.0, 2.0 / CM), "stable hard mode": (-225.0, 15.0 / CM), "unstable mode": (4.0, -2.0 / CM), "slightly unstable mode": (0.01, -0.1 / CM), "zero mode": (0.0, 0.0)}


def same(a, b): return abs(a - b) <= 1e-5 * max(1.0, abs(b))


def wavenumbers(r):
    o = r.st.heap.get(getattr(r.value, "oid", None)) if r.st is not None else None
    w = o.fields.get("_wavenumbers") if isinstance(o, InstO) else None
    o = r.st.heap.get(getattr(w, "oid", None)) if w is not None else None
    return o.content if isinstance(o, ArrO) else None


def c23(chk):
    E = chk.entries("plain")
    f = chk.anchor("ramannoodle.io.vasp.outcar.read_phonons")
    where = (f.mod.rel, f.node.lineno)
    modes = set()          # lines that are searched for what only mode lines contain
    def any_line(n): return n.op == "leaf" and isinstance(n.attr, tuple) and n.attr[0] == "line"
    def is_line(n): return n.id in modes
    texts = {k: Text(lambda n, t=t: t if is_line(n) else None) for k, (t, _) in OUTCAR.items()}
    tested = set()
    def searching(n):
        """the test decides whether the loop over the lines of the file goes on"""
        loops = {x.attr[1:3] for x in E.I.loopstack if isinstance(x.attr, tuple) and x.attr[0] == "loopidx"}
        return not any(is_line(m) for m in deps(n)) or any(is_line(m) and (m.attr[1], m.attr[2][1]) in loops for m in deps(n))
    for k, (text, want) in OUTCAR.items():
        def assume(n, st):
            if any(isinstance(m.const, str) and any(w in m.const for w in MARKS) for m in deps(n)): modes.update(m.id for m in deps(n) if any_line(m))
            vs = [T.val(n) for T in (Text(lambda m, t=t: t if is_line(m) else None) for t, _ in OUTCAR.values())]
            if None in vs or len({bool(v) for v in vs}) == 1 and searching(n): return None
            tested.add(n.id)
            return bool(texts[k].val(n))
        texts[k].memo = {}
        E.I.assume = assume
        r = E.call_method(f"sign outcar {k}", f, None, E.st)
        E.I.assume = None
        w = wavenumbers(r)
        con = f"{short('ramannoodle.io.vasp.outcar.read_phonons')} [{k}]"
        if w is None: chk.unknown("outcar", con, where, f"no wavenumbers: {r.error}"); continue
        T = texts[k]; T.memo = {}
        got = T.val(w)
        if T.refused and got is None: chk.bad("outcar", con, where, f"the line of a {k} is not understood: {T.refused}")
        elif not isinstance(got, (int, float)): chk.unknown("outcar", con, where, f"value of the wavenumber not determined ({T.why})")
        else: chk.decide(same(got, want), "outcar", con, where, f"a {k} of {want} cm-1 is given the wavenumber {got}")
    chk.info["distinguishing_tests"] = len(tested)
    f = chk.anchor("ramannoodle.io.vasp.vasprun.read_phonons")
    where = (f.mod.rel, f.node.lineno)
    for k, (eig, want) in VASPRUN.items():
        text = f"   {eig:.8f}  {eig:.8f}  "
        def given(n):
            if n.op == "xml:text" and any(isinstance(x.const, str) and "eigenvalues" in x.const for x in deps(n)): return text
            if n.op == "leaf" and isinstance(n.attr, tuple) and n.attr[0] == "loopidx": return 0
        def assume(n, st):
            v = Text(given).val(n)
            return bool(v) if isinstance(v, (bool, int, float)) else None
        E.I.assume = assume
        r = E.call_method(f"sign vasprun {k}", f, None, E.st)
        E.I.assume = None
        w = wavenumbers(r)
        con = f"{short('ramannoodle.io.vasp.vasprun.read_phonons')} [{k}]"
        if w is None: chk.unknown("vasprun", con, where, f"no wavenumbers: {r.error}"); continue
        T = Text(given); got = T.val(w)
        if not isinstance(got, (int, float)): chk.unknown("vasprun", con, where, f"value of the wavenumber not determined ({T.why})")
        else: chk.decide(same(got, want), "vasprun", con, where, f"a {k} (eigenvalue {eig} THz^2) is given the wavenumber {got} instead of {want}")
