"""C25: what the writers produce is accepted by the readers and read back unchanged."""
import re
from .framework import *
from .elem import *
from .checks_rules import Concrete
from .checks_text import Text

WRITERS = {"poscar.write_structure": "positions", "xdatcar.write_trajectory": "positions_ts"}
READERS = {"poscar.write_structure": ("poscar.read_positions", "poscar.read_structure", "poscar.read_ref_structure"), "xdatcar.write_trajectory": ("xdatcar.read_positions_ts",)}
TOL = 1e-13
NL = frozenset("\n\r")


# ------------------------------------------------------------------ rules for every size
SPEC = re.compile(r"(?:(?P<fill>.)?(?P<align>[<>=^]))?(?P<sign>[+\- ])?z?#?(?P<zero>0)?(?P<width>\d+)?(?P<group>[,_])?(?:\.(?P<prec>\d+))?(?P<type>[a-zA-Z%])?$")


def parse(spec):
    m = SPEC.match(spec) if isinstance(spec, str) else None
    return m and m.groupdict()


def digits(spec, conv):
    """Is a float printed in this format recovered to 1e-13?  True, False or None."""
    if conv in (114, 97): return None
    m = parse(spec)
    if m is None: return None
    if m["group"] == "," or m["type"] in ("%", "d"): return False
    if m["fill"] not in (None, " ", "0"): return False
    p, t = None if m["prec"] is None else int(m["prec"]), (m["type"] or "").lower()
    if t == "": return p is None or p >= 15
    if t == "f": return (6 if p is None else p) >= 13
    if t == "e": return (6 if p is None else p) >= 14
    if t in ("g", "n"): return (6 if p is None else p) >= 15
    return None


def room(spec):
    """Blank characters that a number of ordinary size certainly leaves in its column."""
    m = parse(spec)
    if m is None or not m["width"] or m["zero"] or m["fill"] not in (None, " "): return 0
    p = 17 if m["prec"] is None else int(m["prec"])
    return int(m["width"]) - (p + {"f": 2, "e": 7, "g": 7, "d": 0}.get((m["type"] or "g").lower(), 7))


def pieces(n):
    """Pieces of a text in order: constants, formatted values, and repeated texts ("rep", pieces, node)."""
    if n.op == "strcat": return [p for a in n.args for p in pieces(a)]
    if n.op == "loopphi" and len(n.args) == 2:
        back = n.args[1]
        if back.op == "strcat" and back.args[0] is n: return pieces(n.args[0]) + [("rep", [p for a in back.args[1:] for p in pieces(a)], n)]
        return [n]
    if n.op == "str:join" and n.args[0].const is not NO and n.args[1].op in ("listsum", "stack", "list"):
        l = n.args[1]
        if l.op == "list":
            out = []
            for i, a in enumerate(l.args): out += ([n.args[0]] if i else []) + pieces(a)
            return out
        return [("rep", pieces(l.args[0]) + [n.args[0]], n)]
    return [n]


def flat(ps):
    """Once around every repetition, with the seam of the repetition made visible."""
    out = []
    for p in ps:
        if isinstance(p, tuple): out += flat(p[1]) + flat(p[1])
        else: out.append(p)
    return out


def number(p): return isinstance(p, Node) and p.op == "fmt" and p.args[0].dt in ("f", "i", None, "b")


def glued(ps):
    """Pairs of numbers that are not kept apart by a blank."""
    last = None
    for p in flat(ps):
        if isinstance(p, Node) and p.const is not NO and isinstance(p.const, str):
            if any(c.isspace() for c in p.const): last = None
        elif number(p):
            if last is not None and room(p.attr[0]) < 5: yield last, p
            last = p
        else: last = None


def excluded(n, memo=None):
    """Line terminators that certainly do not occur in a text; None when the text is built in an unknown way."""
    memo = {} if memo is None else memo
    if n.id in memo: return memo[n.id]
    memo[n.id] = NL
    memo[n.id] = r = excluded1(n, memo)
    return r


def excluded1(n, memo):
    rec = lambda x: excluded(x, memo)
    both = lambda xs: None if any(x is None for x in xs) else NL.intersection(*xs) if xs else NL
    if n.const is not NO: return NL - set(n.const) if isinstance(n.const, str) else NL
    if n.op == "leaf": return frozenset()
    if n.op == "fmt":
        if n.attr[1] in (114, 97) or n.args[0].dt in ("i", "f", "b"): return NL
        return rec(n.args[0])
    if n.op == "str:substr": return rec(n.args[0])
    if n.op in ("strcat", "phi", "str:where"): return both([rec(x) for x in n.args])
    if n.op == "where": return both([rec(x) for x in n.args[1:]])
    if n.op == "loopphi": return both([rec(x) for x in n.args])
    m = n.op[4:] if n.op.startswith("str:") else ""
    if m == "replace" and len(n.args) >= 3 and all(a.const is not NO for a in n.args[1:3]):
        a, b = n.args[1].const, n.args[2].const
        base = rec(n.args[0])
        return None if base is None else frozenset((base | ({a} & NL)) - set(b)) | frozenset(base - set(b))
    if m in ("strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "removeprefix", "removesuffix", "swapcase", "ljust", "rjust", "center", "zfill"): return rec(n.args[0])
    if m == "join":
        seps = rec(n.args[0])
        sp = [x for x in deps(n.args[1]) if x.op in ("str:split", "str:splitlines")]
        if sp and all(len(x.args) == 1 for x in sp): return seps
        return None
    if n.op in ("anyelem", "iterelem", "item") and n.args and n.args[0].op in ("str:split", "str:splitlines", "str:partition", "str:rsplit"):
        s = n.args[0]
        if len(s.args) == 1: return NL
        base = rec(s.args[0])
        if base is None or s.args[1].const is NO: return None
        if s.op.endswith("partition") and n.attr != 0: return base
        return base | ({s.args[1].const} & NL)
    return None


def trips(n):
    """Loops that a node runs through: {loop index leaf: number of rounds}."""
    return {x: x.meta.get("trip") for x in deps(n) if x.op == "leaf" and isinstance(x.attr, tuple) and x.attr[0] in ("loopidx", "srcidx")}


def layout(chk, name, par):
    """Every number format, every seam between numbers, the label and the number of rows, for symbolic sizes."""
    E = chk.entries("plain")
    f = chk.anchor("ramannoodle.io.vasp." + name)
    r = E.call_method(name, f, None, E.st)
    if r.st is None: chk.unknown("layout", name, (f.mod.rel, f.node.lineno), r.error or "the writer does not finish"); return
    ws = [e for e in r.events if e.kind in ("write", "writelines") and e.data.get("node") is not None]
    if not ws: chk.unknown("layout", name, (f.mod.rel, f.node.lineno), "no text is written"); return
    st = r.st
    el = Elem(E.I, st)
    data = {"lattice": 2, par: 2 if par == "positions" else 3}
    seen, rows = 0, []
    for e in ws:
        ps = pieces(e.data["node"])
        for a, b in glued(ps):
            chk.bad("separate numbers", f"{name} {con(b)}", e.site, f"two numbers are written next to each other ({b.attr[0]})")
        for p in flat(ps):
            if not isinstance(p, Node): continue
            src = {l.attr for l in leaves(p) if isinstance(l.attr, str)}
            if "label" in src:
                x = excluded(p)
                chk.decide(None if x is None else x == NL, "label on one line", name, e.site, f"the label may contain {sorted(map(repr, NL - (x or NL)))} which ends the line")
                continue
            arr = src & set(data)
            if not arr or p.op != "fmt": continue
            if "atomic_numbers" in src: continue
            seen += 1
            w = sorted(arr)[0]
            chk.decide(digits(*p.attr), "digits", f"{name} {w} {p.attr[0]!r}", p.site or e.site, f"format {p.attr[0]!r} does not keep coordinates to 1e-13")
            v = p.args[0]
            if v.shape not in ((), None): chk.unknown("written value", f"{name} {w}", e.site, "not a number"); continue
            got = el.at(v, (), {})
            ids = [AT.vals[k] for k in got.atoms()]
            ok = len(got.d) == 1 and len(ids) == 1 and ids[0][0] == "leaf" and ids[0][1] == w and list(got.d.items())[0][0][0][1] == 1 and list(got.d.values())[0] == 1.0
            chk.decide(True if ok else None if why_unknown(got) else False, "written value", f"{name} {w}", p.site or e.site, f"written is {show(got)[:120]} and not an element of {w}")
            if w == par: rows.append((p, e))
    chk.decide(True if seen >= 6 else None, "layout", name, (f.mod.rel, f.node.lineno), f"only {seen} formatted coordinates recognised")
    # every atom of every configuration
    want = {str(E.N)} | ({str(E.T)} if par == "positions_ts" else set())
    got, site, unsure = set(), None, False
    for p, e in rows:
        for x, t in trips(p).items():
            if t is None: unsure = True
            else: got.add(str(st.norm(t)))
        site = site or e.site
    if rows:
        norm = {str(st.norm(E.N))} | ({str(st.norm(E.T))} if par == "positions_ts" else set())
        chk.decide(None if unsure else got == norm, "one line per atom", name, site, f"rows are written for {sorted(got)} rounds instead of {sorted(norm)}")


def why_unknown(p): return any(AT.vals[k][0] == "top" for k in p.atoms())


def con(n): return (n.attr[0] or "str").replace(" ", "_")


# ------------------------------------------------------------------ constants through the writer and the reader
LATS = {"small": ((4.0, 0.1234567890123456, 0.0), (-0.2, 5.000000000000003, 0.3), (0.0, -0.4, 6.7)),
        "edge": ((-123.4567890123456, 0.0, 1e-7), (0.0, 101.0, -20.25), (3.0, 0.5, 1234.0625))}
VALUES = {"small": [0.1234567890123456, 0.0, 0.9999999999999, 0.5, 1 / 3, 2e-13], "edge": [1e-9, 0.9999999999999999, 1.0, 0.0, 0.0625, 0.123456789012345678]}
ATOMS = ((8,), (22, 8), (22, 8, 8), (1, 1, 6, 8, 8), (1,) * 11 + (8,), (8, 22, 8), (22, 8, 8, 22))
LABELS = ("plain label", "", "  leading and trailing  ", "two\nlines", "carriage\rreturn", "both\r\n", "Selective dynamics", "Direct", "1.0 2.0 3.0", "quote ' and \"", "back\\slash n", "tab\there", "Å ünïcode \u2028 \x85 \x0b", "3", "Ti O", "#!{}%s %d")


class Rendered(Text):
    """The text that is written, when the numbers are given."""
    def __init__(self, el): super().__init__(lambda n: None); self.el = el

    def num(self, n):
        if n.const is not NO: return n.const
        v = self.el.const_of(n, (), {})
        if v is None: return None
        return int(v) if n.dt in ("i", "b") else float(v)

    def step(self, n):
        if n.const is not NO: return n.const
        if n.op == "strcat":
            a = [self.val(x) for x in n.args]
            return None if any(x is None for x in a) else "".join(a)
        if n.op == "fmt":
            x = n.args[0]
            v = self.val(x) if x.dt == "s" else self.num(x)
            if v is None or n.attr[0] == "?": return None
            if n.attr[1] in (114, 97):
                if not isinstance(v, str): return None
                v = repr(v) if n.attr[1] == 114 else ascii(v)
            return format(v, n.attr[0])
        if n.op == "str:join" and n.args[1].op == "list":
            a = [self.val(x) for x in n.args[1].args]
            s = self.val(n.args[0])
            return None if s is None or None in a else s.join(a)
        if n.op == "str:substr":
            x, sl = self.val(n.args[0]), n.args[1]
            if x is None or any(a.const is NO for a in sl.args): return None
            return x[slice(*[a.const for a in sl.args])]
        return super().step(n)


def nested(v, idx):
    for i in idx:
        if not i.is_const(): return None
        v = v[i.value()]
    return v


class Play:
    """One structure or trajectory through a writer and the readers."""
    def __init__(self, chk): self.chk, self.n, self.E = chk, 0, chk.entries("plain")

    def comparator(self, st, vals):
        el = Concrete(self.E.I, st)
        def f(v):
            def g(idx):
                x = nested(v, idx)
                return P.atom(("top", "row", tuple(idx))) if x is None else P.const(float(x))
            return g
        el.leafmap = {k: f(v) for k, v in vals.items()}
        return el

    def write(self, name, par, zs, S, kind, label):
        E, I = self.E, self.E.I
        self.n += 1
        st, n = E.st.fork(), len(zs)
        vs = VALUES[kind]
        row = lambda a, t: tuple(vs[(3 * a + k + 2 * t) % len(vs)] for k in range(3))
        pos = tuple(row(a, 0) for a in range(n)) if S is None else tuple(tuple(row(a, t) for a in range(n)) for t in range(S))
        I.cur = ("<input>", f"write{self.n}", 0)
        sh = tuple(Dim.const(x) for x in ((n, 3) if S is None else (S, n, 3)))
        given = {"lattice": E.S.arr(st, f"w{self.n}.lattice", (Dim.const(3),) * 2, "f"), par: E.S.arr(st, f"w{self.n}.pos", sh, "f"),
                 "atomic_numbers": I.alloc(st, ListO([E.g.const(z) for z in zs], None, Dim.const(n), "list"), ("in", f"wz{self.n}")), "label": E.g.const(label)}
        vals = {f"w{self.n}.lattice": LATS[kind], f"w{self.n}.pos": pos}
        names = set(vals)
        def assume(x, s):
            if x.shape not in ((), None): return None
            ls = leaves(x)
            if not ls or not all(l.attr in names for l in ls): return None
            v = self.comparator(s, vals).const_of(x)
            return None if v is None else bool(v)
        f = self.chk.anchor("ramannoodle.io.vasp." + name)
        I.assume = assume
        try: r = E.call_method(f"{name} #{self.n}", f, None, st, {}, given)
        finally: I.assume = None
        if r.st is None: return f, r, None, LATS[kind], pos
        R = Rendered(self.comparator(r.st, vals))
        out = []
        for e in r.events:
            if e.kind == "writelines": continue
            if e.kind != "write": continue
            t = R.val(e.data["node"])
            if not isinstance(t, str): return f, r, None, LATS[kind], pos
            out.append(t)
        return f, r, "".join(out), LATS[kind], pos

    def read(self, name, text):
        E, I = self.E, self.E.I
        self.n += 1
        f = self.chk.anchor("ramannoodle.io.vasp." + name)
        I.lib.file_text = [x for x in re.split(r"(?<=\n)", text.replace("\r\n", "\n").replace("\r", "\n")) if x]
        try: r = E.call_method(f"{name} #{self.n}", f, None, E.st)
        finally: I.lib.file_text = None
        return f, r

    def array(self, node, r):
        el = self.comparator(r.st, {})
        sh = el.shape(node)
        if sh is None or not all(d.is_const() for d in sh): return None
        def build(idx):
            if len(idx) == len(sh): return el.const_of(node, tuple(map(Dim.const, idx)), {})
            return tuple(build(idx + (i,)) for i in range(sh[len(idx)].value()))
        return build(())

    def result(self, name, r):
        """{what: values} of what a reader returns."""
        I = self.E.I
        v = r.value
        if name.endswith("read_structure") and isinstance(v, TupleV) and len(v.items) == 3: parts = {"lattice": v.items[0], "atomic numbers": v.items[1], "positions": v.items[2]}
        elif isinstance(I.obj(v, r.st), InstO):
            fs = I.obj(v, r.st).fields
            parts = {k: fs.get(a) for k, a in (("lattice", "_lattice"), ("atomic numbers", "_atomic_numbers"), ("positions", "_positions"))}
        else: parts = {"positions": v}
        out = {}
        for k, x in parts.items():
            if x is None: out[k] = None; continue
            if k == "atomic numbers":
                o = I.obj(x, r.st)
                out[k] = tuple(y.const if isinstance(y, Node) else None for y in o.items) if isinstance(o, ListO) and o.items is not None else None
                if out[k] is None:
                    a = self.array(I.node_of(x, r.st), r)
                    out[k] = None if a is None else tuple(int(z) if z is not None else None for z in a)
            else: out[k] = self.array(I.node_of(x, r.st), r)
        return out


def differ(a, b):
    """Do two nested tuples differ? None: unknown."""
    if a is None: return None
    if isinstance(b, tuple):
        if not isinstance(a, tuple) or len(a) != len(b): return True
        rs = [differ(x, y) for x, y in zip(a, b)]
        return True if True in rs else None if None in rs else False
    return abs(a - b) > TOL * max(1.0, abs(b) / 100)


def cases(par):
    for kind in VALUES:
        for zs in ATOMS:
            for S in ((None,) if par == "positions" else (1, 2, 3) if zs == (22, 8, 8) else (2,)): yield zs, S, kind, LABELS[0]
    for l in LABELS[1:]: yield (22, 8, 8), None if par == "positions" else 2, "small", l


def roundtrip(chk, name, par):
    for zs, S, kind, label in cases(par):
        pl = Play(chk)
        f, r, text, lat, pos = pl.write(name, par, zs, S, kind, label)
        where = (f.mod.rel, f.node.lineno)
        c = f"{name} {list(zs)}{'' if S is None else f' {S} configurations'} {kind} values label {label!r}"
        grouped = sum(a != b for a, b in zip(zs, zs[1:])) + 1 == len(set(zs))
        if r.st is None:
            ex = next((x for x, _ in r.raises if x.name() not in ("FileExistsError",)), None)
            chk.decide(None if ex is None or r.error else not grouped, "written at all", c, ex.site if ex else where, f"refused with {ex and ex.name()}")
            continue
        if text is None: chk.unknown("round trip", c, where, "written text not determined"); continue
        for rd in READERS[name]:
            if rd.endswith("ref_structure") and kind != "small": continue
            g, q = pl.read(rd, text)
            c2, w2 = f"{rd} of {c}", (g.mod.rel, g.node.lineno)
            bad = [x for x, _ in q.raises if x.name() not in ("FileNotFoundError", "SymmetryException")]
            if q.st is None:
                chk.decide(False if bad and not q.error else None, "accepted by the reader", c2, bad[0].site if bad else w2, f"refused with {bad and bad[0].name()}: line layout differs")
                continue
            if bad: chk.unknown("accepted by the reader", c2, bad[0].site, f"{bad[0].name()} not excluded")
            got = pl.result(rd, q)
            for k, v in got.items():
                want = {"lattice": lat, "atomic numbers": tuple(zs), "positions": pos}[k]
                d = differ(v, want)
                if bad and d is False: continue
                chk.decide(None if d is None else not d, "round trip", f"{c2} {k}", w2, f"read back {str(v)[:90]} instead of {str(want)[:90]}")


def encodings(chk):
    """The readers decode with the encoding of the writers, which can express every label."""
    E = chk.entries("plain")
    for name in WRITERS:
        used = {}
        for fn in (name,) + READERS[name]:
            f = chk.anchor("ramannoodle.io.vasp." + fn)
            r = E.call_method(fn, f, None, E.st)
            for e in r.events:
                if e.kind == "open":
                    n = e.data.get("enc")
                    used.setdefault("?" if n is None or n.const is NO else str(n.const).lower().replace("_", "-"), (fn, e.site))
        if not used: chk.unknown("encoding", name, None, "no file is opened"); continue
        us = {"utf-8" if u in ("utf8", "utf-8", "u8") else u for u in used}
        site = next(iter(used.values()))[1]
        if "?" in us: chk.unknown("encoding", name, site, "encoding not known")
        else: chk.decide(us == {"utf-8"} or len(us) == 1 and next(iter(us)).startswith(("utf-16", "utf-32")), "encoding", name, site, f"writer and readers use {sorted(us)}")


def c25(chk):
    for name, par in WRITERS.items():
        layout(chk, name, par)
        roundtrip(chk, name, par)
    encodings(chk)
    chk.info["worlds"] = f"{len(ATOMS)} atom lists, {len(LABELS)} labels, 1-3 configurations, two sets of values"
