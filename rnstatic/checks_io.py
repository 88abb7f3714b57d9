"""C05, C06, C08: what reaches the file system."""
from .framework import *
from .interp import modes_of, read_only

OS_ERRORS = ("FileExistsError", "FileNotFoundError", "OSError", "PermissionError", "IsADirectoryError", "NotADirectoryError")


def writes(r):
    return [e for e in r.events if e.kind == "open" and not read_only(e.data["mode"])]


def params(f): return [p.arg for p in f.node.args.args + f.node.args.kwonlyargs]


def public_callables(E):
    for dotted, f in E.public_functions(): yield dotted, None, f
    for dotted, c in E.public_classes():
        for n, kind, f in E.class_members(c):
            if kind == "method": yield f"{dotted}.{n}", c, f


def runs(E, dotted, c, f, force):
    """Run a public callable in all its variants with some arguments forced (None: omitted)."""
    out = []
    insts = [(None, E.st, "")] if c is None else E.instance(c)
    for ref, st, tag in insts:
        ins = E.instance_args(f, st)
        for itag, given, st1 in ins or []:
            for v in E.variants(f):
                g, st2 = E.special(dotted, f, given, st1)
                fr = {k: (x(st2, v) if callable(x) else x) for k, x in force.items()}
                g.update({k: x for k, x in fr.items() if x is not None})
                name = f"{dotted}({','.join(map(str, v.values()))})[{','.join(f'{k}={x}' for k, x in fr.items())}]" + tag
                ff = f
                if any(x is None for x in fr.values()): ff = DropParams(f, [k for k, x in fr.items() if x is None])
                out.append((v, call(E, name, ff, f, ref, st2, v, g)))
    return out


class DropParams:
    def __init__(self, f, drop): self.f, self.drop = f, drop


def call(E, name, ff, f, ref, st, v, given):
    if isinstance(ff, DropParams):
        # omit optional parameters: give everything else explicitly
        kw = {}
        for p in f.node.args.args[(1 if ref is not None else 0):]:
            if p.arg in ff.drop: continue
            x = given.get(p.arg)
            if x is None: x = E.argument(f.name, p.arg, st, v.get(p.arg))
            if x is not None: kw[p.arg] = x
        return E.run(name, f, [ref] if ref is not None else [], kw, st)
    return E.call_method(name, f, ref, st, v, given)


def literals(pc):
    """Elementary facts of a path condition."""
    todo = [(c, p) for c, p in pc_list(pc) if c is not None]
    while todo:
        c, p = todo.pop()
        if c.op == "not": todo.append((c.args[0], not p))
        elif c.op == "and" and p or c.op == "or" and not p: todo += [(a, p) for a in c.args]
        elif c.op in ("and", "or"):
            neutral = c.op == "and"
            rest = [a for a in c.args if not (a.is_const() and bool(a.const) == neutral) and not (a.op == "not" and a.args[0].is_const() and bool(a.args[0].const) != neutral)]
            if len(rest) == 1: todo.append((rest[0], p))
        else: yield c, p


def exists_guard(E, e, want=False):
    """The open only happens when the destination was found not to exist."""
    pn = e.data["path"]
    return any(c.op == "fs:exists" and p == want and (c.args[0] is pn or leaves(c.args[0]) == leaves(pn)) for c, p in literals(e.pc))


# ------------------------------------------------------------------ C05
def c05(chk):
    E = chk.entries()
    g = E.g
    n = 0
    E.all()
    covered = set()
    for dotted, c, f in public_callables(E):
        if "overwrite" not in params(f): continue
        covered.add(dotted)
        n += 1
        con = short(dotted)
        forms = [({}, "")]
        if "filepath" in params(f): forms.append(({"filepath": lambda st, v: E.I.lib.mkpath(g.leaf("filepath", (), "s"), st)}, " given a Path"))
        for (label, val), (force, form) in itertools.product((("overwrite=False", g.const(False)), ("overwrite omitted", None), ("overwrite=True", g.const(True))), forms):
            for v, r in runs(E, dotted, c, f, {"overwrite": val, **force}):
                k = f"{con}: {label}{form}" + (f" {list(v.values())}" if v else "")
                where = (f.mod.rel, f.node.lineno)
                if r.error:
                    chk.unknown("overwrite", k, where, r.error); continue
                bad = False
                ws = writes(r)
                for e in r.events:
                    if e.kind == "fsop":
                        if label != "overwrite=True" and not (e.data["what"].endswith(("mkdir", "makedirs"))):
                            bad = True
                            chk.bad("overwrite", k, e.site, f"{e.data['what']} on the file system without an overwrite request")
                for e in ws:
                    ms = modes_of(e.data["mode"])
                    if label == "overwrite=True":
                        if ms is None: chk.unknown("overwrite", k, e.site, "open mode not known"); bad = True
                        elif any("x" in m for m in ms):
                            bad = True
                            chk.bad("overwrite", k, e.site, f"the request to overwrite does not reach this open (mode {sorted(ms)})")
                        elif any("a" in m or "+" in m and "w" not in m for m in ms):
                            bad = True
                            chk.bad("overwrite", k, e.site, f"appends to the existing file (mode {sorted(ms)})")
                    else:
                        if exists_guard(E, e): continue
                        if ms is None: chk.unknown("overwrite", k, e.site, "open mode not known"); bad = True
                        elif any("x" not in m for m in ms):
                            bad = True
                            chk.bad("overwrite", k, e.site, f"opens an existing destination with mode {sorted(ms)} although overwriting was not requested")
                    d = destination(E, r, e, f)
                    if d is False:
                        bad = True
                        chk.bad("destination", k, e.site, "the file that is opened for writing is not the one that was asked for")
                fmt = v.get("file_format")
                for val2, st in r.paths or []:
                    if ("ghost", "clean") in st.facts:
                        bad = True
                        chk.bad("overwrite", k, where, "returns normally without having written the file")
                if not bad and (ws or r.st is None): chk.ok("overwrite", k, where, f"{len(ws)} write(s), {len(r.raises)} refusals")
                elif not bad: chk.unknown("overwrite", k, where, "no write seen")
    # nothing else may write
    seen = set()
    for r in E.all():
        base = r.name.split("(")[0].split("@")[0].split(":")[0]
        if base in covered: continue
        for e in writes(r) + [e for e in r.events if e.kind == "fsop"]:
            if e.kind == "open":
                ms = modes_of(e.data["mode"])
                if ms is not None and all("x" in m for m in ms): continue
                if exists_guard(E, e): continue
            chk.bad("no-other-writes", f"{short(base)}", e.site, f"changes the file system ({e.kind}) without an overwrite parameter")
            seen.add(base)
        if base not in seen: chk.ok("no-other-writes", short(base))
    if not n: raise Vanished("public functions with an overwrite parameter")


def destination(E, r, e, f):
    pn = e.data["path"]
    ls = leaves(pn)
    names = set()
    for l in ls:
        a = l.attr
        if isinstance(a, tuple) and a and a[0] in ("loopidx", "srcidx"): continue
        names.add(a if isinstance(a, str) else str(a))
    if not names: return False if pn.is_const() else None
    ok = all(n.startswith(("filepath", "h.filepath")) for n in names)
    if not ok: return False
    # the path must be the argument itself, not something derived from it
    ops = {x.op for x in deps(pn)}
    if any(o.startswith(("path:with", "path:parent", "str", "path:join")) for o in ops): return False
    return True


# ------------------------------------------------------------------ C06
def shape_tweaks(E, f):
    """One argument at a time with a wrong shape."""
    N = E.N
    out = [(None, None)]
    for p in params(f):
        code = E.OVERRIDE.get((f.name, p), E.SHAPES.get(p))
        if code or p == "atomic_numbers": out.append((p, code))
    return out


def c06(chk):
    n = 0
    nthrow = 0
    base = chk.entries()
    base.all()
    writers = []
    for dotted, c, f in public_callables(base):
        rs = [r for r in base.all() if r.name.split("(")[0].split("@")[0].split(":")[0] == dotted]
        if "overwrite" in params(f) or any(writes(r) for r in rs): writers.append((dotted, f))
    for dotted, f in writers:
        scen = [("valid shapes", None)]
        for p, code in shape_tweaks(base, f)[1:]:
            scen.append((f"{p}: wrong rank", (p, "rank")))
            scen.append((f"{p}: wrong extent", (p, "ext")))
            if code and code[0] in "NTASFBM" and len(code) > 1: scen.append((f"{p}: wrong last extent", (p, "last")))
        for label, tw in scen:
            E = chk.entries(("w", dotted, label))
            if tw: E.tweak = tweaker(E, *tw)
            cls = None
            ff = E.I.get(dotted) if "." in dotted else None
            try: ff = E.I.get(dotted)
            except KeyError: ff = None
            if not isinstance(ff, FuncV):
                chk.unknown("clean-refusal", short(dotted), "", "method writers are not covered"); continue
            for force in file_args(E, ff):
                E.I.throwlog = []
                rr = runs(E, dotted, None, ff, force)
                log = E.I.throwlog
                E.I.throwlog = None
                for v, r in rr:
                    n += 1
                    judge(chk, E, dotted, ff, label, v, r, log)
    chk.info["writer_scenarios"] = n
    if not writers: raise Vanished("functions that write files")


def tweaker(E, param, how):
    extra = new_sym(("tweak", param), 1)
    def t(name, shape):
        if name != param: return None
        if how == "rank": return shape + (Dim.const(2),)
        s = list(shape)
        i = len(s) - 1 if how == "last" else 0
        s[i] = s[i] + extra
        return tuple(s)
    return t


def file_args(E, f):
    ps = params(f)
    opts = [{}]
    if "file_format" in ps:
        fmts = [lambda st, v: E.g.leaf("file_format", (), "s")]
        opts = [{}] + [{"file_format": x} for x in fmts]
    if "filepaths" in ps:
        lst = lambda st, v: E.S.strlist(st, "filepaths", E.A)
        lstF = lambda st, v: E.S.strlist(st, "filepaths", E.F)
        mixed = lambda st, v: E.S.list(st, "filepaths", Union([E.g.leaf("filepaths[]", (), "s"), E.g.const(3)]), E.A)
        opts = [dict(o, filepaths=x) for o in opts for x in (lst, lstF, mixed)]
    return opts


def judge(chk, E, dotted, f, label, v, r, log):
    con0 = f"{short(dotted)}: {label}" + (f" {list(v.values())}" if v else "")
    if r.error:
        chk.unknown("clean-refusal", con0, "", r.error); return
    opens = writes(r)
    for exc, est in r.raises:
        con = f"{short(dotted)}: {exc.name()} in {exc_where(exc)}"
        if ("ghost", "clean") in est.facts:
            chk.ok("clean-refusal", con, exc.site, "nothing has been opened for writing"); continue
        if exc.name() in OS_ERRORS:
            continue
        mine = [l for l in log if l[0].key() == exc.key()]
        dirty = [l for l in mine if not l[1]]
        clean = [l for l in mine if l[1]]
        if not dirty:
            # joined with a later state only
            chk.ok("clean-refusal", con, exc.site, "raised before anything is opened"); continue
        if clean:
            outer = set()
            for l in dirty: outer |= set(l[3])
            dep = None
            for l in dirty:
                for c, p in pc_list(l[2]):
                    if c is not None and loop_dependent(c, l[3], E): dep = c
            if dep is None:
                chk.ok("clean-refusal", con, exc.site, "the same check has already passed before the first file is opened"); continue
            msg = f"raised for one destination after an earlier destination was written ({r.name})"
        else: msg = f"raised after the destination was opened for writing ({r.name})"
        chk.bad("clean-refusal", con, exc.site, f"{exc.name()} ({exc.why or 'raised'}): {msg}")


def exc_where(exc):
    return exc.trail[-1][0].rsplit(".", 1)[-1] if exc.trail else f"{exc.site[0]}"


def loop_dependent(c, loops, E):
    keys = set()
    idx = set()
    for l in loops[:1]:            # the outermost loop encloses the open
        idx.add(l)
        if isinstance(l.attr, tuple) and l.attr[0] == "loopidx": keys.add((l.attr[1], l.attr[2], l.attr[3]))
    for n in deps(c):
        if n in idx: return True
        if n.op == "loopphi" and n.attr[0] in keys: return True
    return False


# ------------------------------------------------------------------ C08
VASP = "ramannoodle.io.vasp."
TABLE = {
    "read_phonons": {"outcar": "outcar.read_phonons", "vasprun.xml": "vasprun.read_phonons"},
    "read_trajectory": {"outcar": "outcar.read_trajectory", "vasprun.xml": "vasprun.read_trajectory"},
    "read_positions_and_polarizability": {"outcar": "outcar.read_positions_and_polarizability", "vasprun.xml": "vasprun.read_positions_and_polarizability"},
    "read_structure_and_polarizability": {"outcar": "outcar.read_structure_and_polarizability", "vasprun.xml": "vasprun.read_structure_and_polarizability"},
    "read_polarizability_dataset": {"outcar": "outcar.read_polarizability_dataset", "vasprun.xml": "vasprun.read_polarizability_dataset"},
    "read_positions": {"poscar": "poscar.read_positions", "outcar": "outcar.read_positions", "xdatcar": "poscar.read_positions", "vasprun.xml": "vasprun.read_positions"},
    "read_ref_structure": {"poscar": "poscar.read_ref_structure", "outcar": "outcar.read_ref_structure", "xdatcar": "poscar.read_ref_structure", "vasprun.xml": "vasprun.read_ref_structure"},
    "write_structure": {"poscar": "poscar.write_structure", "xdatcar": "poscar.write_structure"},
    "write_trajectory": {"xdatcar": "xdatcar.write_trajectory"},
}
ALIAS = {"xdatcar.read_positions": "poscar.read_positions", "xdatcar.read_ref_structure": "poscar.read_ref_structure", "xdatcar.write_structure": "poscar.write_structure"}
GEN = "ramannoodle.io.generic."


def c08(chk):
    E = chk.entries()
    E.all()
    g, I = E.g, E.I
    listed = sorted({k for t in TABLE.values() for k in t})
    near = [f for x in listed for f in (x.upper(), x.capitalize(), " " + x, x + " ", x + "\n", "." + x, x + ".gz", x[:-1], x + "s", x.replace(".", "_"), x.split(".")[0])]
    everyfmt = listed + sorted(set(near + ["contcar", "", "vasprun", "xml", "hdf5", "no such format"]) - set(listed))
    for fn, table in TABLE.items():
        f = chk.anchor(GEN + fn)
        where = (f.mod.rel, f.node.lineno)
        for fmt in everyfmt:
            con = f"generic.{fn}({fmt!r})"
            r = runs(E, GEN + fn, None, f, {"file_format": g.const(fmt)})[0][1]
            for k, x, form in other_forms(E, f, fmt in table):
                r2 = runs(E, GEN + fn, None, f, {"file_format": g.const(fmt), k: x})[0][1]
                ent2 = top_entries(r2) if not r2.error else []
                if not r2.error and not ent2 and r2.raises and not r2.paths: chk.bad("dispatch", con + form, where, f"refused with {sorted({x.name() for x, _ in r2.raises})}")
                elif ent2: passed(chk, E, r2, ent2[0][1], con + form)
            if r.error:
                chk.unknown("dispatch", con, where, r.error); continue
            ent = top_entries(r)
            if fmt not in table:
                if r.paths: chk.bad("unsupported", con, where, "does not refuse a format the documentation does not list")
                elif r.raises and all(x.name() == "ValueError" for x, _ in r.raises) and not ent: chk.ok("unsupported", con, where, "ValueError")
                else: chk.bad("unsupported", con, where, f"refused with {sorted({x.name() for x, _ in r.raises})} instead of ValueError" if not ent else f"calls {ent[0][0]}")
                continue
            want = table[fmt]
            names = [x[0] for x in ent]
            if not ent: chk.bad("dispatch", con, where, "a documented format is not dispatched to any reader or writer: " + ", ".join(sorted({x.name() for x, _ in r.raises})))
            elif any(ALIAS.get(x, x) != want for x in names): chk.bad("dispatch", con, ent[0][1].site, f"calls {names[0]}, the documented operation is {want}")
            else:
                chk.ok("dispatch", con, where, want)
                passed(chk, E, r, ent[0][1], con)
            own = [x for x, _ in r.raises if x.site and x.site[0] == f.mod.rel]
            if own and names:
                chk.bad("dispatch", con + " errors", own[0].site, f"an error of {want} leaves as {own[0].name()} raised by the generic function")
            # exception handlers of the generic function must not catch what the reader raises
            for e in r.events:
                if e.kind == "caught" and e.ctx and e.ctx[-1] == GEN + fn and any(x.site and x.site[0] != f.mod.rel for x in e.data["excs"]):
                    x = next(x for x in e.data["excs"] if x.site and x.site[0] != f.mod.rel)
                    chk.bad("dispatch", con + " errors", e.site, f"catches {x.name()} raised inside {want} ({x.site[0]}:{x.site[1]})")
            # the result is handed back unchanged
            if names and r.paths:
                ex = [e for e in r.events if e.kind == "exit" and e.data["fn"] is ent[0][1].data["fn"]]
                rv = {repr(I.node_of(v, s).id) for v, s in r.paths if v is not None}
                iv = {repr(I.node_of(e.data["ret"], r.st).id) for e in ex if e.data.get("ret") is not None} if r.st is not None else set()
                if iv and rv:
                    if rv & iv or fn.startswith("write"): chk.ok("result", con, where, "returned unchanged")
                    else: chk.unknown("result", con, where, "result not identified")
        # methods that take a file_format reach the generic function with it unchanged: C08 file_format rule
    formats_everywhere(chk, E)


def other_forms(E, f, supported):
    """Paths may be given as Path objects as well as strings, several of them or a single one."""
    if not supported: return
    leaf = lambda p: E.g.leaf(p, (), "s")
    if "filepath" in params(f): yield "filepath", lambda st, v: E.I.lib.mkpath(leaf("filepath"), st), " given a Path"
    if "filepaths" in params(f):
        yield "filepaths", lambda st, v: leaf("filepaths"), " given a single str"
        yield "filepaths", lambda st, v: E.I.lib.mkpath(leaf("filepaths"), st), " given a single Path"


def top_entries(r):
    out = []
    for e in r.events:
        if e.kind != "enter" or len(e.ctx) < 2: continue
        fn = e.data["fn"]
        q = fn.mod.name + "." + fn.qual()
        if not q.startswith(VASP): continue
        if any(c.startswith(VASP) for c in e.ctx[:-1]): continue
        if fn.name.startswith("_"): continue
        out.append((q[len(VASP):], e))
    return out


def passed(chk, E, r, e, con):
    """Every argument of the generic call arrives under the same name."""
    got = e.data["args"]
    for p, v in r.args["kw"].items():
        if p == "file_format": continue
        if p not in got:
            chk.bad("arguments", f"{con} {p}", e.site, f"argument {p} is not passed on"); continue
        x = got[p]
        if x is v or x == v or same(E, r, x, v): chk.ok("arguments", f"{con} {p}", e.site)
        else: chk.bad("arguments", f"{con} {p}", e.site, f"argument {p} is changed on the way to the format's function")


def same(E, r, a, b):
    """The same argument, up to wrapping paths in Path objects and a single path in a list."""
    def plain(v, st):
        o = E.I.obj(v, st) if isinstance(v, Ref) else None
        if isinstance(o, ListO) and o.elem is not None and o.items is None:
            return ("list", plain(o.elem, st), o.length)
        if isinstance(o, ListO) and o.items is not None and len(o.items) == 1: return plain(o.items[0], st)
        n = E.I.node_of(v, st)
        while n.op == "path" and n.args: n = n.args[0]
        return n
    for st in (r.pre, r.st) + tuple(s for _, s in (r.paths or []) + (r.raises or [])):
        if st is None: continue
        try:
            if plain(a, st) == plain(b, st): return True
        except Exception: pass
    return False


def formats_everywhere(chk, E):
    """Whatever else takes a file_format hands it to the generic functions unchanged, and an unknown format is refused."""
    g = E.g
    for dotted, c, f in public_callables(E):
        if "file_format" not in params(f) or dotted.startswith(GEN): continue
        where = (f.mod.rel, f.node.lineno)
        res = {}
        for fmt in ("outcar", "vasprun.xml", "poscar", "xdatcar", "no such format"):
            res[fmt] = [r for v, r in runs(E, dotted, c, f, {"file_format": g.const(fmt)})]
        gens = {fmt: [[e for e in r.events if e.kind == "enter" and (e.data["fn"].mod.name + "." + e.data["fn"].qual()).startswith(GEN)] for r in rs] for fmt, rs in res.items()}
        if not any(x for l in gens.values() for x in l):
            if any(r.error for rs in res.values() for r in rs): chk.unknown("file_format", short(dotted), where, "not analysed")
            elif any(r.paths for rs in res.values() for r in rs): chk.bad("file_format", short(dotted), where, "file_format reaches no generic reader or writer")
            continue          # refuses every call
        for fmt, rs in res.items():
            con = f"{short(dotted)}({fmt!r})"
            for r, es in zip(rs, gens[fmt]):
                if r.error:
                    chk.unknown("file_format", con, where, r.error); continue
                wrong = [e for e in es if not (isinstance(e.data["args"].get("file_format"), Node) and e.data["args"]["file_format"].const == fmt)]
                if wrong: chk.bad("file_format", con, wrong[0].site, f"{wrong[0].data['fn'].name} is not called with the requested file format")
                elif not es and fmt != "no such format": chk.bad("file_format", con, where, f"the documented format {fmt!r} reaches no reader or writer")
                elif fmt == "no such format" and (r.paths or not any(x.name() == "ValueError" for x, _ in r.raises)):
                    chk.bad("file_format", con, where, "an unsupported format is not refused with ValueError")
                else: chk.ok("file_format", con, where, f"{len(es)} generic call(s)")
