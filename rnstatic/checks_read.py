"""C07: what readers report for files they cannot read."""
from .framework import *
from .core import *

ALWAYS = {"InvalidFileException", "FileNotFoundError", "OSError", "PermissionError", "IsADirectoryError", "UserError", "UnicodeDecodeError"}
ALSO = {"read_ref_structure": {"SymmetryException"}, "read_polarizability_dataset": {"IncompatibleStructureException"}}
GENERIC = "ramannoodle/io/generic.py"
ARGUMENTS = {"timestep", "file_format", "filepath", "filepaths"}


def from_arguments(exc, st):
    """Was an explicit error decided by the arguments of the reader, not by what a file contains?"""
    if not exc.explicit: return False
    if exc.site and exc.site[0] == GENERIC: return True      # dispatch on the format, see C08
    conds = [c for c, _ in pc_list(st.pc) if c is not None]
    if not conds: return False
    ls = {n for n in deps(conds[-1]) if n.op in ("leaf", "dim", "top", "opaque", "loopphi") or n.op.startswith("xml:")}
    return bool(ls) and all(n.op == "leaf" and isinstance(n.attr, str) and n.attr in ARGUMENTS for n in ls)


def empty_argument(exc, st):
    """Extents differ only where a list of files was empty."""
    conds = [c for c, _ in pc_list(st.pc) if c is not None]
    if not exc.explicit or not conds: return False
    c = conds[-1]
    while c.op == "not": c = c.args[0]
    if c.op != "cmp:==": return False
    def alts(n): return [n] if n.op != "phi" else [y for x in n.args for y in alts(x)]
    x, y = [[a for a in alts(n) if not (a.const is not NO and a.const == 0)] for n in c.args]
    if len(x) + len(y) == sum(len(alts(n)) for n in c.args): return False
    return all(a.ival is not None and b.ival is not None and st.norm(a.ival) == st.norm(b.ival) for a in x for b in y)


def compared(E, exc):
    """Were the extents that have to agree compared with each other between the elements?"""
    ext = components(exc.extents)
    if not ext: return False
    same = set()
    for site, pairs in E.I.tests.items():
        if not site[0].startswith("ramannoodle/io/"): continue      # comparisons made by constructors come later
        for a, b in pairs:
            if a & b: same |= a | b
    return bool(ext & same)


def vague(E, exc, st):
    """Does the error hinge on a count the analysis lost, not on what was read?"""
    ext = set(exc.extents)
    if exc.explicit:
        conds = [c for c, _ in pc_list(st.pc) if c is not None]
        if conds:
            for n in deps(conds[-1]):
                if n.ival is not None: ext |= n.ival.syms()
                if n.op == "top" or n.op.startswith("call:") and n.shape is None: return True
    return bool((components(ext) | ext) & E.I.lossy)


def c07(chk):
    E = chk.entries()
    found, sites, readers, lost = {}, {}, [], {}
    for r in E.all():
        dotted = r.name.split("(")[0]
        fn = dotted.split(".")[-1]
        if not dotted.startswith("ramannoodle.io.") or not fn.startswith("read_"): continue
        where = (r.fn.mod.rel, r.fn.node.lineno) if getattr(r, "fn", None) is not None else None
        con = short(r.name).replace("io.", "", 1)
        if r.error:
            chk.unknown("reader", con, where, r.error); continue
        readers.append(con)
        allowed = ALWAYS | ALSO.get(fn, set())
        bad = None
        for exc, st in r.raises:
            n = exc.name()
            owner = short(exc.trail[-1][0]) if exc.trail else con
            if n in allowed:
                sites.setdefault((owner, n), (exc.site, set()))[1].add(con); continue
            if from_arguments(exc, st): continue
            if empty_argument(exc, st): continue
            if n == "ValueError" and compared(E, exc):
                sites.setdefault((owner, "agreement of extents compared before use"), (exc.site, set()))[1].add(con); continue
            if vague(E, exc, st):
                lost.setdefault((owner, n), (exc, set()))[1].add(con); continue
            bad = exc
            why = exc.why or ("raise statement" if exc.explicit else "")
            found.setdefault((owner, n, why), (exc, set()))[1].add(con)
        if bad is None: chk.ok("reader", con, where, f"{len(r.raises)} ways to fail, all documented")
    for (owner, n), (site, who) in sorted(sites.items(), key=repr):
        chk.ok("documented", f"{owner}: {n}", site, f"reached from {len(who)} readers")
    for (owner, n, why), (exc, who) in sorted(found.items(), key=lambda x: repr(x[0])):
        chain = " <- ".join(f"{short(a)} (called at {b[0]}:{b[1]})" for a, b in reversed(exc.trail[-4:]))
        chk.bad("documented", f"{owner}: {n}", exc.site, f"{n} ({why}) leaves {sorted(who)[0]}" + (f" and {len(who) - 1} more" if len(who) > 1 else "") + f"; path: {chain}")
    for (owner, n), (exc, who) in sorted(lost.items(), key=lambda x: repr(x[0])):
        chk.unknown("documented", f"{owner}: {n}", exc.site, f"{n} ({exc.why}): the number of rounds of a loop is not known")
    if not readers: chk.unknown("reader", "all", None, "no reader could be analysed")
    chk.info["rule"] = "every exception that leaves a reader of a file with arbitrary text is a documented one; an operation on file data that may raise and is not shown safe counts as raising"
    chk.info["functions"] = readers
