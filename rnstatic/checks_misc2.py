"""C26: integer-valued arrays behave like floating-point arrays."""
from .framework import *


def _casts(r): return {(e.site, e.data.get("what") if isinstance(e.data, dict) else str(e.data)) for e in r.events if e.kind == "cast"}


def _returned(E, r):
    if r.st is None: return []
    out = []
    vals = [(r.value, "the result")]
    args = r.args.get("args") if isinstance(r.args, dict) else None
    if args and isinstance(args[0], Ref) and isinstance(r.st.heap.get(args[0].oid), InstO): vals.append((args[0], "the object"))
    for v, lab in vals:
        if isinstance(v, Node): out.append((lab, v)); continue
        for oid, path in reachable(r.st, v).items():
            if isinstance(r.st.heap.get(oid), ArrO): out.append((lab + path, E.I.content(r.st, Ref(oid))))
    return out


def truncations(E, r):
    out = {}
    for lab, node in _returned(E, r):
        for n in deps(node):
            if n.op == "trunc" or n.op == "cast" and n.dt in ("i", "b") and n.args and n.args[0].op not in ("cmp:<", "cmp:<=", "cmp:=="):
                out[(n.op, n.args[0].op if n.args else "", lab)] = lab
    return out


def c26(chk):
    E, F = chk.entries(), chk.entries("ints", ints=True)
    a, b = {r.name: r for r in E.all()}, {r.name: r for r in F.all()}
    n = 0
    for name, y in b.items():
        x = a.get(name)
        con = short(name)
        where = getattr(getattr(y, "fn", None), "site", "") or ""
        if x is None:
            chk.bad("accepted", con, where, "the object cannot be built from integer arrays" + (f": {y.raises[0][0].name()} {y.raises[0][0].why or str()}" if y.raises else "")); continue
        keys = {e.key() for e, _ in x.raises}
        names = {e.name() for e, _ in x.raises}
        n += 1
        new = [(e, s) for e, s in y.raises if e.key() not in keys]
        for e, _ in new:
            definite = y.st is None and x.st is not None or e.explicit or e.why
            chk.decide(False if definite else None, "accepted", con, e.site, f"{e.name()} for integer arrays only: {e.why or 'rejected'}")
        if (x.error is None) != (y.error is None) or (x.st is None) != (y.st is None):
            if not new: chk.decide(None, "accepted", con, where, f"no result with integers: {y.error or ''} / with floats: {x.error or ''}")
        elif not new: chk.ok("accepted", con, where)
        extra = _casts(y) - _casts(x)
        for site, what in extra: chk.bad("truncation", con, site, f"with integer arrays: {what}")
        if x.st is not None and y.st is not None:
            t = set(truncations(F, y)) - set(truncations(E, x))
            for op, arg, lab in t: chk.bad("truncation", con, where, f"{lab} is truncated to integers ({op} of {arg}) when the arrays are of integer type")
            if not extra and not t: chk.ok("truncation", con, where)
    # objects which can be built from floats but not from integers
    for name in set(a) - set(b):
        owner = name.rsplit(".", 1)[0]
        chk.decide(False if a[name].st is not None else None, "accepted", short(owner), "", "the object cannot be built from integer arrays")
    chk.info["operations_compared"] = n


# ------------------------------------------------------------------ C24
ORDERED = {"list", "tuple", "comp:list", "join", "enumerate", "zip", "map", "next", "iter", "set.pop", "array", "dict", "reversed", "sum", ""}
HASHED = {"s", "o", "None", "InstO", "Ref", "TupleV"}


def _ordering_loop(node):
    """does a loop body build something whose order can be seen?"""
    import ast
    for x in ast.walk(node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend", "insert", "write", "writelines"): return True
        if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Break)): return True
        if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add): return True
    return False


def _sinks(E, r):
    """nodes through which a call acts on the world: results, object state, written text, conditions of exceptions"""
    out = [n for _, n in _returned(E, r)]
    if r.st is not None:
        args = r.args.get("args") or ()
        todo = [r.value] + [a for a in args if isinstance(a, Ref)]
        for v in todo:
            for oid in reachable(r.st, v):
                o = r.st.heap.get(oid)
                if isinstance(o, InstO): out += [x for x in o.fields.values() if isinstance(x, Node)]
                if isinstance(o, ListO): out += [x for x in (o.items or [o.elem]) if isinstance(x, Node)]
                if isinstance(o, DictO): out += [x for x in list(o.items.values()) + [o.val] if isinstance(x, Node)]
    for e in r.events:
        if e.kind in ("write", "open", "writelines", "mut"): out += [x for x in e.data.values() if isinstance(x, Node)]
        if e.kind == "setfield": out += [x for x in e.data.values() if isinstance(x, Node)]
    for exc, st in r.raises: out += [c for c, _ in pc_list(st.pc) if isinstance(c, Node)]
    return out


def _uses(sinks, node):
    for s in sinks:
        for n in deps(s):
            if n is node: return True
    return False


STORES = ("uninit", "update", "loopphi", "phi")


def uninitialised(E, st, node):
    """True: an element of the array is never written; False: every element is; None: not decided"""
    has = {}
    def touched(n):
        r = has.get(n.id)
        if r is None: r = has[n.id] = n.op == "uninit" or any(x.op == "uninit" for x in deps(n))
        return r
    # arrays that are filled piece by piece, wherever they are used
    roots, seen, todo, simple = [], set(), [node], True
    while todo:
        x = todo.pop()
        if x.id in seen or not touched(x): continue
        seen.add(x.id)
        if x.op not in STORES: todo += x.args; continue
        roots.append(x)
        chain, inner, vals = [x], set(), []
        while chain:
            y = chain.pop()
            if y.id in inner: continue
            inner.add(y.id)
            for k, z in enumerate(y.args):
                if not touched(z): continue
                if z.op in STORES: chain.append(z)
                else: vals.append(z); todo.append(z)
        if any(w.id in inner for z in vals for w in deps(z)): simple = False
    if simple and roots and all(filled(E, st, x, touched) is False for x in roots): return False
    return filled(E, st, node, touched, True) if len(seen) < 60 else None


class Spent(Exception): pass


def filled(E, st, node, touched, deep=False):
    from .elem import Elem, P, AT
    left = [40000]
    class Written(Elem):
        """Only which elements were written matters, not the values."""
        def at_(self, n, idx, env):
            left[0] -= 1
            if left[0] < 0: raise Spent()
            if n.const is NO and n.ival is None and (not touched(n) or not deep and n.op not in STORES): return P.atom(("leaf", "WRITTEN", (n.id,)))
            return Elem.at_(self, n, idx, env)
    el = Written(E.I, st)
    mark = ("leaf", "UNINIT", ())
    el.leafmap["op", "uninit"] = lambda n, idx, env: P.atom(mark)
    s = el.shape(node)
    if s is None: return None
    import itertools
    axes = [[Dim.const(k) for k in range(d.value())] if d.is_const() and d.value() <= 9 else [new_sym(("u", node.id, i), 0)] for i, d in enumerate(s)]
    res = False
    for idx in itertools.islice(itertools.product(*axes), 200):
        try: p = el.at(node, idx)
        except Exception: return None
        h = unwritten(p, mark, any(not d.is_const() for d in idx))
        if h: return True
        if h is None: res = None
    return res


def unwritten(p, mark, symbolic):
    from .elem import AT
    def has(x):
        if x == mark: return True
        if isinstance(x, tuple): return any(has(y) for y in x)
        if isinstance(x, int) and not isinstance(x, bool): return False
        return False
    hit = False
    for m in p.d:
        ats = [AT.vals[k] for k, _ in m]
        if any(a == mark for a in ats):
            if len(ats) > 1 and any(a[0] in ("ind", "top", "phi") for a in ats): hit = None if hit is False else hit
            else: hit = True
        elif any(has_deep(a, mark) for a in ats): hit = None if hit is False else hit
        elif any(a[0] == "top" for a in ats) and hit is False: hit = None
    return hit


def has_deep(a, mark):
    from .elem import AT
    todo, seen = [a], set()
    while todo:
        x = todo.pop()
        if x == mark: return True
        if isinstance(x, tuple):
            if x and x[0] == "poly":
                for m in x[1]:
                    mono = m[0] if isinstance(m, tuple) and m and isinstance(m[0], tuple) else m
                    for q in mono:
                        k = q[0] if isinstance(q, tuple) else q
                        if isinstance(k, int) and k not in seen and k < len(AT.vals): seen.add(k); todo.append(AT.vals[k])
            else: todo += list(x)
    return False


ALLOWED_RANDOM = ("DataLoader(shuffle)",)


def c24(chk):
    E = chk.entries()
    I = E.I
    E.all()
    from .checks_io import top_entries
    mods = E.S.module_oids
    for e in E.S.import_events:
        if e.kind == "nondet": chk.bad("ambient-input", "import of " + str(e.site[0]), e.site, f"{e.data['what']} at import time")
        if e.kind == "extset": chk.bad("global-state", "import of " + str(e.site[0]), e.site, f"changes the global state of a library: {e.data.get('name')}")
    seen = 0
    memos = {e.data["fn"].mod.name + "." + e.data["fn"].qual() for e in E.S.import_events if e.kind == "memo" and isinstance(e.data["fn"], FuncV)}
    for r in E.S.log:
        con = short(r.name)
        where = getattr(r.fn, "site", "") or ""
        if r.st is None and not r.raises and r.error:
            chk.unknown("ambient-input", con, "", r.error); continue
        seen += 1
        sinks = None
        bad = False
        for e in r.events:
            k = e.kind
            if k == "nondet":
                what = e.data["what"]
                if what.startswith(ALLOWED_RANDOM): continue
                if what.startswith("torch.") and any(c.endswith(("reset_parameters", "__init__")) for c in e.ctx) and any(".torch." in c for c in e.ctx): continue
                n = e.data.get("node")
                if n is not None and what.split(".")[0] not in ("random",) and not what.endswith((".seed",)):
                    sinks = sinks if sinks is not None else _sinks(E, r)
                    if not _uses(sinks, n): continue
                chk.bad("ambient-input", con, e.site, f"the outcome depends on {what}"); bad = True
            elif k == "extset":
                chk.bad("global-state", con, e.site, f"changes the global state of a library: {e.data.get('name')}"); bad = True
            elif k == "global":
                n = e.data.get("new", e.data.get("value"))
                ls = leaves(n) if isinstance(n, Node) else None
                if isinstance(n, Node) and not ls and not has_top(n): continue
                chk.bad("global-state", con, e.site, f"rebinds the module variable {e.data.get('name')}, which later calls see"); bad = True
            elif k == "mut" and e.data["oid"] in mods:
                key, val = e.data.get("key"), e.data.get("value")
                if key is not None and val is not None:
                    extra = leaves(val) - leaves(key)
                    if not extra and not has_top(val): continue
                    chk.decide(False if extra else None, "global-state", con, e.site, "a module-level table keeps a value that depends on more than its key: " + ", ".join(sorted(str(l.attr) for l in extra))[:120])
                else: chk.bad("global-state", con, e.site, f"{e.data['how']} of a module-level object, which later calls see")
                bad = True
            elif k == "set-iter":
                kinds, who = set(e.data["kinds"]), e.data["who"]
                if kinds <= {"i", "b", "f", "c"}: continue
                if kinds & HASHED and (who in ORDERED or who == "for" and e.data["node"] is not None and _ordering_loop(e.data["node"])):
                    chk.bad("hash-order", con, e.site, f"the iteration order of a set of {'strings' if 's' in kinds else 'objects'} is observed ({who or 'iteration'})"); bad = True
                else: chk.unknown("hash-order", con, e.site, f"iteration over a set of {kinds} ({who})"); bad = True
            elif k == "open":
                if e.data.get("encoding") is False:
                    m = e.data.get("mode")
                    if isinstance(m, Node) and isinstance(m.const, str) and "b" in m.const: continue
                    chk.bad("locale", con, e.site, "text file opened without an encoding: what is read or written depends on the locale"); bad = True
        # a memoised function must not look at anything but its arguments
        for e in r.events:
            if e.kind in ("open", "read", "fsop", "nondet") and set(e.ctx) & memos:
                chk.bad("global-state", con, e.site, "a memoised function looks at the file system: later calls see an old file"); bad = True; break
        # memory that is handed out without having been written
        if r.st is not None:
            for lab, n in _returned(E, r):
                if any(x.op == "uninit" for x in deps(n)):
                    u = uninitialised(E, r.st, n)
                    if u is not False: bad = True
                    chk.decide(None if u is None else not u, "uninitialised", con, where, f"{lab} contains memory that was never written")
        if not bad: chk.ok("deterministic", con, where)
    chk.info["runs_examined"] = seen
